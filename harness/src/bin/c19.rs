//! C19: readers.
#[macro_use]
extern crate flatcheck;
#[path = "../fault.rs"]
mod fault;
use flatcheck::archprog::*;
use flatcheck::archworld::{self, ACase};
use flatcheck::crowd::{self, Crowd};
use flatcheck::model::*;
use flatcheck::runner::{self, Obs, Prop, Sub};
use flatcheck::stprog::{self, StCase};
use flatcheck::util::*;
use flatdata::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, Ordering};

fn mem(c: &ACase, o: &mut Obs) -> Result<(), String> {
    archworld::run(c, false, true, o).map(|_| ())
}
fn file(c: &ACase, o: &mut Obs) -> Result<(), String> {
    archworld::run(c, true, true, o).map(|_| ())
}
fn st_mem(c: &StCase, o: &mut Obs) -> Result<(), String> {
    stprog::run(c, false, o).map(|_| ())
}
fn st_file(c: &StCase, o: &mut Obs) -> Result<(), String> {
    stprog::run(c, true, o).map(|_| ())
}
fn crowd_mem(c: &Crowd, o: &mut Obs) -> Result<(), String> {
    crowd::run(c, false, o)
}
fn crowd_file(c: &Crowd, o: &mut Obs) -> Result<(), String> {
    crowd::run(c, true, o)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Par {
    a: usize,
    content: ArchContent,
    other: (usize, ArchContent),
    plan: Plan,
    readers: u8,
    rounds: u8,
}
fn par_case() -> BoxedStrategy<Par> {
    (arch_case(6), arch_case(6), Plan::strategy(), 2u8..5, 1u8..6)
        .prop_map(|((a, content), other, plan, readers, rounds)| Par { a, content, other, plan, readers, rounds })
        .boxed()
}
/// Several threads read an archive, each with storages of its own, while another archive is written next to it.
fn parallel(c: &Par, o: &mut Obs) -> Result<(), String> {
    let d = TempDir::new();
    let files = files_of(c.a, &c.content);
    for (n, b) in &files {
        put_file(&d.join("x"), n, b);
    }
    let go = AtomicBool::new(false);
    let r: Vec<Result<(), String>> = std::thread::scope(|s| {
        let mut hs = vec![];
        for t in 0..c.readers {
            let (d, go) = (d.path(), &go);
            hs.push(s.spawn(move || -> Result<(), String> {
                while !go.load(Ordering::Acquire) {
                    std::hint::spin_loop()
                }
                let mut kept = vec![];
                for n in 0..c.rounds {
                    let ctx = format!("reader {} round {}", t, n);
                    let root = FileResourceStorage::new(d.clone());
                    let st = root.subdir("x");
                    let x = no_panic(&ctx, || open_archive(c.a, st))?.map_err(|e| format!("{}: {:?}", ctx, e))?;
                    let got = no_panic(&ctx, || x.dump())?;
                    if got != c.content {
                        return Err(format!("{}: got {:?}, expected {:?}", ctx, got, c.content));
                    }
                    kept.push(x);
                    // the other archive may or may not be complete
                    let other = root.subdir("y");
                    if let Ok(y) = no_panic(&ctx, || open_archive(c.other.0, other))? {
                        let got = no_panic(&ctx, || y.dump())?;
                        for (g, w) in got.iter().zip(&c.other.1) {
                            fn within(g: &Option<Content>, w: &Option<Content>) -> bool {
                                match (g, w) {
                                    (None, _) => true,
                                    (Some(Content::Sub(g)), Some(Content::Sub(w))) => g.iter().zip(w).all(|(g, w)| within(g, w)),
                                    (g, w) => g == w,
                                }
                            }
                            if !within(g, w) {
                                return Err(format!("{}: an archive being written: got {:?}, expected {:?}", ctx, g, w));
                            }
                        }
                    }
                }
                for x in &kept {
                    if x.dump() != c.content {
                        return Err(format!("reader {}: contents changed", t));
                    }
                }
                Ok(())
            }));
        }
        let (path, go) = (d.path(), &go);
        hs.push(s.spawn(move || -> Result<(), String> {
            let st: std::rc::Rc<dyn ResourceStorage> = FileResourceStorage::new(path.join("y"));
            go.store(true, Ordering::Release);
            build(c.other.0, &st, &c.other.1, &c.plan)
        }));
        hs.into_iter().map(|h| h.join().map_err(|_| "thread panicked".to_string()).and_then(|x| x)).collect()
    });
    for x in r {
        x?;
    }
    let mut want: BTreeMap<String, Vec<u8>> = files.into_iter().map(|(n, b)| (format!("x/{}", n), b)).collect();
    want.extend(files_of(c.other.0, &c.other.1).into_iter().map(|(n, b)| (format!("y/{}", n), b)));
    same_tree(&tree(&d.0), &want, "after reading")?;
    o.nontrivial_if(!c.content.is_empty());
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ro {
    a: usize,
    content: ArchContent,
    damage: Vec<(u16, Damage)>,
    denied: bool,
    opens: u8,
}
fn ro_case() -> BoxedStrategy<Ro> {
    (arch_case(20), prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(damage_strategy(), 1..3)], any::<bool>(), 1u8..4)
        .prop_map(|((a, content), damage, denied, opens)| Ro { a, content, damage, denied, opens })
        .boxed()
}
/// Everything that can be read can be read where nothing can be written.
fn read_only(c: &Ro, o: &mut Obs) -> Result<(), String> {
    let d = TempDir::new();
    let mut files = files_of(c.a, &c.content);
    let mut dirs = vec![];
    for (p, x) in &c.damage {
        damage_one(&mut files, &mut dirs, *p, x);
    }
    for (n, b) in &files {
        put_file(&d.join("x"), n, b);
    }
    let before = tree(&d.0);
    let root = FileResourceStorage::new(d.path());
    let want = expected_open(c.a, &c.content, &files, "");
    fault::arm(fault::Act::ReadOnly { errno: if c.denied { libc::EACCES } else { libc::EROFS } });
    let got = catch(|| {
        let mut out = vec![];
        for _ in 0..c.opens {
            let st = root.subdir("x");
            out.push(open_archive(c.a, st).map(|x| (x.dump(), x.dup().dump())).map_err(|e| format!("{:?}", e)));
        }
        let st = root.subdir("x");
        let raw: Vec<_> = files.keys().map(|n| (st.exists(n), st.read_resource(n).map(|b| b.to_vec()).map_err(|e| format!("{:?}", e)))).collect();
        (out, raw)
    });
    fault::disarm();
    let (opened, raw) = got.map_err(|e| format!("reading where nothing can be written: panic {:?}", e))?;
    for (n, r) in opened.into_iter().enumerate() {
        let ctx = format!("opening {} where nothing can be written, attempt {}", ARCHIVES[c.a].name, n);
        match (&want, r) {
            (Ok(w), Ok((x, y))) => {
                same!(x, *w, "{}: contents", ctx);
                same!(y, *w, "{}: contents of a clone", ctx);
                o.class("opens");
            }
            (Err(_), Err(_)) => o.class("fails"),
            (Ok(_), Err(e)) => return Err(format!("{}: all of it is there, got {}", ctx, e)),
            (Err(e), Ok(_)) => return Err(format!("{}: opens although {} is not intact", ctx, e)),
        }
    }
    for ((n, b), (there, r)) in files.iter().zip(raw) {
        ensure!(there, "{:?} does not exist where nothing can be written", n);
        match r {
            Ok(x) => ensure!(x == *b, "{:?}: other contents where nothing can be written", n),
            Err(e) => return Err(format!("{:?} cannot be read where nothing can be written: {}", n, e)),
        }
    }
    same_tree(&tree(&d.0), &before, "after reading")?;
    o.nontrivial_if(count_resources(&c.content) > 0);
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Often {
    /// through one storage object
    Read,
    /// through a sub-directory asked for again every time
    Subdir,
    /// through a new storage object every time (in memory: written to a new one, then read)
    Fresh,
    /// what does not exist, has another schema or does not match its header
    Fail,
    /// opening an archive
    Open,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct OftenCase {
    file: bool,
    how: Often,
    sizes: Vec<usize>,
    schema: usize,
    arch: (usize, ArchContent),
}
fn often_case() -> BoxedStrategy<OftenCase> {
    let size = prop_oneof![3 => 0usize..300, 2 => 3_000usize..10_000, 1 => 30_000usize..300_000];
    let how = prop::sample::select(vec![Often::Read, Often::Subdir, Often::Fresh, Often::Fail, Often::Open]);
    (any::<bool>(), how, prop::collection::vec(size, 1..6), prop_oneof![0usize..100, 4_000usize..9_000], arch_case(3))
        .prop_map(|(file, how, sizes, schema, arch)| OftenCase { file, how, sizes, schema, arch })
        .boxed()
}
/// Reads so often that there would not be enough memory if something of every time was kept.
fn often(c: &OftenCase, o: &mut Obs) -> Result<(), String> {
    use std::rc::Rc;
    const SPARE: usize = 4 << 20;
    let d = TempDir::new();
    let fresh = || -> Rc<dyn ResourceStorage> {
        if c.file {
            FileResourceStorage::new(d.path())
        } else {
            MemoryResourceStorage::new("/m")
        }
    };
    let root = fresh();
    let schema = "s".repeat(c.schema);
    let all: Vec<(String, Vec<u8>)> = c.sizes.iter().enumerate().map(|(k, n)| (format!("r{}", k), vec![k as u8 + 1; *n])).collect();
    let fill = |st: &Rc<dyn ResourceStorage>| all.iter().try_for_each(|(n, b)| st.write(n, &schema, b)).map_err(|e| format!("write: {:?}", e));
    fill(&root)?;
    fill(&root.subdir("x/y"))?;
    let archive = root.subdir("a");
    if c.how == Often::Open {
        build(c.arch.0, &archive, &c.arch.1, &Plan { order: vec![0], ways: vec![0], interleave: vec![] })?;
    }
    root.create_output_stream("cut").and_then(|s| s.borrow_mut().write_all(&[3; 50])).map_err(|e| format!("write: {:?}", e))?;
    root.create_output_stream("cut.schema").map_err(|e| format!("write: {:?}", e))?;
    let total: usize = c.sizes.iter().map(|n| n + c.schema + 200).sum();
    let (each, most) = match c.how {
        Often::Open => (100, if c.file { 6_000 } else { 30_000 }),
        Often::Fail => (200, 20_000),
        _ => (total, 60_000),
    };
    let read = |st: &Rc<dyn ResourceStorage>| -> Result<(), String> {
        for (n, b) in &all {
            match st.read(n, &schema) {
                Ok(x) => ensure!(x == &b[..], "{:?}: other contents", n),
                Err(e) => return Err(format!("{:?}: {:?}", n, e)),
            }
        }
        Ok(())
    };
    let step = || -> Result<(), String> {
        match c.how {
            Often::Read => read(&root),
            Often::Subdir => read(&root.subdir("x").subdir("y")),
            Often::Fresh => {
                let st = fresh();
                if !c.file {
                    fill(&st)?;
                    let _ = st.subdir("x").subdir("z").exists("r0");
                }
                read(&st)
            }
            Often::Fail => {
                ensure!(!root.exists("none"), "there is no such resource");
                ensure!(root.read("none", "s").is_err(), "there is no such resource");
                ensure!(root.read("x/none", "s").is_err(), "there is no such resource");
                ensure!(root.read("r0", "other").is_err(), "it has another schema");
                ensure!(root.read("cut", "").is_err(), "it does not match its header");
                Ok(())
            }
            Often::Open => {
                let x = open_archive(c.arch.0, archive.clone()).map_err(|e| format!("open: {:?}", e))?;
                ensure!(x.dump() == c.arch.1, "other contents");
                Ok(())
            }
        }
    };
    let times = (2 * (SPARE + 8 * total) / each).min(most);
    let mut done = 0;
    let r = no_panic(&format!("{:?}", c.how), || -> Result<(), String> {
        for _ in 0..3 {
            step()?;
        }
        let _limit = Scarce::new(SPARE + 8 * total);
        while done < times {
            step()?;
            done += 1;
        }
        Ok(())
    });
    r.and_then(|r| r).map_err(|e| format!("after {} times: {}", done, e))?;
    o.count("times", times as u64);
    o.class(match c.how {
        Often::Read => "one storage",
        Often::Subdir => "sub-directories",
        Often::Fresh => "new storages",
        Often::Fail => "failing",
        Often::Open => "archives",
    });
    o.nontrivial_if(times > 50);
    Ok(())
}

fn main() {
    runner::main(Prop {
        id: "C19",
        level: "exploration",
        rule: "histories of creating and filling archives and sub-archives in four directories (at once, streamed, partly, abandoned), \
               opening them at any time through several storage objects, keeping archives, clones and slices while others are opened, \
               written and storage objects dropped; every opening and read is judged by a model of the files complete at that moment and \
               made twice, every step checks all that was handed out before, reading steps must leave every stored byte and directory as \
               it was; storage programs with held slices; one storage with up to \
               1200 resources in up to 12 nested directories, looked up before they are written, read at once or later, all slices kept \
               and checked; archives (intact or damaged) read while every call that would change the file system or open \
               a file for writing fails; threads reading while another archive is written; reading (also in vain) and opening so often \
               that the memory left would not do if anything was kept each time. Non-trivial = at least two \
               successful reads (storage programs: two resources or one overwritten; crowds: 40 resources; often: 50 times)",
        assumptions: &[
            "a resource is not overwritten while data handed out for it is in use",
            "no name is a resource and a directory at once",
        ],
        subs: vec![
            Sub::new("memory", 5_000, 150_000, || archworld::acase(true, 30, 3), mem),
            Sub::new("file", 5_000, 150_000, || archworld::acase(true, 30, 3), file),
            Sub::new("storage-memory", 4_000, 100_000, || stprog::st_case(70_000, 40), st_mem),
            Sub::new("storage-file", 4_000, 100_000, || stprog::st_case(70_000, 40), st_file),
            Sub::new("crowd-memory", 400, 8_000, || crowd::crowd(1200), crowd_mem).shrink(200),
            Sub::new("crowd-file", 200, 4_000, || crowd::crowd(400), crowd_file).shrink(200),
            Sub::new("read-only", 6_000, 150_000, ro_case, read_only),
            Sub::new("threads", 800, 20_000, par_case, parallel),
            Sub::new("often", 120, 6_000, often_case, often).shrink(60),
        ],
    })
}
