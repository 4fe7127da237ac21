//! C13: opening damaged archives.
#[macro_use]
extern crate flatcheck;
use flatcheck::archprog::*;
use flatcheck::model::*;
use flatcheck::runner::{self, Obs, Prop, Sub};
use flatcheck::util::*;
use flatdata::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    a: usize,
    content: ArchContent,
    file: bool,
    damage: Vec<(u16, Damage)>,
    /// opened as this archive type
    open_as: usize,
}
fn case(a: usize) -> BoxedStrategy<Case> {
    (
        arch_strategy(a, 4),
        any::<bool>(),
        prop_oneof![1 => prop::collection::vec(damage_strategy(), 0..1), 5 => prop::collection::vec(damage_strategy(), 1..2), 3 => prop::collection::vec(damage_strategy(), 2..6)],
        prop_oneof![20 => Just(a), 1 => 0..ARCHIVES.len()],
    )
        .prop_map(move |(content, file, damage, open_as)| Case { a, content, file, damage, open_as })
        .boxed()
}
fn storage(file: bool, d: &TempDir, files: &std::collections::BTreeMap<String, Vec<u8>>, dirs: &[String]) -> Result<Rc<dyn ResourceStorage>, String> {
    Ok(if file {
        for (n, b) in files {
            put_file(&d.0, n, b);
        }
        for n in dirs {
            std::fs::create_dir_all(d.join(n)).map_err(|e| format!("harness: {}", e))?;
        }
        FileResourceStorage::new(d.path())
    } else {
        let st = MemoryResourceStorage::new("/mem");
        put_memory(&*st, files)?;
        st
    })
}
fn judge(c: &Case, st: Rc<dyn ResourceStorage>, files: &std::collections::BTreeMap<String, Vec<u8>>, ctx: &str) -> Result<bool, String> {
    let none = vec![None; ARCHIVES[c.open_as].res.len()];
    let content = if c.open_as == c.a { &c.content } else { &none };
    let want = expected_open(c.open_as, content, files, "");
    let r = no_panic(ctx, || open_archive(c.open_as, st))?;
    match (want, r) {
        (Err(_), Err(_)) => Ok(false),
        (Err(n), Ok(x)) => Err(format!("{}: opens although {} is not intact; reads {:?}", ctx, n, catch(|| x.dump()))),
        (Ok(_), Err(e)) => Err(format!("{}: all mandatory resources are intact, got {:?}", ctx, e)),
        (Ok(w), Ok(x)) => {
            same!(no_panic(ctx, || x.dump())?, w, "{}: contents", ctx);
            no_panic(ctx, || x.debug().len())?;
            Ok(true)
        }
    }
}
fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let intact = files_of(c.a, &c.content);
    let mut files = intact.clone();
    let mut dirs = vec![];
    let mut hit = vec![];
    for (p, d) in &c.damage {
        hit.extend(damage_one(&mut files, &mut dirs, *p, d));
    }
    // a directory replaces a file, in a directory that may itself be gone
    dirs.retain(|d| !files.contains_key(d));
    let d = TempDir::new();
    let st = storage(c.file, &d, &files, &dirs)?;
    let ctx = format!("{} opened as {} with {:?}: {:?}", ARCHIVES[c.a].name, ARCHIVES[c.open_as].name, hit, c.damage);
    let opened = judge(c, st.clone(), &files, &ctx)?;
    same!(judge(c, st, &files, &format!("second attempt: {}", ctx))?, opened, "second attempt: {}", ctx);
    o.class(if opened { "opens" } else { "fails" });
    o.class_if(opened && files != intact, "opens without a damaged optional resource");
    o.class_if(c.open_as != c.a, "opened as another archive");
    o.class_if(hit.iter().any(|h| h.contains('/')), "damage in a sub-archive");
    o.class_if(hit.iter().any(|h| h.contains("_index")), "index of a multivector damaged");
    o.nontrivial_if(files != intact);
    Ok(())
}
/// Every single file missing, cut by one byte, extended by one, with its header off by one.
fn each(c: &Case, o: &mut Obs) -> Result<(), String> {
    let intact = files_of(c.a, &c.content);
    for (k, key) in intact.keys().enumerate() {
        for how in 0..5u64 {
            let mut files = intact.clone();
            match how {
                0 => {
                    files.remove(key);
                }
                1 => {
                    files.get_mut(key).unwrap().pop();
                }
                2 => files.get_mut(key).unwrap().push(b' '),
                3 => {
                    let b = files.get_mut(key).unwrap();
                    if !b.is_empty() {
                        b[0] ^= 1;
                    }
                }
                _ => files.get_mut(key).unwrap().clear(),
            }
            let d = TempDir::new();
            let st = storage(c.file, &d, &files, &[])?;
            let ctx = format!("{} with {} {}", ARCHIVES[c.a].name, key, ["missing", "cut by a byte", "extended by a byte", "with its first bit flipped", "emptied"][how as usize]);
            let opened = judge(c, st, &files, &ctx)?;
            o.exec(&[k as u64, how], files != intact);
            o.class(if opened { "opens" } else { "fails" });
        }
    }
    Ok(())
}
fn main() {
    let n = ARCHIVES.len() as u64;
    runner::main(Prop {
        id: "C13",
        level: "exploration",
        rule: "complete archives of every generated schema, laid out by the reference encoder in memory or on disk, with any set of \
               damages to any files (missing, empty, truncated, extended, header changed, schema edited, not UTF-8, of another \
               resource, a directory in its place), or opened as another archive type; in sub-check 'each' every single file is \
               damaged in five ways in turn; the expected outcome and contents come from a model of the rule; non-trivial = some \
               file differs from the intact archive",
        assumptions: &["payload bytes are not protected by the format and are left alone"],
        subs: vec![
            Sub::sweep("damage", n, 4_000, 60_000, |a| case(a as usize), check),
            Sub::sweep("each", n, 36, 500, |a| case(a as usize).prop_map(|mut c| { c.open_as = c.a; c.damage.clear(); c }).boxed(), each),
        ],
    })
}
