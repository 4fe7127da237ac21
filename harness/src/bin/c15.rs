//! C15: I/O failures.
#[macro_use]
extern crate flatcheck;
#[path = "../fault.rs"]
mod fault;
use fault::{Act, Op};
use flatcheck::archprog::*;
use flatcheck::model::*;
use flatcheck::runner::{self, Obs, Profiles, Prop, Sub};
use flatcheck::util::*;
use flatdata::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::path::Path;
use std::rc::Rc;

const ERRNOS: &[i32] = &[
    libc::EIO,
    libc::ENOSPC,
    libc::EACCES,
    libc::EMFILE,
    libc::ENOENT,
    libc::EROFS,
    libc::EDQUOT,
    libc::EFBIG,
    libc::EPERM,
    libc::ENOMEM,
    libc::EAGAIN,
    libc::EINVAL,
    libc::ENOTDIR,
    libc::EBADF,
    libc::EOVERFLOW,
    libc::EPIPE,
];
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    a: usize,
    content: ArchContent,
    plan: Plan,
    dir: String,
    errnos: Vec<i32>,
}
fn case(a: usize, size: usize) -> BoxedStrategy<Case> {
    (
        arch_strategy(a, size),
        Plan::strategy(),
        prop::sample::select(vec!["", "", "x/y"]),
        prop::collection::vec(prop::sample::select(ERRNOS), 2..6),
    )
        .prop_map(move |(content, plan, dir, errnos)| Case { a, content, plan, dir: dir.into(), errnos })
        .boxed()
}
fn storage(root: &Path, dir: &str) -> Rc<dyn ResourceStorage> {
    let st: Rc<dyn ResourceStorage> = FileResourceStorage::new(root);
    if dir.is_empty() {
        st
    } else {
        st.subdir(dir)
    }
}
fn prefixed(dir: &str, f: BTreeMap<String, Vec<u8>>) -> BTreeMap<String, Vec<u8>> {
    if dir.is_empty() {
        return f;
    }
    f.into_iter().map(|(k, v)| (format!("{}/{}", dir, k), v)).collect()
}
fn program(c: &Case, st: &Rc<dyn ResourceStorage>, done: &mut dyn FnMut(&[usize])) -> Result<(), Bad> {
    let b = new_builder(c.a, st.clone()).map_err(|e| Bad::Fail(Fail::St(e)))?;
    write_archive(&*b, &c.content, &c.plan, &[], done)
}
/// Names of the files of one resource.
fn files_of_resource(a: usize, path: &[usize]) -> Option<Vec<String>> {
    let r = &ARCHIVES[a].res[path[0]];
    match r.kind {
        Kind::Sub(s) => {
            if path.len() == 1 {
                return None;
            }
            Some(files_of_resource(s, &path[1..])?.into_iter().map(|f| format!("{}/{}", r.name, f)).collect())
        }
        Kind::Multi(..) => Some(vec![r.name.into(), format!("{}.schema", r.name), format!("{}_index", r.name), format!("{}_index.schema", r.name)]),
        _ => Some(vec![r.name.into(), format!("{}.schema", r.name)]),
    }
}
/// Plans to run for a recorded run.
fn plans(log: &[(Op, usize)], errnos: &[i32]) -> Vec<Act> {
    let mut out = vec![];
    let mut k = 0;
    for (n, (op, len)) in log.iter().enumerate() {
        for persistent in &[false, true] {
            let mut errno = errnos[k % errnos.len()];
            if *op == Op::OpenR && errno == libc::ENOENT && *persistent {
                errno = libc::EIO;
            }
            k += 1;
            out.push(Act::Fail { n, errno, persistent: *persistent });
            if *op == Op::Write && *len > 0 {
                out.push(Act::Zero { n, persistent: *persistent });
            }
        }
    }
    out
}
/// Does this error report that failure?
fn carries(f: &Fail, act: Act, fired: Option<Op>) -> bool {
    match (f.io(), act) {
        (Some(_), _) if fired == Some(Op::Stat) => true,
        (Some(e), Act::Fail { errno, .. }) => {
            let injected = std::io::Error::from_raw_os_error(errno);
            // an error of its own kind may stand for it if that kind tells what happened, or if it has its text
            let telling = format!("{:?}", injected.kind()) != "Uncategorized" && e.kind() == injected.kind();
            e.raw_os_error() == Some(errno) || e.raw_os_error().is_none() && (telling || format!("{} {:?}", e, e).contains(&injected.to_string()))
        }
        (Some(e), Act::Zero { .. }) => e.kind() == std::io::ErrorKind::WriteZero,
        _ => false,
    }
}
fn check_write(c: &Case, o: &mut Obs) -> Result<(), String> {
    let want = prefixed(&c.dir, files_of(c.a, &c.content));
    let log = {
        let d = TempDir::new();
        let st = storage(&d.0, &c.dir);
        fault::arm(Act::Record);
        let r = catch(|| program(c, &st, &mut |_| {}));
        let (log, ..) = fault::disarm();
        r.map_err(|m| format!("writing: panicked: {}", m))?.map_err(|e| format!("writing: {:?}", e))?;
        same_tree(&tree(&d.0), &want, "written")?;
        log
    };
    for (k, act) in thin(plans(&log, &c.errnos), 3_000, log.len() as u64).into_iter().enumerate() {
        let d = TempDir::new();
        let st = storage(&d.0, &c.dir);
        let done = RefCell::new(vec![]);
        fault::arm(act);
        let r = catch(|| program(c, &st, &mut |p| done.borrow_mut().push(p.to_vec())));
        let (_, fired, hits) = fault::disarm();
        let ctx = format!("{:?} hit {:?} x {}", act, fired, hits);
        let r = r.map_err(|m| format!("{}: panicked: {}", ctx, m))?;
        let got = tree(&d.0);
        match r {
            Ok(()) => {
                same_tree(&got, &want, &format!("{}: everything succeeded", ctx))?;
                o.class("succeeds");
            }
            Err(Bad::Wrong(e)) => return Err(format!("{}: {}", ctx, e)),
            Err(Bad::Fail(f)) => {
                ensure!(hits > 0, "{}: fails without cause: {:?}", ctx, f);
                ensure!(carries(&f, act, fired), "{}: the error does not tell: {:?}", ctx, f);
                o.class(&format!("{:?} fails", fired.unwrap()));
            }
        }
        for p in done.borrow().iter() {
            for f in files_of_resource(c.a, p).unwrap_or_default() {
                let name = if c.dir.is_empty() { f } else { format!("{}/{}", c.dir, f) };
                ensure!(got.get(&name) == want.get(&name), "{}: {:?} was written with success but is not completely stored", ctx, name);
            }
        }
        // the archive left behind is complete or does not open
        let x = no_panic(&ctx, || open_archive(c.a, storage(&d.0, &c.dir)))?;
        if let Ok(x) = x {
            let got = no_panic(&ctx, || x.dump())?;
            partly(c.a, &c.content, &got, &ctx)?;
        }
        o.exec(&[k as u64], hits > 0);
    }
    Ok(())
}
/// Mandatory resources right, optional ones right or absent.
fn partly(a: usize, want: &ArchContent, got: &ArchContent, ctx: &str) -> Result<(), String> {
    for (i, r) in ARCHIVES[a].res.iter().enumerate() {
        match (&want[i], &got[i]) {
            (_, None) => ensure!(r.optional, "{}: mandatory resource {:?} absent", ctx, r.name),
            (Some(Content::Sub(w)), Some(Content::Sub(g))) => {
                if let Kind::Sub(s) = r.kind {
                    partly(s, w, g, ctx)?
                }
            }
            (w, g) => same!(g, w, "{}: resource {:?} of {}", ctx, r.name, ARCHIVES[a].name),
        }
    }
    Ok(())
}
fn has_optional(a: usize) -> bool {
    ARCHIVES[a].res.iter().any(|r| r.optional || if let Kind::Sub(s) = r.kind { has_optional(s) } else { false })
}
fn check_open(c: &Case, o: &mut Obs) -> Result<(), String> {
    let d = TempDir::new();
    for (n, b) in files_of(c.a, &c.content) {
        put_file(&d.0, &n, &b);
    }
    let before = tree(&d.0);
    let st = storage(&d.0, "");
    fault::arm(Act::Record);
    let r = catch(|| open_archive(c.a, st.clone()));
    let (log, ..) = fault::disarm();
    let x = r.map_err(|m| format!("opening: panicked: {}", m))?.map_err(|e| format!("opening: {:?}", e))?;
    same!(no_panic("reading", || x.dump())?, c.content, "contents");
    for (k, act) in thin(plans(&log, &c.errnos), 3_000, log.len() as u64).into_iter().enumerate() {
        let st = storage(&d.0, "");
        fault::arm(act);
        let r = catch(|| open_archive(c.a, st.clone()));
        let (_, fired, hits) = fault::disarm();
        let ctx = format!("open with {:?} hit {:?} x {}", act, fired, hits);
        match r.map_err(|m| format!("{}: panicked: {}", ctx, m))? {
            Ok(x) => {
                let got = no_panic(&ctx, || x.dump())?;
                if has_optional(c.a) {
                    partly(c.a, &c.content, &got, &ctx)?;
                } else {
                    same!(got, c.content, "{}: contents", ctx);
                }
                o.class("opens");
            }
            Err(e) => {
                let f = Fail::St(e);
                ensure!(hits > 0, "{}: fails without cause: {:?}", ctx, f);
                ensure!(carries(&f, act, fired), "{}: the error does not tell: {:?}", ctx, f);
                o.class(&format!("{:?} fails", fired.unwrap()));
            }
        }
        // no trace is left
        let x = no_panic(&ctx, || open_archive(c.a, st.clone()))?.map_err(|e| format!("{}: second attempt without failure: {:?}", ctx, e))?;
        same!(no_panic(&ctx, || x.dump())?, c.content, "{}: second attempt without failure: contents", ctx);
        o.exec(&[k as u64], hits > 0);
    }
    same_tree(&tree(&d.0), &before, "after opening")
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RoughCase {
    case: Case,
    max: usize,
    every: usize,
}
fn rough(a: usize, size: usize) -> BoxedStrategy<RoughCase> {
    (case(a, size), prop_oneof![2 => 1usize..20, 1 => 20usize..2000, 1 => Just(1 << 40)], prop_oneof![1 => Just(0usize), 2 => 1usize..5])
        .prop_map(|(case, max, every)| RoughCase { case, max, every })
        .boxed()
}
fn check_rough(r: &RoughCase, o: &mut Obs) -> Result<(), String> {
    let c = &r.case;
    let want = prefixed(&c.dir, files_of(c.a, &c.content));
    let d = TempDir::new();
    let st = storage(&d.0, &c.dir);
    fault::arm(Act::Rough { max: r.max, every: r.every });
    let x = catch(|| program(c, &st, &mut |_| {}));
    let (_, _, hits) = fault::disarm();
    x.map_err(|m| format!("short writes and interruptions: panicked: {}", m))?.map_err(|e| format!("short writes and interruptions: {:?}", e))?;
    same_tree(&tree(&d.0), &want, "written with short writes and interruptions")?;
    fault::arm(Act::Rough { max: r.max, every: r.every });
    let x = catch(|| open_archive(c.a, storage(&d.0, &c.dir)));
    let (_, _, hits2) = fault::disarm();
    let x = x.map_err(|m| format!("opening with interruptions: panicked: {}", m))?.map_err(|e| format!("opening with interruptions: {:?}", e))?;
    same!(no_panic("reading", || x.dump())?, c.content, "contents");
    o.count("writes shortened or calls interrupted", (hits + hits2) as u64);
    o.nontrivial_if(hits > 0);
    Ok(())
}

/// Streams so large that growing stores some of it; failures do not always end the program.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Large {
    multi: bool,
    n: usize,
    seed: u64,
    errnos: Vec<i32>,
    /// how many further calls are made after one failed
    patience: usize,
    rough: usize,
    /// many small items: the index exceeds its buffer, not the data
    #[serde(default)]
    items: bool,
}
fn large() -> BoxedStrategy<Large> {
    (any::<bool>(), 505usize..=1040, any::<u64>(), prop::collection::vec(prop::sample::select(ERRNOS), 2..5), prop_oneof![1 => Just(0usize), 1 => 1usize..20, 1 => Just(100_000)], 100_000usize..10_000_000)
        .prop_map(|(multi, n, seed, errnos, patience, rough)| Large { multi, n, seed, errnos, patience, rough, items: false })
        .boxed()
}
fn items() -> BoxedStrategy<Large> {
    (large(), 4_194_305usize..4_400_000).prop_map(|(l, n)| Large { multi: true, items: true, n, ..l }).boxed()
}
/// A multivector with an index of 8 bytes.
fn wide_multi() -> usize {
    (0..MULTIS.len()).find(|m| STRUCTS[MULTIS[*m].1].size == 8).unwrap()
}
fn item(c: &Large, i: usize) -> Vec<(usize, Rec)> {
    if !c.items {
        return vec![(big_multi().1, large_rec(c.seed, i))];
    }
    if i % 1024 != c.seed as usize % 1024 {
        return vec![];
    }
    let types = VARIADICS[MULTIS[wide_multi()].0].types;
    let mut x = Mix(c.seed ^ (i as u64) << 20);
    let k = x.next() as usize % types.len();
    vec![(k, STRUCTS[types[k].1].fields.iter().map(|f| from_bits(f.ty, f.width, x.next() & mask(f.width))).collect())]
}
fn huge() -> usize {
    STRUCTS.iter().position(|s| s.name == "Huge").unwrap()
}
fn big_multi() -> (usize, usize) {
    let m = (0..MULTIS.len()).find(|m| VARIADICS[MULTIS[*m].0].name == "VBig" && STRUCTS[MULTIS[*m].1].size >= 4).unwrap();
    let k = VARIADICS[MULTIS[m].0].types.iter().position(|t| t.1 == huge()).unwrap();
    (m, k)
}
fn large_rec(seed: u64, i: usize) -> Rec {
    let mut x = Mix(seed ^ (i as u64) << 20);
    STRUCTS[huge()].fields.iter().map(|f| from_bits(f.ty, f.width, x.next() | 1)).collect()
}
#[derive(Debug)]
struct Outcome {
    /// elements whose growing succeeded
    grown: Vec<usize>,
    failures: Vec<Fail>,
    /// None: dropped without closing
    closed: Option<Result<(), Fail>>,
}
fn write_large(c: &Large, st: &dyn ResourceStorage) -> Outcome {
    let m = if c.items { wide_multi() } else { big_multi().0 };
    let mut out = Outcome { grown: vec![], failures: vec![], closed: None };
    let w = if c.multi { start_multi(m, st, "r", "schema") } else { start_vector(huge(), st, "r", "schema") };
    let mut w = match w {
        Ok(w) => w,
        Err(e) => {
            out.failures.push(Fail::Io(e));
            return out;
        }
    };
    for i in 0..c.n {
        match if c.multi { w.grow_item(&item(c, i)) } else { w.grow_rec(&large_rec(c.seed, i)) } {
            Ok(()) => out.grown.push(i),
            Err(e) => {
                out.failures.push(e);
                if out.failures.len() > c.patience {
                    // the writer is dropped after its failure
                    return out;
                }
            }
        }
    }
    out.closed = Some(w.close_only());
    out
}
fn check_large(c: &Large, o: &mut Obs) -> Result<(), String> {
    let names: &[(&str, &str)] = if c.multi { &[("r_index", "index(schema)"), ("r", "schema")] } else { &[("r", "schema")] };
    let expected = |grown: &[usize]| -> Vec<Vec<u8>> {
        if c.multi {
            let m = if c.items { wide_multi() } else { big_multi().0 };
            let items: Vec<Vec<(usize, Rec)>> = grown.iter().map(|i| item(c, *i)).collect();
            let (a, b) = encode_multi(MULTIS[m].0, MULTIS[m].1, &items);
            vec![a, b]
        } else {
            vec![encode_vec(huge(), &grown.iter().map(|i| large_rec(c.seed, *i)).collect::<Vec<Rec>>())]
        }
    };
    let log = {
        let d = TempDir::new();
        let st = FileResourceStorage::new(d.path());
        fault::arm(Act::Record);
        let r = catch(|| write_large(c, &*st));
        let (log, ..) = fault::disarm();
        let r = r.map_err(|m| format!("writing: panicked: {}", m))?;
        ensure!(r.failures.is_empty() && matches!(r.closed, Some(Ok(()))), "writing: {:?}", r.failures);
        log
    };
    let mut acts = thin(plans(&log, &c.errnos), if c.items { 60 } else { 400 }, c.seed);
    acts.push(Act::Rough { max: c.rough, every: 3 });
    for (k, act) in acts.into_iter().enumerate() {
        let d = TempDir::new();
        let st = FileResourceStorage::new(d.path());
        fault::arm(act);
        let r = catch(|| write_large(c, &*st));
        let (_, fired, hits) = fault::disarm();
        let ctx = format!("{:?} hit {:?} x {}", act, fired, hits);
        let r = r.map_err(|m| format!("{}: panicked: {}", ctx, m))?;
        let first = r.failures.first().or(if let Some(Err(e)) = &r.closed { Some(e) } else { None });
        if let Some(e) = first {
            ensure!(hits > 0, "{}: fails without cause: {:?}", ctx, e);
            ensure!(carries(e, act, fired), "{}: the error does not tell: {:?}", ctx, e);
        }
        if let Some(Ok(())) = r.closed {
            let want = expected(&r.grown);
            for ((name, schema), w) in names.iter().zip(&want) {
                let got = st.read(name, schema).map_err(|e| format!("{}: closed with success, reading fails: {:?}", ctx, e))?;
                ensure!(got == &w[..], "{}: closed with success, but {:?} is not what was grown ({} bytes, expected {})", ctx, name, got.len(), w.len());
            }
        }
        if let Act::Rough { .. } = act {
            ensure!(r.failures.is_empty() && matches!(r.closed, Some(Ok(()))), "{}: visible in the result", ctx);
        }
        o.class(match &r.closed {
            None => "dropped after a failure",
            Some(Ok(())) if !r.failures.is_empty() => "closed after a failure",
            Some(Ok(())) => "closed",
            Some(Err(_)) => "closing fails",
        });
        o.exec(&[k as u64], hits > 0);
    }
    Ok(())
}
fn main() {
    let n = ARCHIVES.len() as u64;
    runner::main(Prop {
        id: "C15",
        level: "fault_enumeration",
        rule: "generated programs creating and writing, or opening, archives of every generated schema on disk; every libc call on a \
               file (open, write, lseek, mkdir, stat, mmap ...) made by the program fails in turn, once and from then on, with \
               errnos drawn from 16, and every write stores nothing once (of more than 3000 plans, 400 for large streams, 60 for large indices, the first and last ones and a spread of the others are run); in 'rough' writes are cut short and calls interrupted all \
               the time; in 'large' and 'items' streams (or the index of one) exceed their buffer so that growing fails, and the program goes on or not after it; \
               result, error, contents of what was reported stored and what opens afterwards are judged; non-trivial = the fault \
               was hit",
        assumptions: &[
            "failures of close(2) are not visible through std::fs::File",
            "a failing existence probe (stat) means the resource does not exist",
            "a failure on an optional resource while opening makes it absent",
        ],
        subs: vec![
            Sub::sweep("write", n, 10, 500, |a| case(a as usize, 4), check_write).shrink(60),
            Sub::sweep("open", n, 10, 500, |a| case(a as usize, 4), check_open).shrink(60),
            Sub::sweep("rough", n, 60, 3_000, |a| rough(a as usize, 20), check_rough),
            Sub::new("large", 8, 200, large, check_large).profiles(Profiles::Release).shrink(20),
            Sub::new("items", 8, 160, items, check_large).profiles(Profiles::Release).shrink(6),
        ],
    })
}
