//! C17: writers dropped without being closed.
#[macro_use]
extern crate flatcheck;
#[path = "../fault.rs"]
mod fault;
use fault::Act;
use flatcheck::archprog::*;
use flatcheck::model::*;
use flatcheck::runner::{self, Obs, Profiles, Prop, Sub};
use flatcheck::util::*;
use flatdata::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum What {
    Vec(usize),
    Multi(usize),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Start(u8, What),
    Grow(u8, u64, u16),
    Close(u8),
    Drop(u8),
    /// the open writers of this mask are dropped by an unwinding thread, maybe while nothing can be stored any more
    Unwind(u8, bool),
    /// they are dropped by a function returning normally
    DropMany(u8, bool),
    /// the storage is looked at by somebody else
    Look,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    file: bool,
    ops: Vec<Op>,
}
const NAMES: &[&str] = &["n0", "e_index", "d/n2", "a.b_data"];
fn op(what: BoxedStrategy<What>, many: u16) -> BoxedStrategy<Op> {
    let i = 0u8..NAMES.len() as u8;
    prop_oneof![
        5 => (i.clone(), what).prop_map(|(i, w)| Op::Start(i, w)),
        5 => (i.clone(), any::<u64>(), 1..=many).prop_map(|(i, s, n)| Op::Grow(i, s, n)),
        3 => i.clone().prop_map(Op::Close),
        2 => i.prop_map(Op::Drop),
        2 => (1u8..16, prop::bool::weighted(0.3)).prop_map(|(m, f)| Op::Unwind(m, f)),
        1 => (1u8..16, prop::bool::weighted(0.3)).prop_map(|(m, f)| Op::DropMany(m, f)),
        1 => Just(Op::Look),
    ]
    .boxed()
}
fn case() -> BoxedStrategy<Case> {
    let what = prop_oneof![(0..NUM_STRUCTS).prop_map(What::Vec), (0..MULTIS.len()).prop_map(What::Multi)].boxed();
    (any::<bool>(), prop::collection::vec(op(what, 4), 1..24)).prop_map(|(file, ops)| Case { file, ops }).boxed()
}
fn large_case() -> BoxedStrategy<Case> {
    let huge = STRUCTS.iter().position(|s| s.name == "Huge").unwrap();
    let m = (0..MULTIS.len()).find(|m| VARIADICS[MULTIS[*m].0].name == "VBig" && STRUCTS[MULTIS[*m].1].size >= 4).unwrap();
    let what = prop_oneof![Just(What::Vec(huge)), Just(What::Multi(m))].boxed();
    let op2 = op(what.clone(), 600);
    (any::<bool>(), what, 500u16..700, prop::collection::vec(op2, 0..4), any::<(bool, bool)>())
        .prop_map(|(file, w, n, mut ops, (unwind, broken))| {
            ops.push(if unwind { Op::Unwind(15, broken) } else { Op::DropMany(15, broken) });
            ops.insert(0, Op::Start(0, w));
            ops.insert(1, Op::Grow(0, 7, n));
            Case { file, ops }
        })
        .boxed()
}
fn rec(s: usize, x: &mut Mix) -> Rec {
    STRUCTS[s].fields.iter().map(|f| from_bits(f.ty, f.width, x.next())).collect()
}
struct Writer<'a> {
    w: Box<dyn DynWriter + 'a>,
    what: What,
    content: Content,
}
#[derive(Clone, Debug)]
enum State {
    Finished(What, Content),
    Unfinished(What),
}
fn count(c: &Content) -> usize {
    match c {
        Content::Vector(v) => v.len(),
        Content::Multi(v) => v.len(),
        _ => 0,
    }
}
struct Marker;
/// The thread panics while these are alive; that panic must arrive here.
fn unwind<'a>(ws: Vec<Writer<'a>>) -> Result<(), String> {
    let r = catch_unwind(AssertUnwindSafe(move || {
        let _alive = ws;
        resume_unwind(Box::new(Marker));
    }));
    match r {
        Err(e) if e.is::<Marker>() => Ok(()),
        Err(_) => Err("another panic replaced the one that was unwinding".into()),
        Ok(()) => unreachable!(),
    }
}
fn schema_of(i: usize) -> String {
    format!("schema {}", i)
}
fn verify(st: &dyn ResourceStorage, model: &BTreeMap<usize, State>, ctx: &str) -> Result<(), String> {
    for (i, s) in model {
        let name = NAMES[*i];
        let schema = schema_of(*i);
        let data = no_panic(ctx, || st.read(name, &schema).map(|x| x.to_vec()))?;
        let index = no_panic(ctx, || st.read(&format!("{}_index", name), &format!("index({})", schema)).map(|x| x.to_vec()))?;
        match s {
            State::Unfinished(w) => {
                ensure!(data.is_err(), "{}: {:?} ({:?}) was never closed, yet reads as {} bytes of valid data", ctx, name, w, data.unwrap().len());
                if let What::Multi(_) = w {
                    ensure!(index.is_err(), "{}: the index of {:?} was never closed, yet reads as {} bytes of valid data", ctx, name, index.unwrap().len());
                }
            }
            State::Finished(What::Vec(s), Content::Vector(v)) => {
                let d = data.map_err(|e| format!("{}: {:?} was closed, reading fails: {:?}", ctx, name, e))?;
                ensure!(d == encode_vec(*s, v), "{}: {:?} reads {} bytes, not the {} elements it was closed with", ctx, name, d.len(), v.len());
            }
            State::Finished(What::Multi(m), Content::Multi(v)) => {
                let d = data.map_err(|e| format!("{}: {:?} was closed, reading fails: {:?}", ctx, name, e))?;
                let x = index.map_err(|e| format!("{}: {:?} was closed, reading the index fails: {:?}", ctx, name, e))?;
                let (wi, wd) = encode_multi(MULTIS[*m].0, MULTIS[*m].1, v);
                ensure!(x == wi && d == wd, "{}: {:?} reads {} + {} bytes, not the {} items it was closed with", ctx, name, x.len(), d.len(), v.len());
            }
            _ => panic!("harness: state"),
        }
    }
    Ok(())
}
fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let d = TempDir::new();
    let st: Rc<dyn ResourceStorage> = if c.file { FileResourceStorage::new(d.path()) } else { MemoryResourceStorage::new("/m") };
    let schemas: Vec<String> = (0..NAMES.len()).map(schema_of).collect();
    let mut open: Vec<Option<Writer>> = NAMES.iter().map(|_| None).collect();
    let mut model: BTreeMap<usize, State> = BTreeMap::new();
    let mut dropped = 0;
    for (k, op) in c.ops.iter().enumerate() {
        let ctx = format!("step {} {:?}", k, op);
        match op {
            Op::Start(i, what) => {
                let i = *i as usize;
                if open[i].is_some() {
                    continue;
                }
                let w = no_panic(&ctx, || match what {
                    What::Vec(s) => start_vector(*s, &*st, NAMES[i], &schemas[i]),
                    What::Multi(m) => start_multi(*m, &*st, NAMES[i], &schemas[i]),
                })?
                .map_err(|e| format!("{}: {:?}", ctx, e))?;
                let content = match what {
                    What::Vec(_) => Content::Vector(vec![]),
                    What::Multi(_) => Content::Multi(vec![]),
                };
                open[i] = Some(Writer { w, what: *what, content });
                model.insert(i, State::Unfinished(*what));
            }
            Op::Grow(i, seed, n) => {
                if let Some(w) = &mut open[*i as usize] {
                    let mut x = Mix(*seed);
                    for _ in 0..*n {
                        let n0 = count(&w.content);
                        match (w.what, &mut w.content) {
                            (What::Vec(s), Content::Vector(v)) => {
                                let r = rec(s, &mut x);
                                w.w.grow_rec(&r).map_err(|e| format!("{}: {:?}", ctx, e))?;
                                v.push(r);
                                same!(w.w.state(), Some((n0 + 1, true)), "{}: length and open state", ctx);
                            }
                            (What::Multi(m), Content::Multi(v)) => {
                                let (va, idx) = MULTIS[m];
                                let types = VARIADICS[va].types;
                                let mut item = vec![];
                                if STRUCTS[idx].size >= 3 {
                                    for _ in 0..x.next() % 3 {
                                        let k = x.next() as usize % types.len();
                                        item.push((k, rec(types[k].1, &mut x)));
                                    }
                                }
                                w.w.grow_item(&item).map_err(|e| format!("{}: {:?}", ctx, e))?;
                                v.push(item);
                            }
                            _ => panic!("harness: writer"),
                        }
                    }
                }
            }
            Op::Close(i) => {
                if let Some(w) = open[*i as usize].take() {
                    let (what, content) = (w.what, w.content);
                    let w = w.w;
                    let got = no_panic(&ctx, || w.close())?.map_err(|e| format!("{}: {:?}", ctx, e))?;
                    ensure!(got == content, "{}: the returned view has {} elements, expected {}", ctx, count(&got), count(&content));
                    model.insert(*i as usize, State::Finished(what, content));
                    o.class("closed");
                }
            }
            Op::Drop(i) => {
                if let Some(w) = open[*i as usize].take() {
                    let w = w.w;
                    must_panic(&format!("{}: dropping an open writer", ctx), || drop(w))?;
                    dropped += 1;
                    o.class("dropped");
                }
            }
            Op::Unwind(mask, broken) | Op::DropMany(mask, broken) => {
                let mut ws = vec![];
                for i in 0..NAMES.len() {
                    if mask >> i & 1 == 1 {
                        ws.extend(open[i].take());
                    }
                }
                let n = ws.len();
                dropped += n;
                if *broken {
                    fault::arm(Act::Broken { errno: libc::ENOSPC });
                }
                if let Op::Unwind(..) = op {
                    let r = unwind(ws);
                    fault::disarm();
                    r.map_err(|e| format!("{}: {}", ctx, e))?;
                    o.class_if(n > 0, "unwound");
                    o.class_if(n > 1, "several unwound at once");
                } else if n > 0 {
                    let r = must_panic(&format!("{}: dropping {} open writers", ctx, n), || drop(ws));
                    fault::disarm();
                    r?;
                    o.class("several dropped");
                }
                fault::disarm();
                o.class_if(*broken && c.file && n > 0, "dropped while nothing can be stored");
            }
            Op::Look => {
                if c.file {
                    let other = FileResourceStorage::new(d.path());
                    verify(&*other, &model, &format!("{}, other storage", ctx))?;
                }
            }
        }
        for (i, w) in open.iter().enumerate() {
            if let Some(w) = w {
                if let Some(s) = w.w.state() {
                    same!(s, (count(&w.content), true), "{}: length and open state of {:?}", ctx, NAMES[i]);
                }
            }
        }
        verify(&*st, &model, &ctx)?;
    }
    o.class_if(model.values().any(|s| if let State::Finished(..) = s { true } else { false }) && dropped > 0, "both finished and dropped");
    o.nontrivial_if(dropped > 0);
    let rest: Vec<Writer> = open.iter_mut().filter_map(|w| w.take()).collect();
    unwind(rest).map_err(|e| format!("end: {}", e))?;
    verify(&*st, &model, "end")
}

/// An archive some of whose streams are dropped instead of closed.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Arch {
    a: usize,
    content: ArchContent,
    /// per resource: 0, 1 close, 2 drop, 3 unwind
    fate: Vec<u8>,
    /// number of elements grown before that, per mille
    part: u16,
    file: bool,
    /// the stored resource was complete before
    before: bool,
}
fn arch(a: usize) -> BoxedStrategy<Arch> {
    (arch_strategy(a, 5), prop::collection::vec(prop_oneof![3 => Just(0u8), 1 => Just(2u8), 1 => Just(3u8)], 1..8), 0u16..=1000, any::<bool>(), any::<bool>())
        .prop_map(move |(content, fate, part, file, before)| Arch { a, content, fate, part, file, before })
        .boxed()
}
fn check_arch(c: &Arch, o: &mut Obs) -> Result<(), String> {
    let d = TempDir::new();
    let st: Rc<dyn ResourceStorage> = if c.file { FileResourceStorage::new(d.path()) } else { MemoryResourceStorage::new("/m") };
    let b = new_builder(c.a, st.clone()).map_err(|e| format!("{:?}", e))?;
    let plan = Plan { order: vec![0], ways: vec![1], interleave: vec![] };
    let mut want = c.content.clone();
    let mut fails = false;
    for (i, x) in c.content.iter().enumerate() {
        let x = match x {
            None => continue,
            Some(x) => x,
        };
        let fate = c.fate[i % c.fate.len()];
        let streamed = if let Content::Vector(_) | Content::Multi(_) = x { true } else { false };
        let only = |x: &Content| -> ArchContent { (0..c.content.len()).map(|k| if k == i { Some(x.clone()) } else { None }).collect() };
        if !streamed || fate < 2 || c.before {
            write_archive(&*b, &only(x), &plan, &[], &mut |_| {}).map_err(|e| format!("{:?}", e))?;
        }
        if streamed && fate >= 2 {
            let mut w = b.start(i).map_err(|e| format!("start: {:?}", e))?;
            let n = count(x) * c.part as usize / 1000;
            for k in 0..n {
                match x {
                    Content::Vector(v) => w.grow_rec(&v[k]),
                    Content::Multi(v) => w.grow_item(&v[k]),
                    _ => unreachable!(),
                }
                .map_err(|e| format!("grow: {:?}", e))?;
            }
            if fate == 2 {
                must_panic("dropping an open writer of an archive", || drop(w))?;
            } else {
                drop_unwinding(w);
            }
            want[i] = None;
            fails |= !ARCHIVES[c.a].res[i].optional;
            o.nontrivial();
        }
    }
    let later: Rc<dyn ResourceStorage> = if c.file { FileResourceStorage::new(d.path()) } else { st.clone() };
    for st in &[st, later] {
        match no_panic("open", || open_archive(c.a, st.clone()))? {
            Ok(x) => {
                ensure!(!fails, "opens although a mandatory stream was dropped unclosed; reads {:?}", catch(|| x.dump()));
                same!(no_panic("reading", || x.dump())?, want, "contents");
                o.class("opens");
            }
            Err(e) => {
                ensure!(fails, "every mandatory resource is complete, opening fails: {:?}", e);
                o.class("fails");
            }
        }
    }
    Ok(())
}
fn main() {
    let n = ARCHIVES.len() as u64;
    runner::main(Prop {
        id: "C17",
        level: "exploration",
        rule: "histories of up to 24 steps over four names in a memory or file storage: starting streamed vectors and multivectors of \
               any type (also over earlier finished or dropped ones), growing, closing, dropping one or several normally (must panic) \
               or while unwinding (must neither abort nor replace the panic), also while the file system accepts nothing, looking from a second storage; after each step every \
               name is read: closed ones give exactly their contents, all others an error; 'large' streams exceed their buffer before \
               being dropped; in 'archive' streams of an archive being written are dropped; non-trivial = a writer was dropped unclosed",
        assumptions: &["no two writers are open on the same name"],
        subs: vec![
            Sub::new("histories", 40_000, 800_000, case, check),
            Sub::new("large", 96, 2_000, large_case, check).profiles(Profiles::Release).shrink(30),
            Sub::sweep("archive", n, 1_000, 8_000, |a| arch(a as usize), check_arch),
        ],
    })
}
