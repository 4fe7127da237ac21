//! C14: the writer dies.
#[macro_use]
extern crate flatcheck;
#[path = "../fault.rs"]
mod fault;
use fault::{Act, Op};
use flatcheck::archprog::*;
use flatcheck::model::*;
use flatcheck::runner::{self, Obs, Profiles, Prop, Sub};
use flatcheck::util::*;
use flatdata::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::path::Path;
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    a: usize,
    content: ArchContent,
    plan: Plan,
    /// resources written before and then overwritten
    first: Option<(ArchContent, Plan)>,
    dir: String,
    /// further byte positions to die at
    bytes: Vec<u16>,
}
fn case(a: usize, size: usize) -> BoxedStrategy<Case> {
    (
        arch_strategy(a, size),
        Plan::strategy(),
        prop_oneof![3 => Just(None), 1 => (arch_strategy(a, size), Plan::strategy()).prop_map(Some)],
        prop::sample::select(vec!["", "", "x/y"]),
        prop::collection::vec(any::<u16>(), 0..4),
    )
        .prop_map(move |(content, plan, first, dir, bytes)| {
            let first = first.map(|(mut c, p)| {
                for (r, c) in ARCHIVES[a].res.iter().zip(c.iter_mut()) {
                    if let Kind::Sub(_) = r.kind {
                        *c = None
                    }
                }
                (c, p)
            });
            Case { a, content, plan, first, dir: dir.into(), bytes }
        })
        .boxed()
}
/// Memory shared with the child: a list of what it had completed.
struct Shared(*mut u8);
const SHARED: usize = 1 << 16;
impl Shared {
    fn new() -> Shared {
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), SHARED, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0)
        };
        assert!(p != libc::MAP_FAILED, "harness: mmap");
        Shared(p as *mut u8)
    }
    fn clear(&self) {
        unsafe { std::ptr::write_bytes(self.0, 0, SHARED) }
    }
    /// Entry i is set to 1; the child does nothing but this with it.
    fn set(&self, i: usize) {
        assert!(i < SHARED, "harness: shared");
        unsafe { std::ptr::write_volatile(self.0.add(i), 1) }
    }
    fn get(&self, i: usize) -> bool {
        unsafe { std::ptr::read_volatile(self.0.add(i)) == 1 }
    }
}
impl Drop for Shared {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.0 as *mut _, SHARED);
        }
    }
}
/// All resources of the contents.
fn paths(c: &ArchContent, at: &[usize], out: &mut Vec<Vec<usize>>) {
    for (i, x) in c.iter().enumerate() {
        if let Some(x) = x {
            let mut p = at.to_vec();
            p.push(i);
            if let Content::Sub(s) = x {
                paths(s, &p, out);
            }
            out.push(p);
        }
    }
}
const FINISHED: usize = 0;
const SECOND: usize = 1;
const BASE: usize = 2;
fn program(c: &Case, st: &Rc<dyn ResourceStorage>, all: &[Vec<usize>], sh: &Shared) -> Result<(), String> {
    let b = new_builder(c.a, st.clone()).map_err(|e| format!("creating the archive: {:?}", e))?;
    let n = all.len();
    let at = |p: &[usize]| all.iter().position(|x| x == p);
    if let Some((first, plan)) = &c.first {
        let m = first.len();
        write_archive(&*b, first, plan, &[], &mut |p| sh.set(BASE + n + p[0] % m)).map_err(|e| format!("writing: {:?}", e))?;
    }
    sh.set(SECOND);
    write_archive(&*b, &c.content, &c.plan, &[], &mut |p| sh.set(BASE + at(p).expect("harness: path"))).map_err(|e| format!("writing: {:?}", e))?;
    sh.set(FINISHED);
    Ok(())
}
/// Forks; returns None if the child died where it was told to and Some(result) if it got through.
fn in_child(f: impl FnOnce() -> Result<(), String>) -> Option<Result<(), String>> {
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "harness: fork");
        if pid == 0 {
            runner::limit_time(60);
            let r = catch(f);
            let code = match r {
                Ok(Ok(())) => 0,
                Ok(Err(_)) => 1,
                Err(_) => 2,
            };
            libc::syscall(libc::SYS_exit_group, code);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if libc::WIFEXITED(st) {
            match libc::WEXITSTATUS(st) {
                77 => None,
                0 => Some(Ok(())),
                1 => Some(Err("the program failed in the child".into())),
                x => Some(Err(format!("the program panicked in the child ({})", x))),
            }
        } else {
            Some(Err(format!("the child died from signal {}", libc::WTERMSIG(st))))
        }
    }
}
/// Byte positions to die at within a write.
fn cuts(len: usize, more: &[u16]) -> Vec<usize> {
    let mut v: Vec<usize> = if len <= 26 {
        (0..=len).collect()
    } else {
        let mut v = vec![0, 1, 7, 8, 9, 15, 16, 17, len / 2, len - 9, len - 8, len - 7, len - 1, len];
        v.extend(more.iter().map(|m| *m as usize * len >> 16));
        v
    };
    v.sort();
    v.dedup();
    v
}
/// (mutating call, bytes) of every crash point of a recorded run.
fn points(log: &[(Op, usize)], more: &[u16]) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut m = 0;
    for (op, len) in log {
        if op.mutating() {
            if *op == Op::Write {
                out.extend(cuts(*len, more).into_iter().map(|b| (m, b)));
            } else {
                out.push((m, 0));
            }
            m += 1;
        }
    }
    out.push((m, 0));
    out
}
struct Judge<'a> {
    c: &'a Case,
    done: &'a dyn Fn(&[usize]) -> bool,
    first_done: &'a dyn Fn(usize) -> bool,
    second: bool,
    ctx: &'a str,
}
impl<'a> Judge<'a> {
    fn arch(&self, a: usize, want: &ArchContent, got: &ArchContent, at: &[usize]) -> Result<(), String> {
        for (i, r) in ARCHIVES[a].res.iter().enumerate() {
            let mut p = at.to_vec();
            p.push(i);
            let first = if at.is_empty() { self.c.first.as_ref().and_then(|f| f.0[i].as_ref()) } else { None };
            let old_done = at.is_empty() && first.is_some() && (self.first_done)(i);
            let what = format!("{}: resource {:?} of {}", self.ctx, r.name, ARCHIVES[a].name);
            match (&got[i], &want[i]) {
                (Some(Content::Sub(g)), Some(Content::Sub(w))) => {
                    self.arch(r_sub(r.kind), w, g, &p)?;
                }
                (Some(g), w) => {
                    let new_ok = w.as_ref() == Some(g);
                    let old_ok = first == Some(g);
                    ensure!(new_ok || old_ok, "{}: reported present with {:?}, which the writer never completed; it was writing {:?}", what, show(g), w.as_ref().map(show));
                    ensure!(new_ok || !(self.done)(&p), "{}: overwritten successfully, still has the old contents", what);
                    ensure!(self.second || old_ok || first.is_none(), "{}: has contents not yet handed over", what);
                }
                (None, w) => {
                    ensure!(r.optional, "{}: mandatory, but absent", what);
                    if w.is_some() {
                        ensure!(!(self.done)(&p), "{}: was written successfully, is absent", what);
                    }
                    if (w.is_none() || !self.second) && old_done {
                        return Err(format!("{}: was written successfully before, is absent", what));
                    }
                }
            }
        }
        Ok(())
    }
    fn all_mandatory(&self, a: usize, want: &ArchContent, at: &[usize]) -> bool {
        ARCHIVES[a].res.iter().enumerate().all(|(i, r)| {
            let mut p = at.to_vec();
            p.push(i);
            r.optional || (self.done)(&p) || want[i].is_none()
        })
    }
}
fn show(c: &Content) -> String {
    let s = format!("{:?}", c);
    s.chars().take(300).collect()
}
fn r_sub(k: Kind) -> usize {
    match k {
        Kind::Sub(s) => s,
        _ => panic!("harness: kind"),
    }
}
fn storage(root: &Path, dir: &str) -> Rc<dyn ResourceStorage> {
    let st: Rc<dyn ResourceStorage> = FileResourceStorage::new(root);
    if dir.is_empty() {
        st
    } else {
        st.subdir(dir)
    }
}
fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let mut all = vec![];
    paths(&c.content, &[], &mut all);
    let sh = Shared::new();
    let d = TempDir::new();
    fault::arm(Act::Record);
    let r = catch(|| program(c, &storage(&d.0, &c.dir), &all, &sh));
    let (log, ..) = fault::disarm();
    r.map_err(|m| format!("writing: panicked: {}", m))??;
    let pts = thin(points(&log, &c.bytes), 4_000, c.bytes.iter().fold(1u64, |a, b| a.wrapping_mul(65_537).wrapping_add(u64::from(*b))));
    o.count("crash points", pts.len() as u64);
    o.class_if(pts.len() > 2000, "more than 2000 crash points");
    for (n, bytes) in pts {
        let d = TempDir::new();
        sh.clear();
        let out = in_child(|| {
            fault::arm(Act::Die { n, bytes });
            program(c, &storage(&d.0, &c.dir), &all, &sh)
        });
        if let Some(Err(e)) = out {
            return Err(format!("crash point {}/{}: {}", n, bytes, e));
        }
        let before = tree(&d.0);
        let m = c.first.as_ref().map(|f| f.0.len()).unwrap_or(1);
        let base = all.len();
        let done = |p: &[usize]| all.iter().position(|x| x == p).map_or(false, |k| sh.get(BASE + k));
        let first_done = |i: usize| sh.get(BASE + base + i % m);
        let ctx = format!("writer died at mutating call {} after {} bytes", n, bytes);
        let j = Judge { c, done: &done, first_done: &first_done, second: sh.get(SECOND), ctx: &ctx };
        let r = no_panic(&ctx, || open_archive(c.a, storage(&d.0, &c.dir)))?;
        let finished = sh.get(FINISHED);
        same!(out.is_some(), finished, "harness: {}", ctx);
        match r {
            Ok(x) => {
                let got = no_panic(&ctx, || x.dump())?;
                j.arch(c.a, &c.content, &got, &[])?;
                o.class(if finished { "finished, opens" } else { "opens" });
            }
            Err(e) => {
                ensure!(!sh.get(SECOND) || !j.all_mandatory(c.a, &c.content, &[]), "{}: every mandatory resource was written successfully, opening fails: {:?}", ctx, e);
                o.class("fails");
            }
        }
        same_tree(&tree(&d.0), &before, &format!("{}: after opening", ctx))?;
        o.exec(&[n as u64, bytes as u64], !finished && n > 0);
    }
    o.class_if(c.first.is_some(), "overwriting");
    Ok(())
}

/// One streamed resource so large that it is stored in several portions.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Large {
    multi: bool,
    n: usize,
    seed: u64,
    /// number of elements there before
    before: Option<usize>,
    bytes: Vec<u16>,
}
fn large() -> BoxedStrategy<Large> {
    (any::<bool>(), 505usize..=1040, any::<u64>(), prop_oneof![2 => Just(None), 1 => prop::sample::select(vec![0usize, 1, 600]).prop_map(Some)], prop::collection::vec(any::<u16>(), 0..3))
        .prop_map(|(multi, n, seed, before, bytes)| Large { multi, n, seed, before, bytes })
        .boxed()
}
fn huge() -> usize {
    STRUCTS.iter().position(|s| s.name == "Huge").unwrap()
}
fn big_multi() -> (usize, usize) {
    let m = (0..MULTIS.len()).find(|m| VARIADICS[MULTIS[*m].0].name == "VBig" && STRUCTS[MULTIS[*m].1].size >= 4).unwrap();
    let k = VARIADICS[MULTIS[m].0].types.iter().position(|t| t.1 == huge()).unwrap();
    (m, k)
}
fn large_rec(seed: u64, i: usize) -> Rec {
    let mut x = Mix(seed ^ (i as u64) << 20);
    STRUCTS[huge()].fields.iter().map(|f| from_bits(f.ty, f.width, x.next() | 1)).collect()
}
fn write_large(c: &Large, st: &dyn ResourceStorage, n: usize, seed: u64) -> Result<(), String> {
    let (m, k) = big_multi();
    let mut w = if c.multi { start_multi(m, st, "r", "schema") } else { start_vector(huge(), st, "r", "schema") }.map_err(|e| format!("{:?}", e))?;
    for i in 0..n {
        if c.multi { w.grow_item(&[(k, large_rec(seed, i))]) } else { w.grow_rec(&large_rec(seed, i)) }.map_err(|e| format!("{:?}", e))?;
    }
    w.close_only().map_err(|e| format!("{:?}", e))
}
fn expected(c: &Large, n: usize, seed: u64) -> Vec<Vec<u8>> {
    let recs: Vec<Rec> = (0..n).map(|i| large_rec(seed, i)).collect();
    if c.multi {
        let (m, k) = big_multi();
        let items: Vec<Vec<(usize, Rec)>> = recs.into_iter().map(|r| vec![(k, r)]).collect();
        let (a, b) = encode_multi(MULTIS[m].0, MULTIS[m].1, &items);
        vec![a, b]
    } else {
        vec![encode_vec(huge(), &recs)]
    }
}
fn check_large(c: &Large, o: &mut Obs) -> Result<(), String> {
    let d = TempDir::new();
    let names: &[(&str, &str)] = if c.multi { &[("r_index", "index(schema)"), ("r", "schema")] } else { &[("r", "schema")] };
    let want = expected(c, c.n, c.seed);
    let old = c.before.map(|k| expected(c, k, !c.seed));
    let run = |d: &Path, sh: &Shared, act: Act| -> Result<(), String> {
        let st = FileResourceStorage::new(d);
        if let Some(k) = c.before {
            write_large(c, &*st, k, !c.seed)?;
        }
        fault::arm(act);
        sh.set(SECOND);
        write_large(c, &*st, c.n, c.seed)?;
        sh.set(FINISHED);
        Ok(())
    };
    let sh = Shared::new();
    let r = catch(|| run(&d.0, &sh, Act::Record));
    let (log, ..) = fault::disarm();
    r.map_err(|m| format!("writing: panicked: {}", m))??;
    let pts: Vec<_> = thin(points(&log, &c.bytes), 240, c.seed);
    drop(d);
    for (n, bytes) in pts {
        let d = TempDir::new();
        sh.clear();
        let out = in_child(|| run(&d.0, &sh, Act::Die { n, bytes }));
        if let Some(Err(e)) = out {
            return Err(format!("crash point {}/{}: {}", n, bytes, e));
        }
        let ctx = format!("writer died at mutating call {} after {} bytes", n, bytes);
        let st = FileResourceStorage::new(d.path());
        let got: Result<Vec<&[u8]>, String> = names.iter().map(|(a, b)| st.read(a, b).map_err(|e| format!("{:?}", e))).collect();
        let is = |w: &Vec<Vec<u8>>, g: &Vec<&[u8]>| w.len() == g.len() && w.iter().zip(g).all(|(a, b)| &a[..] == *b);
        let finished = sh.get(FINISHED);
        match &got {
            Ok(g) => {
                let new = is(&want, g);
                ensure!(
                    new || !finished && old.as_ref().map_or(false, |w| is(w, g)),
                    "{}: reads {:?} bytes, the writer was writing {:?} bytes over {:?}",
                    ctx,
                    g.iter().map(|x| x.len()).collect::<Vec<_>>(),
                    want.iter().map(|x| x.len()).collect::<Vec<_>>(),
                    old.as_ref().map(|x| x.iter().map(|x| x.len()).collect::<Vec<_>>())
                );
                o.class(if finished { "finished, reads" } else if new { "reads" } else { "reads the old contents" });
            }
            Err(e) => {
                ensure!(!finished, "{}: written successfully, reading fails: {}", ctx, e);
                o.class("fails");
            }
        }
        o.exec(&[n as u64, bytes as u64], !finished && n > 0);
    }
    Ok(())
}
fn main() {
    let n = ARCHIVES.len() as u64;
    runner::main(Prop {
        id: "C14",
        level: "fault_enumeration",
        rule: "generated programs writing archives of every generated schema to disk (resources in one go or streamed, several streams \
               open at once, sub-archives, optionally overwriting resources written before); the program runs in a forked child that \
               dies at every mutating system call in turn, and at every byte (short writes) or 14 and more byte positions (long ones) \
               of every write (if there are more than 4000 points, 240 for large resources: the first and last ones and a spread of the others); what is left is opened and compared with what the writer had handed over; sub-check 'large' does this \
               for single streamed resources stored in several portions; non-trivial = died after the first mutating call and before \
               the end",
        assumptions: &[
            "death of the process: what was written before stays written, in order; loss of power is not covered",
            "crash points are system calls made through libc",
        ],
        subs: vec![
            Sub::sweep("archives", n, 6, 400, |a| case(a as usize, 4), check).shrink(60),
            Sub::sweep("wider", n, 1, 40, |a| case(a as usize, 30), check).shrink(60),
            Sub::new("large", 8, 200, large, check_large).profiles(Profiles::Release).shrink(20),
        ],
    })
}
