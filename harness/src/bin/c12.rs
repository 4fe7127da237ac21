//! C12: archives round trip.
#[macro_use]
extern crate flatcheck;
use flatcheck::archprog::*;
use flatcheck::model::*;
use flatcheck::runner::{self, Obs, Prop, Sub};
use flatcheck::util::*;
use flatdata::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    a: usize,
    content: ArchContent,
    plan: Plan,
    file: bool,
    copy_to_file: bool,
    /// the archive lives in this sub-directory
    dir: String,
}
fn case(a: usize, size: usize) -> BoxedStrategy<Case> {
    (
        arch_strategy(a, size),
        Plan::strategy(),
        any::<bool>(),
        any::<bool>(),
        prop::sample::select(vec!["", "", "sub", "a/b"]),
    )
        .prop_map(move |(content, plan, file, copy_to_file, dir)| Case { a, content, plan, file, copy_to_file, dir: dir.into() })
        .boxed()
}
fn root(file: bool, d: &TempDir) -> Rc<dyn ResourceStorage> {
    if file {
        FileResourceStorage::new(d.path())
    } else {
        MemoryResourceStorage::new("/mem/root")
    }
}
fn at(r: &Rc<dyn ResourceStorage>, dir: &str) -> Rc<dyn ResourceStorage> {
    if dir.is_empty() {
        r.clone()
    } else {
        r.subdir(dir)
    }
}
fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let d = TempDir::new();
    let r = root(c.file, &d);
    let st = at(&r, &c.dir);
    build(c.a, &st, &c.content, &c.plan)?;
    let files = files_of(c.a, &c.content);
    let prefixed = files.iter().map(|(k, v)| (if c.dir.is_empty() { k.clone() } else { format!("{}/{}", c.dir, k) }, v.clone())).collect();
    same_bytes(&*st, &files, "stored")?;
    same_bytes(&*r, &prefixed, "stored, from the root")?;
    if c.file {
        same_tree(&tree(&d.0), &prefixed, "stored")?;
    }
    let later = at(&if c.file { root(true, &d) } else { r.clone() }, &c.dir);
    for (st, what) in &[(&st, "same storage"), (&later, "storage opened later")] {
        let x = no_panic("open", || open_archive(c.a, (*st).clone()))?.map_err(|e| format!("open in the {}: {:?}", what, e))?;
        same!(no_panic("reading", || x.dump())?, c.content, "contents read from the {}", what);
        let y = x.dup();
        drop(x);
        same!(no_panic("reading", || y.dump())?, c.content, "contents read from a clone in the {}", what);
        let shown = no_panic("debug output", || y.debug())?;
        ensure!(shown.contains(ARCHIVES[c.a].name), "debug output {:?} does not name the archive", shown);
        for (i, r) in ARCHIVES[c.a].res.iter().enumerate() {
            let part = no_panic("debug output", || y.show_one(i))?.map_or(format!("{}: ", r.name), |x| format!("{}: {}", r.name, x));
            ensure!(shown.contains(&part), "debug output {:?} of the archive does not show {:?}", shown, part);
        }
        // write what was read into a new archive
        let d2 = TempDir::new();
        let st2 = root(c.copy_to_file, &d2);
        no_panic("copying", || y.copy_to(st2.clone()))?.map_err(|e| format!("copying: {}", e))?;
        same_bytes(&*st2, &files, "copy")?;
        if c.copy_to_file {
            same_tree(&tree(&d2.0), &files, "copy")?;
        }
        let z = no_panic("open", || open_archive(c.a, st2.clone()))?.map_err(|e| format!("open of the copy: {:?}", e))?;
        same!(no_panic("reading", || z.dump())?, c.content, "contents of the copy");
    }
    let n = count_resources(&c.content);
    o.class_if(c.file, "file");
    o.class_if(n >= 4, "four or more resources");
    o.class_if(c.content.iter().any(|x| x.is_none()), "an optional resource is absent");
    o.class_if(c.content.iter().flatten().any(|x| if let Content::Sub(_) = x { true } else { false }), "sub-archive");
    o.nontrivial_if(n >= 1);
    Ok(())
}
fn main() {
    let n = ARCHIVES.len() as u64;
    runner::main(Prop {
        id: "C12",
        level: "exploration",
        rule: "contents for every generated archive schema (all resource kinds, mandatory and optional, sub-archives nested up to \
               three deep), written in random order, in one go or streamed, several streams open at once, in memory or on disk, \
               at the root or in a sub-directory; opened from the same and from a new storage, compared value by value and byte \
               by byte with the reference encoding, copied into a new archive and compared again; non-trivial = at least one \
               resource present",
        assumptions: &[],
        subs: vec![
            Sub::sweep("small", n, 1_200, 15_000, |a| case(a as usize, 6), check),
            Sub::sweep("larger", n, 120, 2_000, |a| case(a as usize, 120), check),
        ],
    })
}
