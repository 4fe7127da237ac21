//! C16: creating archives over existing ones.
#[macro_use]
extern crate flatcheck;
use flatcheck::archprog::*;
use flatcheck::model::*;
use flatcheck::runner::{self, Obs, Prop, Sub};
use flatcheck::util::*;
use flatdata::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::{ErrorKind, Write};
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// archive type (of the case's few), directory, whether through fresh storage objects
    Create(u8, u8, bool),
    /// sub-archive i of a builder
    Sub(u8, u8),
    /// one resource of a builder
    Write(u8, u8),
    /// all that is missing
    Complete(u8),
    /// some other resource, with a name close to an archive's
    Foreign(u8, u8, u8, Vec<u8>),
    /// opens whatever archive is there
    Open(u8, u8),
    /// new storage objects from here on
    Session,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    file: bool,
    archives: Vec<(usize, ArchContent)>,
    plan: Plan,
    ops: Vec<Op>,
}
const DIRS: &[&str] = &["", "s", "s/t", "r0"];
fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        6 => (any::<u8>(), 0u8..DIRS.len() as u8, any::<bool>()).prop_map(|(a, d, f)| Op::Create(a, d, f)),
        4 => (any::<u8>(), any::<u8>()).prop_map(|(b, i)| Op::Sub(b, i)),
        4 => (any::<u8>(), any::<u8>()).prop_map(|(b, i)| Op::Write(b, i)),
        2 => any::<u8>().prop_map(Op::Complete),
        1 => (any::<u8>(), 0u8..DIRS.len() as u8, any::<u8>(), prop::collection::vec(any::<u8>(), 0..20)).prop_map(|(a, d, k, b)| Op::Foreign(a, d, k, b)),
        2 => (any::<u8>(), 0u8..DIRS.len() as u8).prop_map(|(a, d)| Op::Open(a, d)),
        1 => Just(Op::Session),
    ]
    .boxed()
}
fn with_subs() -> Vec<usize> {
    (0..ARCHIVES.len()).filter(|a| ARCHIVES[*a].res.iter().any(|r| if let Kind::Sub(_) = r.kind { true } else { false })).collect()
}
fn case() -> BoxedStrategy<Case> {
    let a = prop_oneof![1 => 0..ARCHIVES.len(), 2 => prop::sample::select(with_subs())];
    (
        any::<bool>(),
        prop::collection::vec(a.prop_flat_map(|a| arch_strategy(a, 3).prop_map(move |c| (a, c))), 1..4),
        Plan::strategy(),
        prop::collection::vec(op(), 2..24),
    )
        .prop_map(|(file, mut archives, plan, ops)| {
            // the sub-archives' types can also be created directly
            let more: Vec<_> = archives
                .iter()
                .flat_map(|(a, c)| {
                    ARCHIVES[*a].res.iter().zip(c).filter_map(|(r, c)| match (r.kind, c) {
                        (Kind::Sub(s), Some(Content::Sub(c))) => Some((s, c.clone())),
                        _ => None,
                    }).collect::<Vec<_>>()
                })
                .collect();
            archives.extend(more);
            Case { file, archives, plan, ops }
        })
        .boxed()
}
struct B {
    b: Box<dyn DynBuilder>,
    a: usize,
    content: ArchContent,
    dir: String,
    written: Vec<bool>,
}
fn join(dir: &str, n: &str) -> String {
    if dir.is_empty() {
        n.into()
    } else {
        format!("{}/{}", dir, n)
    }
}
struct World<'a> {
    c: &'a Case,
    d: TempDir,
    root: Rc<dyn ResourceStorage>,
    /// every stored byte
    files: BTreeMap<String, Vec<u8>>,
    builders: Vec<B>,
    opened: Vec<(Box<dyn DynArchive>, ArchContent)>,
}
impl<'a> World<'a> {
    fn at(&self, dir: &str) -> Rc<dyn ResourceStorage> {
        if dir.is_empty() {
            self.root.clone()
        } else {
            self.root.subdir(dir)
        }
    }
    fn unchanged(&self, ctx: &str) -> Result<(), String> {
        if self.c.file {
            same_tree(&tree(&self.d.0), &self.files, ctx)
        } else {
            same_bytes(&*self.root, &self.files, ctx)
        }
    }
    fn signature(&self, a: usize, dir: &str) -> String {
        join(dir, &format!("{}.archive", ARCHIVES[a].name))
    }
    fn judge(&mut self, a: usize, dir: &str, r: Result<Box<dyn DynBuilder>, ResourceStorageError>, ctx: &str, content: ArchContent, o: &mut Obs) -> Result<(), String> {
        let sig = self.signature(a, dir);
        let there = self.files.contains_key(&sig);
        match r {
            Ok(b) => {
                ensure!(!there, "{}: {:?} exists, creating it again succeeds", ctx, sig);
                self.files.insert(sig.clone(), frame(&[]));
                self.files.insert(format!("{}.schema", sig), ARCHIVES[a].schema.as_bytes().to_vec());
                self.builders.push(B { b, a, written: vec![false; content.len()], content, dir: dir.into() });
                o.class("created");
            }
            Err(ResourceStorageError::Io(ref e, _)) if e.kind() == ErrorKind::AlreadyExists => {
                ensure!(there, "{}: {:?} does not exist, creating it fails: {:?}", ctx, sig, e);
                o.class("exists already");
                o.nontrivial();
            }
            Err(e) => return Err(format!("{}: {}: {:?}", ctx, if there { "exists, but creating it fails with another error" } else { "creating it fails" }, e)),
        }
        self.unchanged(ctx)
    }
    fn step(&mut self, op: &Op, ctx: &str, o: &mut Obs) -> Result<(), String> {
        let pick = |x: u8, n: usize| (x as usize * n) >> 8;
        match op {
            Op::Create(a, d, fresh) => {
                let (a, content) = self.c.archives[pick(*a, self.c.archives.len())].clone();
                let dir = DIRS[*d as usize];
                let st = if *fresh && self.c.file {
                    let st: Rc<dyn ResourceStorage> = FileResourceStorage::new(self.d.join(dir));
                    st
                } else {
                    self.at(dir)
                };
                let r = no_panic(ctx, || new_builder(a, st))?;
                self.judge(a, dir, r, ctx, content, o)?;
            }
            Op::Sub(b, i) => {
                if self.builders.is_empty() {
                    return Ok(());
                }
                let b = pick(*b, self.builders.len());
                let subs: Vec<usize> = (0..self.builders[b].content.len()).filter(|i| if let Kind::Sub(_) = ARCHIVES[self.builders[b].a].res[*i].kind { true } else { false }).collect();
                if subs.is_empty() {
                    return Ok(());
                }
                let i = subs[pick(*i, subs.len())];
                let r = &ARCHIVES[self.builders[b].a].res[i];
                if let Kind::Sub(s) = r.kind {
                    let content = match &self.builders[b].content[i] {
                        Some(Content::Sub(c)) => c.clone(),
                        _ => vec![None; ARCHIVES[s].res.len()],
                    };
                    let x = no_panic(ctx, || self.builders[b].b.sub(i))?;
                    let dir = join(&self.builders[b].dir, r.name);
                    self.judge(s, &dir, x, ctx, content, o)?;
                    o.class("sub-archive");
                }
            }
            Op::Write(b, i) => {
                if self.builders.is_empty() {
                    return Ok(());
                }
                let b = pick(*b, self.builders.len());
                if self.builders[b].content.is_empty() {
                    return Ok(());
                }
                let i = pick(*i, self.builders[b].content.len());
                self.write(b, i, ctx)?;
            }
            Op::Complete(b) => {
                if self.builders.is_empty() {
                    return Ok(());
                }
                let b = pick(*b, self.builders.len());
                for i in 0..self.builders[b].content.len() {
                    self.write(b, i, ctx)?;
                }
                o.class("completed");
            }
            Op::Foreign(a, d, k, bytes) => {
                let (a, _) = self.c.archives[pick(*a, self.c.archives.len())];
                let n = ARCHIVES[a].name;
                let names = vec![
                    n.to_string(),
                    format!("{}.archiv", n),
                    format!("{}.archive2", n),
                    format!("x{}.archive", n),
                    format!("{}x.archive", n),
                    format!(".{}.archive", n),
                    format!("{}.archive", n.to_lowercase()),
                    format!("{}.archive", n.to_uppercase()),
                    // an archive whose creation ended early, or of another version
                    format!("{}.archive", n),
                ];
                let name = join(DIRS[*d as usize], &names[pick(*k, names.len())]);
                if self.files.contains_key(&name) {
                    return Ok(());
                }
                let s = self.root.create_output_stream(&name).map_err(|e| format!("{}: {:?}", ctx, e))?;
                let r = s.borrow_mut().write_all(bytes);
                r.map_err(|e| format!("{}: {:?}", ctx, e))?;
                self.files.insert(name, bytes.clone());
                o.class("other resources");
            }
            Op::Open(a, d) => {
                let (a, content) = self.c.archives[pick(*a, self.c.archives.len())].clone();
                let dir = DIRS[*d as usize];
                let st = self.at(dir);
                if let Ok(x) = no_panic(ctx, || open_archive(a, st))? {
                    let got = no_panic(ctx, || x.dump())?;
                    let _ = content;
                    self.opened.push((x, got));
                    o.class("opened");
                }
            }
            Op::Session => {
                self.builders.clear();
                self.opened.clear();
                if self.c.file {
                    self.root = FileResourceStorage::new(self.d.path());
                }
            }
        }
        self.unchanged(ctx)?;
        for (x, was) in &self.opened {
            same!(no_panic(ctx, || x.dump())?, *was, "{}: contents of an opened archive", ctx);
        }
        Ok(())
    }
    /// Each resource is written at most once, in the directory it belongs to.
    fn write(&mut self, b: usize, i: usize, ctx: &str) -> Result<(), String> {
        let x = &self.builders[b];
        let c = match &x.content[i] {
            Some(Content::Sub(_)) | None => return Ok(()),
            Some(c) => c.clone(),
        };
        let mut only: ArchContent = vec![None; x.content.len()];
        only[i] = Some(c);
        let mut files = BTreeMap::new();
        encode_archive(x.a, &only, &if x.dir.is_empty() { String::new() } else { format!("{}/", x.dir) }, &mut files);
        let sig = self.signature(x.a, &x.dir);
        files.remove(&sig);
        files.remove(&format!("{}.schema", sig));
        if x.written[i] || files.keys().any(|k| self.files.contains_key(k) || self.files.keys().any(|f| f.starts_with(&format!("{}/", k)))) {
            return Ok(());
        }
        no_panic(ctx, || write_archive(&*x.b, &only, &self.c.plan, &[], &mut |_| {}))?.map_err(|e| format!("{}: {:?}", ctx, e))?;
        self.files.extend(files);
        self.builders[b].written[i] = true;
        self.unchanged(ctx)
    }
}
fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let d = TempDir::new();
    let root: Rc<dyn ResourceStorage> = if c.file { FileResourceStorage::new(d.path()) } else { MemoryResourceStorage::new("/mem/x") };
    let mut w = World { c, d, root, files: BTreeMap::new(), builders: vec![], opened: vec![] };
    for (k, op) in c.ops.iter().enumerate() {
        // directories and resources of one name do not go together
        if let Op::Create(_, d, _) | Op::Foreign(_, d, _, _) = op {
            if w.files.contains_key(DIRS[*d as usize]) {
                continue;
            }
        }
        if let Op::Sub(b, i) = op {
            if !w.builders.is_empty() {
                let b = &w.builders[(*b as usize * w.builders.len()) >> 8];
                let clash = ARCHIVES[b.a].res.iter().any(|r| if let Kind::Sub(_) = r.kind { w.files.contains_key(&join(&b.dir, r.name)) } else { false });
                let _ = i;
                if clash {
                    continue;
                }
            }
        }
        w.step(op, &format!("step {} {:?}", k, op), o)?;
    }
    o.class_if(c.file, "file");
    Ok(())
}
fn main() {
    runner::main(Prop {
        id: "C16",
        level: "exploration",
        rule: "histories of up to 24 steps over a few archive types in four directories of one storage (memory or disk): creating archives \
               and sub-archives (also a sub-archive's type directly in the sub-archive's directory), writing some or all resources, \
               adding resources with similar names or bare signature files, opening, new sessions; after each step every stored byte \
               is compared with a model, creation succeeds iff no archive of the name is there and otherwise fails with AlreadyExists; \
               non-trivial = a creation found the archive there already",
        assumptions: &["no name is a resource and a directory at once"],
        subs: vec![Sub::new("histories", 16_000, 500_000, case, check)],
    })
}
