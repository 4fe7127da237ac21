//! Histories of archive operations on one storage, checked against a model of the stored files; all outcomes are logged.
use crate::archprog::*;
use crate::model::*;
use crate::runner::Obs;
use crate::stprog::kind_of;
use crate::util::*;
use crate::{ensure, same};
use flatdata::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::io::ErrorKind;
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum AOp {
    /// the archive of a directory
    Create(u8),
    Sub(u8, u8),
    /// resource of a builder, in one go
    Set(u8, u8),
    Start(u8, u8),
    Grow(u8, u8),
    Close(u8),
    /// a writer dropped while unwinding
    Abandon(u8),
    /// all that is missing
    Complete(u8),
    /// storage object, directory, opened as the archive type of that directory or another
    Open(u8, u8, Option<u8>),
    Dup(u8),
    DropArchive(u8),
    Dump(u8),
    DropStore(u8),
    NewStore,
    /// storage object, one of the names in use (or nearly)
    Read(u8, u16, u8),
    /// storage object, archive, copied to a new directory
    Copy(u8, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ACase {
    pub archives: Vec<(usize, ArchContent)>,
    pub plan: Plan,
    pub ops: Vec<AOp>,
}
const DIRS: &[&str] = &["", "p", "p/q", "zz"];
pub fn acase(hold: bool, max_ops: usize, size: usize) -> BoxedStrategy<ACase> {
    let w = if hold { 3 } else { 1 };
    let op = prop_oneof![
        4 => (0u8..4).prop_map(AOp::Create),
        4 => (any::<u8>(), any::<u8>()).prop_map(|(b, i)| AOp::Sub(b, i)),
        5 => (any::<u8>(), any::<u8>()).prop_map(|(b, i)| AOp::Set(b, i)),
        9 => (any::<u8>(), any::<u8>()).prop_map(|(b, i)| AOp::Start(b, i)),
        3 => (any::<u8>(), 0u8..6).prop_map(|(b, i)| AOp::Grow(b, i)),
        3 => any::<u8>().prop_map(AOp::Close),
        1 => any::<u8>().prop_map(AOp::Abandon),
        3 => any::<u8>().prop_map(AOp::Complete),
        7 => (any::<u8>(), any::<u8>(), prop_oneof![6 => Just(None), 1 => any::<u8>().prop_map(Some)]).prop_map(|(s, d, a)| AOp::Open(s, d, a)),
        w => any::<u8>().prop_map(AOp::Dup),
        w => any::<u8>().prop_map(AOp::DropArchive),
        w => any::<u8>().prop_map(AOp::Dump),
        w => any::<u8>().prop_map(AOp::DropStore),
        1 => Just(AOp::NewStore),
        6 => (any::<u8>(), any::<u16>(), 0u8..8).prop_map(|(s, n, k)| AOp::Read(s, n, k)),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(s, a)| AOp::Copy(s, a)),
    ];
    // every history starts with something to work on
    (
        prop::collection::vec((0..ARCHIVES.len(), Just(size)).prop_flat_map(|(a, s)| arch_strategy(a, s).prop_map(move |c| (a, c))), 1..=DIRS.len()),
        Plan::strategy(),
        prop::collection::vec(op, 4..max_ops),
    )
        .prop_map(|(archives, plan, mut ops)| {
            ops.insert(0, AOp::Create(0));
            ACase { archives, plan, ops }
        })
        .boxed()
}

struct B {
    b: Box<dyn DynBuilder>,
    a: usize,
    content: ArchContent,
    dir: String,
    state: Vec<St>,
}
#[derive(Clone, Copy, PartialEq)]
enum St {
    No,
    Open,
    Broken,
    Done,
}
struct W {
    w: Box<dyn DynWriter>,
    b: usize,
    i: usize,
    pos: usize,
}
struct Opened {
    x: Box<dyn DynArchive>,
    want: ArchContent,
    raw: Vec<(*const u8, Vec<u8>)>,
    debug: String,
}
struct Held {
    store: usize,
    name: String,
    p: *const u8,
    bytes: Vec<u8>,
}
pub struct World<'a> {
    c: &'a ACase,
    file: bool,
    hold: bool,
    /// dropped first
    writers: Vec<W>,
    builders: Vec<B>,
    opened: Vec<Opened>,
    held: Vec<Held>,
    stores: Vec<Option<Rc<dyn ResourceStorage>>>,
    d: TempDir,
    files: BTreeMap<String, Vec<u8>>,
    /// files of resources being written or abandoned
    partial: BTreeSet<String>,
    pub log: Vec<String>,
    copies: usize,
    reads: u64,
}
impl<'a> Drop for World<'a> {
    fn drop(&mut self) {
        for w in self.writers.drain(..) {
            drop_unwinding(w.w);
        }
    }
}
fn join(dir: &str, n: &str) -> String {
    if dir.is_empty() {
        n.into()
    } else {
        format!("{}/{}", dir, n)
    }
}
fn prefix(dir: &str) -> String {
    if dir.is_empty() {
        String::new()
    } else {
        format!("{}/", dir)
    }
}
fn pick(x: u8, n: usize) -> usize {
    (x as usize * n) >> 8
}
fn dirs(p: &std::path::Path) -> BTreeSet<String> {
    fn walk(p: &std::path::Path, out: &mut BTreeSet<String>) {
        if let Ok(rd) = std::fs::read_dir(p) {
            for e in rd.flatten() {
                if e.path().is_dir() {
                    out.insert(e.path().to_string_lossy().into_owned());
                    walk(&e.path(), out);
                }
            }
        }
    }
    let mut out = BTreeSet::new();
    walk(p, &mut out);
    out
}
impl<'a> World<'a> {
    pub fn new(c: &'a ACase, file: bool, hold: bool) -> World<'a> {
        let d = TempDir::new();
        let root: Rc<dyn ResourceStorage> = if file { FileResourceStorage::new(d.join("st")) } else { MemoryResourceStorage::new("st") };
        World {
            c,
            file,
            hold,
            writers: vec![],
            builders: vec![],
            opened: vec![],
            held: vec![],
            stores: vec![Some(root)],
            d,
            files: BTreeMap::new(),
            partial: BTreeSet::new(),
            log: vec![],
            copies: 0,
            reads: 0,
        }
    }
    /// Index of a live storage object.
    fn store(&self, k: u8) -> usize {
        let live: Vec<usize> = (0..self.stores.len()).filter(|i| self.stores[*i].is_some()).collect();
        live[pick(k, live.len())]
    }
    fn st(&self, k: usize) -> Rc<dyn ResourceStorage> {
        self.stores[k].clone().unwrap()
    }
    fn at(&self, k: usize, dir: &str) -> Rc<dyn ResourceStorage> {
        let mut s = self.st(k);
        for d in dir.split('/').filter(|d| !d.is_empty()) {
            s = s.subdir(d);
        }
        s
    }
    /// All that is stored now, as found on disk (or, in memory, of all names ever used).
    fn stored(&self) -> (BTreeMap<String, Vec<u8>>, BTreeSet<String>) {
        if self.file {
            (tree(&self.d.0), dirs(&self.d.0))
        } else {
            let st = self.st(self.store(0));
            let m = self
                .files
                .keys()
                .chain(self.partial.iter())
                .filter_map(|n| st.read_resource(n).ok().map(|b| (n.clone(), b.to_vec())))
                .collect();
            (m, BTreeSet::new())
        }
    }
    fn files_of(&self, b: usize, i: usize) -> BTreeMap<String, Vec<u8>> {
        let x = &self.builders[b];
        let mut only: ArchContent = vec![None; x.content.len()];
        only[i] = x.content[i].clone();
        if let Some(Content::Sub(_)) = only[i] {
            only[i] = None;
        }
        let mut m = BTreeMap::new();
        encode_archive(x.a, &only, &prefix(&x.dir), &mut m);
        let sig = join(&x.dir, &format!("{}.archive", ARCHIVES[x.a].name));
        m.remove(&sig);
        m.remove(&format!("{}.schema", sig));
        m
    }
    fn done(&mut self, b: usize, i: usize) {
        let m = self.files_of(b, i);
        for k in m.keys() {
            self.partial.remove(k);
        }
        self.files.extend(m);
        self.builders[b].state[i] = St::Done;
    }
    fn begun(&mut self, b: usize, i: usize) {
        for k in self.files_of(b, i).keys() {
            self.files.remove(k);
            self.partial.insert(k.clone());
        }
        self.builders[b].state[i] = St::Open;
    }
    fn created(&mut self, a: usize, dir: &str, content: ArchContent, r: Result<Box<dyn DynBuilder>, ResourceStorageError>, ctx: &str) -> Result<(), String> {
        let sig = join(dir, &format!("{}.archive", ARCHIVES[a].name));
        self.log.push(format!("{}: {}", ctx, match &r {
            Ok(_) => "created".into(),
            Err(e) => kind_of(e),
        }));
        match r {
            Ok(b) => {
                ensure!(!self.files.contains_key(&sig), "{}: {:?} exists, creating it again succeeds", ctx, sig);
                self.files.insert(sig.clone(), frame(&[]));
                self.files.insert(format!("{}.schema", sig), ARCHIVES[a].schema.as_bytes().to_vec());
                self.builders.push(B { b, a, state: vec![St::No; content.len()], content, dir: dir.into() });
                Ok(())
            }
            Err(ResourceStorageError::Io(ref e, _)) if e.kind() == ErrorKind::AlreadyExists && self.files.contains_key(&sig) => Ok(()),
            Err(e) => Err(format!("{}: {:?}", ctx, e)),
        }
    }
    /// (archive type, content, directory) of every archive or sub-archive there may be.
    fn places(&self) -> Vec<(usize, ArchContent, String)> {
        fn add(a: usize, c: &ArchContent, dir: &str, out: &mut Vec<(usize, ArchContent, String)>) {
            out.push((a, c.clone(), dir.into()));
            for (r, c) in ARCHIVES[a].res.iter().zip(c) {
                if let (Kind::Sub(s), Some(Content::Sub(c))) = (r.kind, c) {
                    add(s, c, &join(dir, r.name), out);
                }
            }
        }
        let mut out = vec![];
        for (k, (a, c)) in self.c.archives.iter().enumerate() {
            add(*a, c, DIRS[k], &mut out);
        }
        out
    }
    fn open(&mut self, k: usize, a: usize, content: &ArchContent, dir: &str, ctx: &str, o: &mut Obs) -> Result<(), String> {
        let want = expected_open(a, content, &self.files, &prefix(dir));
        let st = self.at(k, dir);
        for attempt in 0..2 {
            let r = no_panic(ctx, || open_archive(a, st.clone()))?;
            match (&want, r) {
                (Err(n), Ok(x)) => return Err(format!("{}: opens although {} is not there; reads {:?}", ctx, n, catch(|| x.dump()))),
                (Err(_), Err(e)) => {
                    self.log.push(format!("{}: {}", ctx, kind_of(&e)));
                    o.class("open fails");
                }
                (Ok(_), Err(e)) => return Err(format!("{}: attempt {}: all of it is there, got {:?}", ctx, attempt, e)),
                (Ok(w), Ok(x)) => {
                    let got = no_panic(ctx, || x.dump())?;
                    same!(got, *w, "{}: attempt {}: contents", ctx, attempt);
                    self.log.push(format!("{}: opened {:016x}", ctx, fnv(format!("{:?}", got).as_bytes())));
                    o.class("open succeeds");
                    self.reads += 1;
                    if self.hold && attempt == 1 && self.opened.len() < 10 {
                        let raw = x.raw().into_iter().map(|(p, n)| (p, unsafe { std::slice::from_raw_parts(p, n) }.to_vec())).collect();
                        let debug = no_panic(ctx, || x.debug())?;
                        self.opened.push(Opened { x, want: w.clone(), raw, debug });
                    }
                }
            }
        }
        Ok(())
    }
    fn check_held(&self, ctx: &str) -> Result<(), String> {
        for h in &self.held {
            let got = unsafe { std::slice::from_raw_parts(h.p, h.bytes.len()) };
            ensure!(got == &h.bytes[..], "{}: bytes of {:?} read earlier changed", ctx, h.name);
        }
        for (k, x) in self.opened.iter().enumerate() {
            for (n, (p, b)) in x.raw.iter().enumerate() {
                let got = unsafe { std::slice::from_raw_parts(*p, b.len()) };
                ensure!(got == &b[..], "{}: opened archive {}: slice {} handed out earlier changed", ctx, k, n);
            }
            let got = no_panic(ctx, || x.x.dump())?;
            same!(got, x.want, "{}: contents of opened archive {}", ctx, k);
        }
        Ok(())
    }
    pub fn step(&mut self, op: &AOp, ctx: &str, o: &mut Obs) -> Result<(), String> {
        let reading = match op {
            AOp::Open(..) | AOp::Dup(_) | AOp::DropArchive(_) | AOp::Dump(_) | AOp::DropStore(_) | AOp::NewStore | AOp::Read(..) => true,
            _ => false,
        };
        let before = if reading { Some(self.stored()) } else { None };
        self.step1(op, ctx, o)?;
        if let Some((f, d)) = before {
            let (f2, d2) = self.stored();
            same_tree(&f2, &f, &format!("{}: reading changes what is stored", ctx))?;
            same!(d2, d, "{}: reading changes the directories", ctx);
        }
        self.check_held(ctx)
    }
    fn step1(&mut self, op: &AOp, ctx: &str, o: &mut Obs) -> Result<(), String> {
        match op {
            AOp::Create(k) => {
                let k = (*k as usize) % self.c.archives.len();
                let (a, content) = self.c.archives[k].clone();
                let st = self.at(self.store(0), DIRS[k]);
                let r = no_panic(ctx, || new_builder(a, st))?;
                self.created(a, DIRS[k], content, r, ctx)?;
            }
            AOp::Sub(b, i) => {
                if self.builders.is_empty() {
                    return Ok(());
                }
                let b = pick(*b, self.builders.len());
                let x = &self.builders[b];
                let subs: Vec<usize> = (0..x.content.len()).filter(|i| if let Some(Content::Sub(_)) = x.content[*i] { true } else { false }).collect();
                if subs.is_empty() {
                    return Ok(());
                }
                let i = subs[pick(*i, subs.len())];
                let r = &ARCHIVES[x.a].res[i];
                if let (Kind::Sub(s), Some(Content::Sub(cc))) = (r.kind, x.content[i].clone()) {
                    let dir = join(&x.dir, r.name);
                    let r = no_panic(ctx, || x.b.sub(i))?;
                    self.created(s, &dir, cc, r, ctx)?;
                    o.class("sub-archive");
                }
            }
            AOp::Set(b, i) => {
                if let Some((b, i)) = self.resource(*b, *i) {
                    self.set(b, i, ctx, o)?;
                }
            }
            AOp::Complete(b) => {
                if self.builders.is_empty() {
                    return Ok(());
                }
                let b = pick(*b, self.builders.len());
                for i in 0..self.builders[b].content.len() {
                    if self.builders[b].state[i] != St::Done && self.res(b, i) {
                        self.set(b, i, ctx, o)?;
                    }
                }
                // and its sub-archives
                let x = &self.builders[b];
                let (a, dir, content) = (x.a, x.dir.clone(), x.content.clone());
                for (i, (r, c)) in ARCHIVES[a].res.iter().zip(&content).enumerate() {
                    if let (Kind::Sub(s), Some(Content::Sub(cc))) = (r.kind, c) {
                        let dir = join(&dir, r.name);
                        let sig = join(&dir, &format!("{}.archive", ARCHIVES[s].name));
                        if !self.files.contains_key(&sig) {
                            let r = no_panic(ctx, || self.builders[b].b.sub(i))?;
                            self.created(s, &dir, cc.clone(), r, ctx)?;
                            let n = self.builders.len() - 1;
                            self.step1(&AOp::Complete(((n * 256 + 128) / self.builders.len()).min(255) as u8), ctx, o)?;
                        }
                    }
                }
            }
            AOp::Start(b, i) => {
                if let Some((b, i)) = self.resource(*b, *i) {
                    let multi_or_vector = match self.builders[b].content[i] {
                        Some(Content::Vector(_)) | Some(Content::Multi(_)) => true,
                        _ => false,
                    };
                    let s = self.builders[b].state[i];
                    if multi_or_vector && s != St::Open && self.writers.len() < 5 && (s == St::No || !self.hold) {
                        let w = no_panic(ctx, || self.builders[b].b.start(i))?.map_err(|e| format!("{}: {:?}", ctx, e))?;
                        // writers are dropped before their builders
                        let w = unsafe { std::mem::transmute::<Box<dyn DynWriter + '_>, Box<dyn DynWriter + 'static>>(w) };
                        self.begun(b, i);
                        self.writers.push(W { w, b, i, pos: 0 });
                        o.class("streamed");
                    }
                }
            }
            AOp::Grow(w, n) => {
                if !self.writers.is_empty() {
                    let w = pick(*w, self.writers.len());
                    self.grow(w, *n as usize, ctx)?;
                }
            }
            AOp::Close(w) => {
                if !self.writers.is_empty() {
                    let w = pick(*w, self.writers.len());
                    self.close(w, ctx)?;
                }
            }
            AOp::Abandon(w) => {
                if !self.writers.is_empty() {
                    let w = pick(*w, self.writers.len());
                    let W { w, b, i, .. } = self.writers.swap_remove(w);
                    drop_unwinding(w);
                    self.builders[b].state[i] = St::Broken;
                    o.class("abandoned");
                }
            }
            AOp::Open(s, d, other) => {
                let places = self.places();
                let (mut a, mut content, dir) = places[pick(*d, places.len())].clone();
                if let Some(x) = other {
                    let b = places[pick(*x, places.len())].0;
                    if b != a {
                        a = b;
                        content = vec![None; ARCHIVES[a].res.len()];
                        let sig = join(&dir, &format!("{}.archive", ARCHIVES[a].name));
                        if self.files.contains_key(&sig) {
                            return Ok(());
                        }
                        o.class("opened as another type");
                    }
                }
                let busy = self.partial.iter().any(|p| p.starts_with(&prefix(&dir)));
                o.class_if(busy, "opened while being written");
                self.open(self.store(*s), a, &content, &dir, ctx, o)?;
            }
            AOp::Dup(k) => {
                if !self.opened.is_empty() && self.opened.len() < 12 {
                    let x = &self.opened[pick(*k, self.opened.len())];
                    let y = Opened { x: no_panic(ctx, || x.x.dup())?, want: x.want.clone(), raw: x.raw.clone(), debug: x.debug.clone() };
                    // the clone keeps the data alive as well as the original
                    self.opened.push(y);
                    o.class("cloned archive");
                }
            }
            AOp::DropArchive(k) => {
                if !self.opened.is_empty() {
                    let k = pick(*k, self.opened.len());
                    self.opened.remove(k);
                }
            }
            AOp::Dump(k) => {
                if !self.opened.is_empty() {
                    let x = &self.opened[pick(*k, self.opened.len())];
                    same!(no_panic(ctx, || x.x.debug())?, x.debug, "{}: Debug of an opened archive", ctx);
                }
            }
            AOp::DropStore(k) => {
                let k = self.store(*k);
                if self.stores.iter().flatten().count() > 1 {
                    self.held.retain(|h| h.store != k);
                    self.stores[k] = None;
                    o.class_if(!self.opened.is_empty(), "storage dropped before its archives");
                }
            }
            AOp::NewStore => {
                if self.stores.len() < 8 {
                    let s = if self.file {
                        FileResourceStorage::new(self.d.join("st"))
                    } else {
                        self.st(self.store(0)).subdir("")
                    };
                    self.stores.push(Some(s));
                }
            }
            AOp::Read(k, n, how) => {
                let names: Vec<&String> = self.files.keys().chain(self.partial.iter()).filter(|n| !n.ends_with(".schema")).collect();
                if names.is_empty() {
                    return Ok(());
                }
                let name = names[*n as usize * names.len() >> 16].clone();
                let k = self.store(*k);
                let st = self.st(k);
                let schema = match self.files.get(&format!("{}.schema", name)) {
                    Some(b) => String::from_utf8(b.clone()).unwrap(),
                    None => String::new(),
                };
                match how {
                    // a wrong schema, a missing name
                    0 => {
                        let r = no_panic(ctx, || st.read(&name, &format!("{} ", schema)))?;
                        ensure!(r.is_err(), "{}: {:?} is read under another schema", ctx, name);
                        self.log.push(format!("{}: {}", ctx, kind_of(&r.unwrap_err())));
                    }
                    1 => {
                        let r = no_panic(ctx, || st.read(&format!("{}_", name), &schema))?;
                        ensure!(r.is_err(), "{}: \"{}_\" was never written", ctx, name);
                        self.log.push(format!("{}: {}", ctx, kind_of(&r.unwrap_err())));
                        ensure!(!st.exists(&format!("{}_", name)), "{}: exists after a failed read", ctx);
                    }
                    2 => {
                        let r = no_panic(ctx, || st.read_resource(&name))?;
                        match (self.files.get(&name), &r) {
                            (Some(w), Ok(g)) => ensure!(g == &&w[..], "{}: {:?}: stored bytes differ", ctx, name),
                            (Some(_), Err(e)) => return Err(format!("{}: {:?}: {:?}", ctx, name, e)),
                            (None, _) => {}
                        }
                        self.log.push(format!("{}: {:?}", ctx, r.map(|b| format!("{} bytes {:016x}", b.len(), fnv(b))).map_err(|e| e.kind())));
                    }
                    _ => {
                        let r = no_panic(ctx, || st.read(&name, &schema))?;
                        match (self.files.get(&name), &r) {
                            (Some(w), Ok(g)) => {
                                ensure!(g == &&w[8..w.len() - 8], "{}: {:?}: contents differ", ctx, name);
                                self.reads += 1;
                                if self.hold && self.held.len() < 40 {
                                    self.held.push(Held { store: k, name: name.clone(), p: g.as_ptr(), bytes: g.to_vec() });
                                    o.class("slice held");
                                }
                            }
                            (Some(_), Err(e)) => return Err(format!("{}: {:?} is complete, got {:?}", ctx, name, e)),
                            (None, Ok(g)) => return Err(format!("{}: {:?} is not complete, but reads {} bytes", ctx, name, g.len())),
                            (None, Err(_)) => o.class("read while being written"),
                        }
                        self.log.push(format!("{}: {}", ctx, match r {
                            Ok(b) => format!("{} bytes {:016x}", b.len(), fnv(b)),
                            Err(e) => kind_of(&e),
                        }));
                    }
                }
            }
            AOp::Copy(k, x) => {
                if self.opened.is_empty() || self.copies >= 3 {
                    return Ok(());
                }
                let k = self.store(*k);
                let dir = format!("copy{}", self.copies);
                self.copies += 1;
                let st = self.at(k, &dir);
                let x = &self.opened[pick(*x, self.opened.len())];
                no_panic(ctx, || x.x.copy_to(st))?.map_err(|e| format!("{}: {}", ctx, e))?;
                let want = x.want.clone();
                // the type is known from the number of ways its contents can be encoded: find it by its signature
                let root = self.st(k);
                for a in 0..ARCHIVES.len() {
                    if root.exists(&join(&dir, &format!("{}.archive", ARCHIVES[a].name))) {
                        encode_archive(a, &want, &prefix(&dir), &mut self.files);
                    }
                }
                same_bytes(&*root, &self.files, ctx)?;
                o.class("copied from an opened archive");
            }
        }
        Ok(())
    }
    fn res(&self, b: usize, i: usize) -> bool {
        match self.builders[b].content[i] {
            Some(Content::Sub(_)) | None => false,
            _ => true,
        }
    }
    fn resource(&self, b: u8, i: u8) -> Option<(usize, usize)> {
        if self.builders.is_empty() {
            return None;
        }
        let b = pick(b, self.builders.len());
        let rs: Vec<usize> = (0..self.builders[b].content.len()).filter(|i| self.res(b, *i)).collect();
        if rs.is_empty() {
            return None;
        }
        Some((b, rs[pick(i, rs.len())]))
    }
    fn set(&mut self, b: usize, i: usize, ctx: &str, o: &mut Obs) -> Result<(), String> {
        match self.builders[b].state[i] {
            St::Open => {
                let w = self.writers.iter().position(|w| w.b == b && w.i == i).unwrap();
                return self.close(w, ctx);
            }
            // overwriting something that may be mapped is out of bounds
            St::Done | St::Broken if self.hold => return Ok(()),
            St::Done => o.class("overwritten"),
            _ => {}
        }
        let x = &self.builders[b];
        let mut only: ArchContent = vec![None; x.content.len()];
        only[i] = x.content[i].clone();
        let r = no_panic(ctx, || write_archive(&*x.b, &only, &self.c.plan, &[], &mut |_| {}))?;
        r.map_err(|e| format!("{}: {:?}", ctx, e))?;
        self.log.push(format!("{}: {} of {:?} written", ctx, i, self.builders[b].dir));
        self.done(b, i);
        Ok(())
    }
    fn grow(&mut self, w: usize, n: usize, ctx: &str) -> Result<(), String> {
        for _ in 0..n {
            let x = &mut self.writers[w];
            let c = self.builders[x.b].content[x.i].as_ref().unwrap();
            let r = match c {
                Content::Vector(v) if x.pos < v.len() => no_panic(ctx, || x.w.grow_rec(&v[x.pos]))?,
                Content::Multi(v) if x.pos < v.len() => no_panic(ctx, || x.w.grow_item(&v[x.pos]))?,
                _ => return Ok(()),
            };
            r.map_err(|e| format!("{}: {:?}", ctx, e))?;
            x.pos += 1;
        }
        Ok(())
    }
    fn close(&mut self, w: usize, ctx: &str) -> Result<(), String> {
        self.grow(w, 1 << 20, ctx)?;
        let W { w, b, i, .. } = self.writers.swap_remove(w);
        let got = no_panic(ctx, || w.close())?.map_err(|e| format!("{}: {:?}", ctx, e))?;
        same!(Some(&got), self.builders[b].content[i].as_ref(), "{}: view returned on closing", ctx);
        self.log.push(format!("{}: closed {} of {:?}", ctx, i, self.builders[b].dir));
        self.done(b, i);
        Ok(())
    }
    fn end(&mut self, o: &mut Obs) -> Result<(), String> {
        for b in 0..self.builders.len() {
            for i in 0..self.builders[b].content.len() {
                let s = self.builders[b].state[i];
                // a resource abandoned once is written anew
                if self.res(b, i) && s != St::Done && (s != St::Broken || !self.hold) {
                    self.set(b, i, "at the end", o)?;
                }
            }
        }
        self.check_held("at the end")?;
        let places = self.places();
        let k = self.store(255);
        for (a, content, dir) in &places {
            self.open(k, *a, content, dir, &format!("at the end, opening {:?}", dir), o)?;
        }
        self.check_held("at the very end")?;
        let st = self.st(self.store(0));
        same_bytes(&*st, &self.files, "at the end")?;
        for (n, b) in &self.files {
            self.log.push(format!("{:?}: {} bytes {:016x}", n, b.len(), fnv(b)));
        }
        for n in &self.partial {
            self.log.push(format!("{:?}: {:?}", n, st.read_resource(n).map(|b| format!("{} bytes {:016x}", b.len(), fnv(b))).map_err(|e| e.kind())));
        }
        if self.file {
            let mut t = tree(&self.d.join("st"));
            for n in &self.partial {
                t.remove(n);
            }
            same_tree(&t, &self.files, "at the end")?;
        }
        Ok(())
    }
}
/// Runs a history; the log of outcomes is the same for every kind of storage.
pub fn run(c: &ACase, file: bool, hold: bool, o: &mut Obs) -> Result<Vec<String>, String> {
    let mut w = World::new(c, file, hold);
    for (n, op) in c.ops.iter().enumerate() {
        w.step(op, &format!("step {} {:?}", n, op), o)?;
    }
    w.end(o)?;
    o.nontrivial_if(w.reads >= 2);
    Ok(std::mem::replace(&mut w.log, vec![]))
}
