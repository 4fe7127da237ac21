//! Programs over a resource storage, checked against a map from path to last complete contents.
use crate::model::*;
use crate::{ensure, same};
use crate::runner::Obs;
use crate::util::*;
use flatdata::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::{self, Write};
use std::path::PathBuf;
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Data {
    Bytes(Vec<u8>),
    Fill(u64, usize),
}
impl Data {
    pub fn get(&self) -> Vec<u8> {
        match self {
            Data::Bytes(b) => b.clone(),
            Data::Fill(s, n) => filler(*s, *n),
        }
    }
}
pub fn data_strategy(max: usize) -> BoxedStrategy<Data> {
    prop_oneof![
        1 => Just(Data::Bytes(vec![])),
        4 => prop::collection::vec(any::<u8>(), 0..40).prop_map(Data::Bytes),
        // contents that look like a frame themselves
        1 => prop::collection::vec(any::<u8>(), 0..20).prop_map(|p| Data::Bytes(frame(&p))),
        1 => (1usize..40).prop_map(|n| Data::Bytes(vec![0; n])),
        2 => (any::<u64>(), 0usize..600).prop_map(|(s, n)| Data::Fill(s, n)),
        2 => (any::<u64>(), prop::sample::select(vec![4096usize, 8192, 65_536]), 0usize..40)
            .prop_map(move |(s, m, d)| Data::Fill(s, (m + 20 - d).min(max))),
        1 => (any::<u64>(), 0..=max).prop_map(|(s, n)| Data::Fill(s, n)),
    ]
    .boxed()
}
/// Directories and leaf, as indices into the case's pools, and the way they are spelled.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Name(pub Vec<u8>, pub u8, pub Spelled);
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Spelled {
    Plain,
    /// a//b
    Doubled,
    /// a/./b
    Dotted,
    /// ./a/b
    FromHere,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SOp {
    Write { h: u8, name: Name, schema: u8, data: Data },
    /// Starts writing: through a streamed vector of bytes or through a raw output stream.
    Stream { slot: u8, h: u8, name: Name, schema: u8, data: Data, raw: bool },
    More { slot: u8, n: u16 },
    Finish { slot: u8 },
    Exists { h: u8, name: Name },
    Read { h: u8, name: Name },
    ReadAs { h: u8, name: Name, schema: u8 },
    Raw { h: u8, name: Name },
    Subdir { h: u8, dirs: Vec<u8> },
    Reopen,
    Dirs { h: u8, dir: u8 },
    /// Behind the back of the storage: files are removed, all are, or others are put in their place.
    Remove { h: u8, name: Name },
    Clear,
    Replace { h: u8, name: Name, schema: u8, data: Data, same_size: bool },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StCase {
    pub names: Vec<String>,
    pub dirs: Vec<String>,
    pub schemas: Vec<String>,
    pub ops: Vec<SOp>,
    /// how the storage is named
    #[serde(default)]
    pub root: u8,
}
pub fn schema_strategy() -> BoxedStrategy<String> {
    prop_oneof![
        1 => Just(String::new()),
        3 => "[a-c \\n;:{}]{0,12}",
        2 => any::<String>(),
        2 => (1usize..60).prop_map(|n| (0..n).map(|i| format!("line {} of a schema\n", i)).collect::<String>()),
        1 => (1usize..6000).prop_map(|n| "x".repeat(n)),
    ]
    .boxed()
}
pub const VARIATIONS: &[&str] = &[
    "@.tmp", "@~", "@.bak", "@.new", "@.part", "@.lock", "@_", "@.0", "@1", "_@", ".@", ".@.tmp", "tmp_@", "@.old", "@.archive", "@_index", "@.data", "@.size", "#@#", ".@.swp", "@.schema.tmp", "@@", "@ ",
];
fn leaf_strategy() -> BoxedStrategy<String> {
    prop_oneof![
        4 => prop::sample::select(vec![
            "a", "b", "ab", "a_", "a.b", "A", "a_index", "x.archive", "schema", ".hidden", "a b", "\u{fc}ml\u{e4}ut", "a.schema.b", "-", "0", "a\nb", "..a", "a%2Fb",
            "a\\b", "\\", "C:", "*", "?", "a ", " a", "a.", "~", "$HOME", "\u{e9}", "e\u{301}", "\u{1F600}", "\u{feff}a", "...", "AB", "aB", "a#", "schema.", "xschema", "a.SCHEMA", "a.index"
        ]).prop_map(|s| s.to_string()),
        2 => "[a-zA-Z0-9_.-]{1,12}",
        1 => (1usize..60).prop_map(|n| "long".repeat(n)),
        1 => prop::collection::vec(any::<char>(), 1..30).prop_map(|v| v.into_iter().filter(|c| *c != '/' && *c != '\0').collect::<String>()),
    ]
    .prop_filter("reserved", |s: &String| s != "" && s != "." && s != ".." && !s.ends_with(".schema") && s.len() < 246)
    .boxed()
}
pub fn st_case(max: usize, ops: usize) -> BoxedStrategy<StCase> {
    st_case_in(max, ops, false)
}
/// With `outside`, files also change without the storage being told (for file storages only).
pub fn st_case_in(max: usize, ops: usize, outside: bool) -> BoxedStrategy<StCase> {
    let dirs = |n: usize| prop_oneof![4 => prop::collection::vec(0u8..4, 1..=2), 1 => prop::collection::vec(0u8..4, 1..=n)];
    let name = move || {
        let spelled = prop_oneof![12 => Just(Spelled::Plain), 1 => Just(Spelled::Doubled), 1 => Just(Spelled::Dotted), 1 => Just(Spelled::FromHere)];
        (prop_oneof![3 => Just(vec![]), 2 => dirs(6)], 0u8..6, spelled).prop_map(|(d, l, s)| Name(d, l, s))
    };
    let few_sizes = (any::<u64>(), prop::sample::select(vec![1usize, 8, 100, 4096])).prop_map(|(s, n)| Data::Fill(s, n));
    let data = move |max| if outside { prop_oneof![data_strategy(max), few_sizes.clone()].boxed() } else { data_strategy(max) };
    let op = prop_oneof![
        6 => (any::<u8>(), name(), 0u8..4, data(max)).prop_map(|(h, name, schema, data)| SOp::Write { h, name, schema, data }),
        3 => (0u8..3, any::<u8>(), name(), 0u8..4, data_strategy(max), any::<bool>())
            .prop_map(|(slot, h, name, schema, data, raw)| SOp::Stream { slot, h, name, schema, data, raw }),
        3 => (0u8..3, any::<u16>()).prop_map(|(slot, n)| SOp::More { slot, n }),
        3 => (0u8..3).prop_map(|slot| SOp::Finish { slot }),
        3 => (any::<u8>(), name()).prop_map(|(h, name)| SOp::Exists { h, name }),
        5 => (any::<u8>(), name()).prop_map(|(h, name)| SOp::Read { h, name }),
        1 => (any::<u8>(), name(), 0u8..4).prop_map(|(h, name, schema)| SOp::ReadAs { h, name, schema }),
        2 => (any::<u8>(), name()).prop_map(|(h, name)| SOp::Raw { h, name }),
        3 => (any::<u8>(), prop_oneof![4 => (0u8..4).prop_map(|d| vec![d]), 1 => dirs(4)]).prop_map(|(h, dirs)| SOp::Subdir { h, dirs }),
        1 => Just(SOp::Reopen),
        1 => (any::<u8>(), 0u8..4).prop_map(|(h, dir)| SOp::Dirs { h, dir }),
    ];
    let change = prop_oneof![
        2 => (any::<u8>(), name()).prop_map(|(h, name)| SOp::Remove { h, name }),
        1 => Just(SOp::Clear),
        3 => (any::<u8>(), name(), 0u8..4, data_strategy(max), any::<bool>())
            .prop_map(|(h, name, schema, data, same_size)| SOp::Replace { h, name, schema, data, same_size }),
    ];
    let op = if outside { prop_oneof![4 => op, 1 => change].boxed() } else { op.boxed() };
    // some names are variations of others, as temporary and derived files have them
    let leaves = (prop::collection::vec(leaf_strategy(), 2..6), prop::collection::vec((any::<u8>(), any::<u8>(), 0..VARIATIONS.len()), 0..3)).prop_map(|(mut v, more)| {
        for (to, from, how) in more {
            let n = v.len();
            let x = VARIATIONS[how].replace('@', &v[from as usize % n]);
            if x.len() < 246 && !x.ends_with(".schema") {
                v[to as usize % n] = x;
            }
        }
        v
    });
    (
        leaves,
        prop::collection::vec(leaf_strategy().prop_map(|s| s.replace('\n', "")).prop_filter("dir", |s| !s.is_empty()), 1..4),
        prop::collection::vec(schema_strategy(), 1..4),
        prop::collection::vec(op, 1..ops),
        prop_oneof![3 => Just(0u8), 1 => 1u8..12],
    )
        .prop_map(|(names, mut dirs, schemas, ops, root)| {
            // a name is either a resource or a directory
            for d in &mut dirs {
                while names.iter().any(|n| *n == *d || format!("{}.schema", n) == *d) || d == "." || d == ".." {
                    d.push('d');
                }
            }
            StCase { names, dirs, schemas, ops, root }
        })
        .boxed()
}

enum Push {
    Bytes(Vec<u8>),
}
struct Slot {
    key: String,
    schema: String,
    payload: Vec<u8>,
    sent: usize,
    how: How,
}
enum How {
    Vector(Box<dyn DynWriter>),
    Raw(Box<dyn FnMut(Push) -> io::Result<()>>),
}
pub fn kind_of(e: &ResourceStorageError) -> String {
    match e {
        ResourceStorageError::Io(e, _) => format!("Io({:?})", e.kind()),
        ResourceStorageError::WrongSignature { diff, .. } => format!("WrongSignature({:016x})", fnv(diff.as_bytes())),
        ResourceStorageError::Utf8Error(e) => format!("{:?}", e),
        e => format!("{:?}", e),
    }
}
fn show(b: &[u8]) -> String {
    format!("{} bytes {:016x}", b.len(), fnv(b))
}

pub struct Machine {
    file: bool,
    dir: TempDir,
    root: u8,
    store: PathBuf,
    handles: Vec<(Rc<dyn ResourceStorage>, String)>,
    slots: Vec<Option<Slot>>,
    pub complete: BTreeMap<String, (String, Vec<u8>)>,
    pub log: Vec<String>,
    overwrites: u64,
    /// slices handed out for resources not overwritten since: they must stay as they were
    held: Vec<(String, *const u8, Vec<u8>)>,
    ended: bool,
}
impl Machine {
    /// Where the files are and how that is spelled; for a storage in memory just a name.
    fn place(file: bool, dir: &TempDir, root: u8) -> (PathBuf, PathBuf) {
        use std::os::unix::ffi::OsStrExt;
        if !file {
            let n = ["/some/store", ".", "/", "some", "some/", "./x", "/some/../x", "/\u{e4} b", "a/../../b", "", "//", "..x"][root as usize % 12];
            return (PathBuf::from(n), PathBuf::from(n));
        }
        let d = dir.path();
        let real = match root {
            // not text
            1 => d.join(std::ffi::OsStr::from_bytes(b"st\xff\xfe\xc3re")),
            2 => d.join("st \u{f6}re\\.schema"),
            3 => d.join("a/b/c.archive/store"),
            8 => d.join("far/store"),
            9 => d.join("..store"),
            10 => d.join("very/long/".repeat(150)).join("store"),
            11 => d.join("\"a\n'b\" $(c) *"),
            _ => d.join("store"),
        };
        let spelled = match root {
            4 => d.join("store/"),
            5 => d.join("./store"),
            // relative to the working directory
            6 => {
                let up = std::env::current_dir().map_or(0, |c| c.components().count() - 1);
                PathBuf::from("../".repeat(up) + real.to_str().unwrap().trim_start_matches('/'))
            }
            7 => {
                let link = d.join("link");
                if !link.exists() {
                    std::fs::create_dir_all(&real).expect("harness: mkdir");
                    std::os::unix::fs::symlink("store", &link).expect("harness: symlink");
                }
                link
            }
            // the parent of what the link points to, not of the link
            8 => {
                let link = d.join("link");
                if !link.exists() {
                    std::fs::create_dir_all(d.join("far/inner")).expect("harness: mkdir");
                    std::os::unix::fs::symlink("far/inner", &link).expect("harness: symlink");
                }
                link.join("../store")
            }
            9 => PathBuf::from("/").join(d.to_str().unwrap().replace('/', "//")).join("..store/."),
            _ => real.clone(),
        };
        (real, spelled)
    }
    fn root(&self) -> Rc<dyn ResourceStorage> {
        let spelled = Machine::place(self.file, &self.dir, self.root).1;
        if self.file {
            FileResourceStorage::new(spelled)
        } else {
            MemoryResourceStorage::new(spelled)
        }
    }
    pub fn new(file: bool, root: u8) -> Machine {
        let dir = TempDir::new();
        let store = Machine::place(file, &dir, root).0;
        let mut m = Machine {
            file,
            dir,
            root,
            store,
            handles: vec![],
            slots: vec![None, None, None],
            complete: BTreeMap::new(),
            log: vec![],
            overwrites: 0,
            held: vec![],
            ended: false,
        };
        let r = m.root();
        m.handles.push((r, String::new()));
        m
    }
    fn handle(&self, h: u8) -> (Rc<dyn ResourceStorage>, String) {
        self.handles[h as usize % self.handles.len()].clone()
    }
    fn busy(&self, key: &str) -> bool {
        self.slots.iter().any(|s| s.as_ref().map_or(false, |s| s.key == key))
    }
    fn hold(&mut self, key: &str, d: &[u8]) {
        // at the end short-lived handles are used
        if !self.ended && self.held.len() < 40 && d.len() < 100_000 {
            self.held.push((key.into(), d.as_ptr(), d.to_vec()));
        }
    }
    fn orphan(&mut self, key: &str) {
        for h in self.held.iter_mut().filter(|h| h.0 == key) {
            h.0 = String::new();
        }
    }
    fn check_held(&mut self, ctx: &str) -> Result<(), String> {
        let (complete, held) = (&self.complete, &mut self.held);
        // those of removed or replaced files have no name
        held.retain(|h| h.0 == "" || complete.contains_key(&h.0));
        for (key, p, want) in held.iter() {
            let got = unsafe { std::slice::from_raw_parts(*p, want.len()) };
            ensure!(got == &want[..], "{}: bytes of {:?} read earlier changed: {}, expected {}", ctx, key, show(got), show(want));
        }
        Ok(())
    }
    fn names(c: &StCase, n: &Name, prefix: &str) -> (String, String) {
        let mut rel = String::new();
        let mut key = prefix.to_string();
        if n.2 == Spelled::FromHere {
            rel += "./";
        }
        for d in &n.0 {
            let d = &c.dirs[*d as usize % c.dirs.len()];
            rel += d;
            rel += match n.2 {
                Spelled::Doubled => "//",
                Spelled::Dotted => "/./",
                _ => "/",
            };
            key += d;
            key += "/";
        }
        let leaf = &c.names[n.1 as usize % c.names.len()];
        rel += leaf;
        key += leaf;
        (rel, key)
    }
    fn finish(&mut self, k: usize) -> Result<(), String> {
        if let Some(mut s) = self.slots[k].take() {
            self.push(&mut s, usize::max_value())?;
            let Slot { key, schema, payload, how, .. } = s;
            if let How::Vector(w) = how {
                let got = no_panic("close", || w.close())?.map_err(|e| format!("close of {:?}: {:?}", key, e))?;
                if let Content::Vector(v) = got {
                    let b: Vec<u8> = v.iter().map(|r| r[0] as u8).collect();
                    ensure!(b == payload, "view returned on closing {:?} differs", key);
                }
            }
            self.log.push(format!("finish {:?}", key));
            self.complete.insert(key, (schema, payload));
        }
        Ok(())
    }
    fn push(&mut self, s: &mut Slot, n: usize) -> Result<(), String> {
        match &mut s.how {
            How::Vector(w) => {
                let end = s.sent.saturating_add(n).min(s.payload.len());
                for b in &s.payload[s.sent..end] {
                    w.grow_rec(&[u64::from(*b)]).map_err(|e| format!("grow: {:?}", e))?;
                }
                s.sent = end;
            }
            How::Raw(f) => {
                let all = frame(&s.payload);
                let end = s.sent.saturating_add(n).min(all.len());
                f(Push::Bytes(all[s.sent..end].to_vec())).map_err(|e| format!("write to stream: {:?}", e))?;
                s.sent = end;
            }
        }
        Ok(())
    }
    fn read(&mut self, st: &dyn ResourceStorage, rel: &str, key: &str, schema: &str, ctx: &str) -> Result<(), String> {
        let r = no_panic(ctx, || st.read(rel, schema))?;
        self.log.push(match &r {
            Ok(d) => format!("read {:?}: {}", key, show(d)),
            Err(e) => format!("read {:?}: {}", key, kind_of(e)),
        });
        if let Some(s) = self.slots.iter().flatten().find(|s| s.key == key) {
            let all_sent = match s.how {
                How::Raw(_) => s.sent == s.payload.len() + 16,
                _ => false,
            };
            match r {
                Ok(d) => ensure!(all_sent && schema == s.schema && d == &s.payload[..], "{}: reads {} although it is not completely written", ctx, show(d)),
                Err(e) => ensure!(!(all_sent && schema == s.schema), "{}: {:?} although completely written", ctx, e),
            }
            return Ok(());
        }
        match (self.complete.get(key), r) {
            (None, Err(e)) => match &e {
                ResourceStorageError::Io(e, _) if e.kind() == io::ErrorKind::NotFound => Ok(()),
                e => Err(format!("{}: never written, expected NotFound, got {:?}", ctx, e)),
            },
            (None, Ok(d)) => Err(format!("{}: never written, but reads {}", ctx, show(d))),
            (Some((sch, _)), Err(ResourceStorageError::WrongSignature { .. })) if sch != schema => Ok(()),
            (Some((sch, p)), Ok(d)) => {
                ensure!(sch == schema, "{}: read under another schema", ctx);
                ensure!(d == &p[..], "{}: got {}, last written {}", ctx, show(d), show(p));
                self.hold(key, d);
                Ok(())
            }
            (Some((_, p)), Err(e)) => Err(format!("{}: last written {}, got {:?}", ctx, show(p), e)),
        }
    }
    fn raw(&mut self, st: &dyn ResourceStorage, rel: &str, key: &str, ctx: &str) -> Result<(), String> {
        let r = no_panic(ctx, || st.read_resource(rel))?;
        let rs = no_panic(ctx, || st.read_resource(&format!("{}.schema", rel)))?;
        for r in &[&r, &rs] {
            self.log.push(match r {
                Ok(d) => format!("raw {:?}: {}", key, show(d)),
                Err(e) => format!("raw {:?}: {:?}", key, e.kind()),
            });
        }
        if self.busy(key) {
            return Ok(());
        }
        match (self.complete.get(key), r, rs) {
            (None, Err(a), Err(b)) => {
                same!((a.kind(), b.kind()), (io::ErrorKind::NotFound, io::ErrorKind::NotFound), "{}: never written", ctx);
                Ok(())
            }
            (Some((s, p)), Ok(a), Ok(b)) => {
                ensure!(a == &frame(p)[..], "{}: stored {:?}..., expected the frame of {}", ctx, &a[..a.len().min(64)], show(p));
                ensure!(b == s.as_bytes(), "{}: stored schema {:?}, expected {:?}", ctx, b, s);
                self.hold(key, a);
                self.hold(key, b);
                Ok(())
            }
            (m, a, b) => Err(format!("{}: in the model: {}, stored {:?} / {:?}", ctx, m.is_some(), a.map(show), b.map(show))),
        }
    }
    fn exists(&mut self, st: &dyn ResourceStorage, rel: &str, key: &str, ctx: &str) -> Result<(), String> {
        let e = no_panic(ctx, || st.exists(rel))?;
        self.log.push(format!("exists {:?}: {}", key, e));
        if self.busy(key) {
            return Ok(());
        }
        same!(e, self.complete.contains_key(key), "{}: exists", ctx);
        Ok(())
    }
    pub fn step(&mut self, c: &StCase, n: usize, op: &SOp, o: &mut Obs) -> Result<(), String> {
        self.step1(c, n, op, o)?;
        o.count("slices held and checked", self.held.len() as u64);
        self.check_held(&format!("after step {} {:?}", n, op))
    }
    fn step1(&mut self, c: &StCase, n: usize, op: &SOp, o: &mut Obs) -> Result<(), String> {
        let text = format!("{:?}", op);
        let ctx = format!("step {} {}", n, text.chars().take(300).collect::<String>());
        let schema = |k: u8| c.schemas[k as usize % c.schemas.len()].clone();
        match op {
            SOp::Write { h, name, schema: sc, data } => {
                let (st, p) = self.handle(*h);
                let (rel, key) = Machine::names(c, name, &p);
                if !self.busy(&key) {
                    let d = data.get();
                    let r = no_panic(&ctx, || st.write(&rel, &schema(*sc), &d))?;
                    ensure!(r.is_ok(), "{}: {:?}", ctx, r);
                    self.log.push(format!("write {:?}", key));
                    self.held.retain(|h| h.0 != key);
                    let old = self.complete.insert(key, (schema(*sc), d));
                    o.class_if(old.is_some(), "overwritten");
                    self.overwrites += old.is_some() as u64;
                    o.class("written in one go");
                }
            }
            SOp::Stream { slot, h, name, schema: sc, data, raw } => {
                let k = *slot as usize;
                self.finish(k)?;
                let (st, p) = self.handle(*h);
                let (rel, key) = Machine::names(c, name, &p);
                if !self.busy(&key) {
                    let s = schema(*sc);
                    let how = if *raw {
                        let f = |n: &str| no_panic(&ctx, || st.create_output_stream(n))?.map_err(|e| format!("{}: {:?}", ctx, e));
                        let ss = f(&format!("{}.schema", rel))?;
                        ss.borrow_mut().write_all(s.as_bytes()).map_err(|e| format!("{}: {:?}", ctx, e))?;
                        let stream = f(&rel)?;
                        How::Raw(Box::new(move |Push::Bytes(b)| stream.borrow_mut().write_all(&b)))
                    } else {
                        let w = no_panic(&ctx, || start_vector(0, &*st, &rel, &s))?.map_err(|e| format!("{}: {:?}", ctx, e))?;
                        // the storage outlives the writer: handles are never dropped before the slots
                        How::Vector(unsafe { std::mem::transmute::<Box<dyn DynWriter + '_>, Box<dyn DynWriter + 'static>>(w) })
                    };
                    if !self.handles.iter().any(|x| Rc::ptr_eq(&x.0, &st)) {
                        self.handles.push((st.clone(), p));
                    }
                    let old = self.complete.remove(&key);
                    self.overwrites += old.is_some() as u64;
                    o.class_if(old.is_some(), "overwritten");
                    o.class(if *raw { "raw stream" } else { "streamed vector" });
                    self.log.push(format!("stream {:?}", key));
                    self.slots[k] = Some(Slot { key, schema: s, payload: data.get(), sent: 0, how });
                }
            }
            SOp::More { slot, n } => {
                if let Some(mut s) = self.slots[*slot as usize].take() {
                    let size = s.payload.len() + 17;
                    let r = self.push(&mut s, *n as usize * size >> 16);
                    self.slots[*slot as usize] = Some(s);
                    r?;
                    o.class_if(self.slots.iter().flatten().count() > 1, "several streams at once");
                }
            }
            SOp::Finish { slot } => self.finish(*slot as usize)?,
            SOp::Exists { h, name } => {
                let (st, p) = self.handle(*h);
                let (rel, key) = Machine::names(c, name, &p);
                self.exists(&*st, &rel, &key, &ctx)?;
            }
            SOp::Read { h, name } => {
                let (st, p) = self.handle(*h);
                let (rel, key) = Machine::names(c, name, &p);
                let s = match self.slots.iter().flatten().find(|s| s.key == key) {
                    Some(s) => s.schema.clone(),
                    None => self.complete.get(&key).map_or_else(|| schema(0), |x| x.0.clone()),
                };
                o.class_if(self.busy(&key), "read while being written");
                o.class_if(self.complete.contains_key(&key), "read");
                self.read(&*st, &rel, &key, &s, &ctx)?;
            }
            SOp::ReadAs { h, name, schema: sc } => {
                let (st, p) = self.handle(*h);
                let (rel, key) = Machine::names(c, name, &p);
                self.read(&*st, &rel, &key, &schema(*sc), &ctx)?;
            }
            SOp::Raw { h, name } => {
                let (st, p) = self.handle(*h);
                let (rel, key) = Machine::names(c, name, &p);
                self.raw(&*st, &rel, &key, &ctx)?;
            }
            SOp::Subdir { h, dirs } => {
                let (st, p) = self.handle(*h);
                if self.handles.len() < 12 && p.matches('/').count() < 3 {
                    let d = dirs.iter().map(|d| &c.dirs[*d as usize % c.dirs.len()][..]).collect::<Vec<_>>().join("/");
                    let s = no_panic(&ctx, || st.subdir(&d))?;
                    self.handles.push((s, format!("{}{}/", p, d)));
                    o.class("subdir");
                    o.class_if(dirs.len() > 1, "subdir of several levels");
                }
            }
            SOp::Reopen => {
                // a second storage object on the same data
                let s = if self.file { self.root() } else { self.handles[0].0.clone() };
                self.handles.push((s, String::new()));
            }
            SOp::Remove { h, name } => {
                let key = Machine::names(c, name, &self.handle(*h).1).1;
                if self.file && !self.busy(&key) && self.complete.remove(&key).is_some() {
                    for k in &[key.clone(), format!("{}.schema", key)] {
                        std::fs::remove_file(self.store.join(k)).map_err(|e| format!("{}: remove {:?}: {:?}", ctx, k, e))?;
                    }
                    self.orphan(&key);
                    o.class("removed outside");
                }
            }
            SOp::Clear => {
                if self.file && self.slots.iter().flatten().count() == 0 {
                    let _ = std::fs::remove_dir_all(&self.store);
                    if self.root == 7 {
                        // what the link points to stays
                        std::fs::create_dir_all(&self.store).expect("harness: mkdir");
                    }
                    self.complete.clear();
                    for h in &mut self.held {
                        h.0 = String::new();
                    }
                    o.class("all removed outside");
                }
            }
            SOp::Replace { h, name, schema: sc, data, same_size } => {
                let key = Machine::names(c, name, &self.handle(*h).1).1;
                if self.file && !self.busy(&key) {
                    let mut d = data.get();
                    if let (Some(old), true) = (self.complete.get(&key), *same_size) {
                        d.resize(old.1.len(), 77);
                    }
                    let to = self.store.join(&key);
                    (|| {
                        std::fs::create_dir_all(to.parent().unwrap())?;
                        for (f, b) in &[(to.clone(), frame(&d)), (self.store.join(format!("{}.schema", key)), schema(*sc).into_bytes())] {
                            let new = self.dir.join("new");
                            std::fs::write(&new, b)?;
                            std::fs::rename(&new, f)?;
                        }
                        Ok(())
                    })()
                    .map_err(|e: io::Error| format!("{}: {:?}", ctx, e))?;
                    let old = self.complete.insert(key.clone(), (schema(*sc), d));
                    self.orphan(&key);
                    o.class_if(old.is_some(), "replaced outside");
                    o.class_if(old.map_or(false, |x| x.1.len() == self.complete[&key].1.len()), "replaced by as many bytes");
                }
            }
            SOp::Dirs { h, dir } => {
                let (st, p) = self.handle(*h);
                let d = &c.dirs[*dir as usize % c.dirs.len()];
                let key = format!("{}{}", p, d);
                self.exists(&*st, d, &key, &ctx)?;
                self.read(&*st, d, &key, "any", &ctx)?;
            }
        }
        Ok(())
    }
    pub fn end(&mut self, c: &StCase) -> Result<(), String> {
        for k in 0..self.slots.len() {
            self.finish(k)?;
        }
        self.ended = true;
        let mut keys: Vec<String> = self.complete.keys().cloned().collect();
        for n in &c.names {
            keys.push(n.clone());
            for d in &c.dirs {
                keys.push(format!("{}/{}", d, n));
            }
        }
        let mut hs = self.handles.clone();
        if self.file {
            hs.push((self.root(), String::new()));
        }
        for key in &keys {
            let s = self.complete.get(key).map_or("none".to_string(), |x| x.0.clone());
            for (k, (st, p)) in hs.iter().enumerate() {
                if key.starts_with(p.as_str()) {
                    let rel = &key[p.len()..];
                    let ctx = format!("at the end, {:?} through handle {} ({:?})", key, k, p);
                    let logged = self.log.len();
                    self.exists(&**st, rel, key, &ctx)?;
                    self.read(&**st, rel, key, &s, &ctx)?;
                    self.raw(&**st, rel, key, &ctx)?;
                    if k >= self.handles.len() {
                        // only a file storage has this handle
                        self.log.truncate(logged);
                    }
                }
            }
            // and step by step through fresh sub-directory handles
            let parts: Vec<&str> = key.split('/').collect();
            let mut st = hs[0].0.clone();
            for d in &parts[..parts.len() - 1] {
                st = st.subdir(d);
            }
            let ctx = format!("at the end, {:?} through new sub-directory handles", key);
            self.read(&*st, parts[parts.len() - 1], key, &s, &ctx)?;
        }
        self.check_held("at the end")?;
        if self.file {
            let mut want = BTreeMap::new();
            for (k, (s, p)) in &self.complete {
                want.insert(k.clone(), frame(p));
                want.insert(format!("{}.schema", k), s.clone().into_bytes());
            }
            let got = tree(&self.store);
            for (k, v) in &want {
                match got.get(k) {
                    None => return Err(format!("file {:?} is missing", k)),
                    Some(g) => ensure!(g == v, "file {:?}: {}, expected {}", k, show(g), show(v)),
                }
            }
            for k in got.keys() {
                ensure!(want.contains_key(k), "unexpected file {:?}", k);
            }
        }
        Ok(())
    }
    pub fn nontrivial(&self) -> bool {
        self.complete.len() >= 2 || self.overwrites > 0
    }
}
/// Runs the program, checks it against the model and returns the log of outcomes.
pub fn run(c: &StCase, file: bool, o: &mut Obs) -> Result<Vec<String>, String> {
    let mut m = Machine::new(file, c.root);
    let mut r = Ok(());
    for (n, op) in c.ops.iter().enumerate() {
        r = m.step(c, n, op, o);
        if r.is_err() {
            break;
        }
    }
    let r = r.and_then(|_| m.end(c));
    if r.is_err() {
        // a writer left open would panic when dropped
        for s in m.slots.drain(..) {
            std::mem::forget(s);
        }
    }
    o.nontrivial_if(m.nontrivial());
    o.class_if(c.root > 0, "oddly named storage");
    r.map(|_| m.log)
}
