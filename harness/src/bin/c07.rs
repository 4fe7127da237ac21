//! C07: streamed vectors.
#[macro_use]
extern crate flatcheck;
#[path = "../fault.rs"]
mod fault;
use flatcheck::giant::{at, giant_size, put, stored_is, At};
use flatcheck::model::*;
use flatcheck::runner::{self, Obs, Profiles, Prop, Sub};
use flatcheck::util::*;
use flatdata::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::rc::Rc;

type Partial = Vec<(usize, u64)>;
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    file: bool,
    vectors: Vec<(usize, Vec<Partial>)>,
    /// which of the open vectors grows next; the remaining elements follow at the end
    order: Vec<u8>,
    /// close vector as soon as it is complete
    early_close: bool,
}
fn partial(s: usize) -> BoxedStrategy<Partial> {
    let nf = STRUCTS[s].fields.len();
    let one = (0..nf).prop_flat_map(move |f| field_strategy(&STRUCTS[s].fields[f]).prop_map(move |v| (f, v)));
    let all = rec_strategy(s).prop_map(|r| r.into_iter().enumerate().collect::<Vec<_>>());
    prop_oneof![2 => all, 1 => prop::collection::vec(one, 0..4)].boxed()
}
fn vector(s: usize) -> BoxedStrategy<(usize, Vec<Partial>)> {
    let max = (200_000 / STRUCTS[s].size).max(1).min(24);
    prop::collection::vec(partial(s), 0..=max).prop_map(move |v| (s, v)).boxed()
}
fn case(s: usize) -> BoxedStrategy<Case> {
    (
        any::<bool>(),
        vector(s),
        prop::collection::vec((0..NUM_STRUCTS).prop_flat_map(vector), 0..3),
        prop::collection::vec(any::<u8>(), 0..40),
        any::<bool>(),
    )
        .prop_map(|(file, v, mut more, order, early_close)| {
            more.insert(0, v);
            Case { file, vectors: more, order, early_close }
        })
        .boxed()
}
/// Many of them open at once.
fn many() -> BoxedStrategy<Case> {
    let small: Vec<usize> = (0..NUM_STRUCTS).filter(|s| STRUCTS[*s].size < 2000).collect();
    let one = prop::sample::select(small).prop_flat_map(|s| prop::collection::vec(partial(s), 0..4).prop_map(move |v| (s, v)));
    (any::<bool>(), prop::collection::vec(one, 4..60), prop::collection::vec(any::<u8>(), 0..200), any::<bool>())
        .prop_map(|(file, vectors, order, early_close)| Case { file, vectors, order, early_close })
        .boxed()
}
fn apply(s: usize, p: &Partial) -> Rec {
    let mut r = STRUCTS[s].zero();
    for (f, v) in p {
        r[*f] = *v;
    }
    r
}
fn storage(file: bool, d: &TempDir) -> Rc<dyn ResourceStorage> {
    if file {
        FileResourceStorage::new(d.path())
    } else {
        MemoryResourceStorage::new("/root/stored")
    }
}
fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let d = TempDir::new();
    let st = storage(c.file, &d);
    let names: Vec<String> = (0..c.vectors.len()).map(|i| format!("vec{}", i)).collect();
    let schemas: Vec<String> = (0..c.vectors.len()).map(|i| format!("schema of {}\n{}", i, STRUCTS[c.vectors[i].0].name)).collect();
    let mut w: Vec<Option<Box<dyn DynWriter>>> = vec![];
    for (i, (s, _)) in c.vectors.iter().enumerate() {
        w.push(Some(no_panic("create", || start_vector(*s, &*st, &names[i], &schemas[i]))?.map_err(|e| format!("create: {:?}", e))?));
    }
    let want: Vec<Vec<Rec>> = c.vectors.iter().map(|(s, ps)| ps.iter().map(|p| apply(*s, p)).collect()).collect();
    let mut done = vec![0; c.vectors.len()];
    let close = |i: usize, w: Box<dyn DynWriter>| -> Result<(), String> {
        let got = no_panic("close", || w.close())?.map_err(|e| format!("close of vector {}: {:?}", i, e))?;
        same!(got, Content::Vector(want[i].clone()), "view returned on closing vector {}", i);
        Ok(())
    };
    let mut step = |i: usize, w: &mut Vec<Option<Box<dyn DynWriter>>>, done: &mut Vec<usize>| -> Result<(), String> {
        let k = done[i];
        if k < c.vectors[i].1.len() {
            let x = w[i].as_mut().unwrap();
            same!(x.state(), Some((k, true)), "length and open state of vector {}", i);
            x.grow_partial(&c.vectors[i].1[k]).map_err(|e| format!("grow: {:?}", e))?;
            done[i] += 1;
            same!(x.state(), Some((k + 1, true)), "length and open state of vector {}", i);
            if c.early_close && done[i] == c.vectors[i].1.len() {
                close(i, w[i].take().unwrap())?;
            }
        }
        Ok(())
    };
    for k in &c.order {
        step(*k as usize % c.vectors.len(), &mut w, &mut done)?;
    }
    for i in (0..c.vectors.len()).rev() {
        for _ in 0..c.vectors[i].1.len() {
            step(i, &mut w, &mut done)?;
        }
    }
    for (i, x) in w.iter_mut().enumerate() {
        if let Some(x) = x.take() {
            close(i, x)?;
        }
    }
    for (i, (s, _)) in c.vectors.iter().enumerate() {
        verify(*s, &*st, &names[i], &schemas[i], &encode_vec(*s, &want[i]))?;
        let again = st.read(&names[i], &schemas[i]).map_err(|e| format!("read: {:?}", e))?;
        same!(read_vector(*s, again), want[i], "vector {} read later", i);
        // differential: the same elements stored in one go
        let other = st.subdir("other");
        struct Write<'a>(&'a dyn ResourceStorage, &'a str, &'a [Rec]);
        impl<'a> StructVisitor for Write<'a> {
            type Out = std::io::Result<()>;
            fn visit<S: ModelStruct>(self) -> Self::Out {
                self.0.write("one", self.1, vec_of::<S>(self.2).as_bytes())
            }
        }
        with_struct(*s, Write(&*other, &schemas[i], &want[i])).map_err(|e| format!("write: {:?}", e))?;
        let a = other.read_resource("one").map_err(|e| format!("{:?}", e))?;
        let b = st.read_resource(&names[i]).map_err(|e| format!("{:?}", e))?;
        ensure!(a == b, "vector {} streamed and stored in one go differ", i);
        if c.file {
            // unmap before the next vector replaces the file
            drop(other);
            let _ = std::fs::remove_dir_all(d.join("other"));
        }
    }
    if c.file {
        let mut t = tree(&d.0);
        for (i, (s, _)) in c.vectors.iter().enumerate() {
            same!(t.remove(&names[i]), Some(frame(&encode_vec(*s, &want[i]))), "file of vector {}", i);
            same!(t.remove(&format!("{}.schema", names[i])), Some(schemas[i].clone().into_bytes()), "schema of vector {}", i);
            let again = FileResourceStorage::new(d.path());
            let b = again.read(&names[i], &schemas[i]).map_err(|e| format!("reopened: {:?}", e))?;
            same!(read_vector(*s, b), want[i], "vector {} in a new storage", i);
        }
        same!(t.len(), 0, "unexpected files {:?}", t.keys());
        o.class("file");
    }
    o.class_if(c.vectors.len() > 1, "several vectors at once");
    o.nontrivial_if(want.iter().any(|v| !v.is_empty()));
    Ok(())
}
fn verify(s: usize, st: &dyn ResourceStorage, name: &str, schema: &str, payload: &[u8]) -> Result<(), String> {
    let raw = st.read_resource(name).map_err(|e| format!("{:?}", e))?;
    let f = frame(payload);
    if raw != &f[..] {
        let at = raw.iter().zip(&f).position(|(a, b)| a != b);
        return Err(format!("stored {}: {} bytes, expected {}, first difference at {:?}", STRUCTS[s].name, raw.len(), f.len(), at));
    }
    let sch = st.read_resource(&format!("{}.schema", name)).map_err(|e| format!("{:?}", e))?;
    ensure!(sch == schema.as_bytes(), "stored schema {:?}", sch);
    let p = st.read(name, schema).map_err(|e| format!("read: {:?}", e))?;
    ensure!(p == payload, "payload read differs");
    Ok(())
}

/// Many elements with values derived from a seed.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bulk {
    s: usize,
    n: usize,
    seed: u64,
    file: bool,
    /// element count of a second vector growing at the same time
    second: usize,
}
const FLUSH: usize = 32 * 1024 * 1024;
fn bulk(s: usize, marks: &'static [usize], max_second: usize) -> BoxedStrategy<Bulk> {
    let sz = STRUCTS[s].size;
    (prop::sample::select(marks), -2i64..=3, any::<u64>(), any::<bool>(), prop_oneof![2 => Just(0), 1 => 0..=max_second])
        .prop_map(move |(m, d, seed, file, second)| Bulk { s, n: ((m / sz) as i64 + d).max(0) as usize, seed, file, second })
        .boxed()
}
/// Values of element i: each field set or left alone.
fn values(s: usize, x: &mut Mix, set: &mut Partial) {
    set.clear();
    let spec = &STRUCTS[s];
    let which = x.next();
    for (f, fs) in spec.fields.iter().enumerate() {
        if which >> (f % 60) & 7 != 0 {
            set.push((f, from_bits(fs.ty, fs.width, x.next())));
        }
    }
}
struct RunBulk<'a>(&'a Bulk, &'a mut Obs);
impl<'a> StructVisitor for RunBulk<'a> {
    type Out = Result<(), String>;
    fn visit<S: ModelStruct>(self) -> Self::Out {
        let (c, spec) = (self.0, S::spec());
        let d = TempDir::new();
        let st = storage(c.file, &d);
        let mut v = create_external_vector::<S>(&*st, "v", "schema v").map_err(|e| format!("create: {:?}", e))?;
        let mut v2 = create_external_vector::<S>(&*st, "second", "schema 2").map_err(|e| format!("create: {:?}", e))?;
        let (mut x, mut set) = (Mix(c.seed), vec![]);
        let mut want = vec![0u8; c.n * spec.size];
        let mut want2 = vec![0u8; c.second * spec.size];
        for i in 0..c.n.max(c.second) {
            for (n, v, want) in &mut [(c.n, &mut v, &mut want), (c.second, &mut v2, &mut want2)] {
                if i < *n {
                    values(c.s, &mut x, &mut set);
                    let mut h = v.grow().map_err(|e| format!("grow: {:?}", e))?;
                    let b = &mut want[i * spec.size..(i + 1) * spec.size];
                    for (f, val) in &set {
                        S::set(&mut h, *f, *val);
                        let fs = &spec.fields[*f];
                        ref_set(b, fs.offset, fs.width, to_bits(fs.ty, fs.width, *val));
                    }
                }
            }
        }
        same!((v.len(), v2.len()), (c.n, c.second), "lengths");
        for (v, want, name, schema) in vec![(v2, &want2, "second", "schema 2"), (v, &want, "v", "schema v")] {
            let n = v.len();
            {
                let view = no_panic("close", || v.close())?.map_err(|e| format!("close: {:?}", e))?;
                same!(view.len(), n, "length of the returned view of {}", name);
                let step = (n / 1000).max(1);
                for i in (0..n).step_by(step).chain(n.saturating_sub(3)..n) {
                    let w = spec.decode(&want[i * spec.size..(i + 1) * spec.size]);
                    same!(rec_of::<S>(&view.at(i)), w, "element {} of the view returned for {}", i, name);
                }
            }
            verify(c.s, &*st, name, schema, want)?;
        }
        if c.file {
            let again = FileResourceStorage::new(d.path());
            verify(c.s, &*again, "v", "schema v", &want)?;
            self.1.class("file");
        }
        let flushes = (c.n * spec.size) / FLUSH;
        self.1.class(&format!("{} times the flush size", flushes));
        self.1.class_if(c.second > 0, "second vector");
        self.1.nontrivial_if(c.n > 0);
        Ok(())
    }
}
fn check_bulk(c: &Bulk, o: &mut Obs) -> Result<(), String> {
    with_struct(c.s, RunBulk(c, o))
}
/// Gigabytes of elements, zero but for a few.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Giant {
    s: usize,
    bytes: u64,
    marks: Vec<(At, Rec)>,
}
fn giant() -> BoxedStrategy<Giant> {
    (prop_oneof![3 => Just(named("Huge")), 1 => Just(named("Page"))], giant_size())
        .prop_flat_map(|(s, bytes)| (Just((s, bytes)), prop::collection::vec((at(), rec_strategy(s)), 1..8)))
        .prop_map(|((s, bytes), marks)| Giant { s, bytes, marks })
        .boxed()
}
struct RunGiant<'a>(&'a Giant, &'a mut Obs);
impl<'a> StructVisitor for RunGiant<'a> {
    type Out = Result<(), String>;
    fn visit<S: ModelStruct>(self) -> Self::Out {
        let (c, spec) = (self.0, S::spec());
        let _lim = Unlimited::new();
        let d = TempDir::new();
        let st = FileResourceStorage::new(d.path());
        let n = c.bytes as usize / spec.size;
        let marks: std::collections::BTreeMap<usize, &Rec> = c.marks.iter().map(|(a, r)| (a.get(n, spec.size), r)).collect();
        let mut set = std::collections::BTreeMap::new();
        let mut v = create_external_vector::<S>(&*st, "v", "schema").map_err(|e| format!("create: {:?}", e))?;
        // less than what is streamed
        let scarce = Scarce::new(3 << 29);
        fault::sparse(true);
        for i in 0..n {
            let mut h = v.grow().map_err(|e| format!("grow: {:?}", e))?;
            if let Some(r) = marks.get(&i) {
                set_rec::<S>(&mut h, r);
                put(&mut set, (i * spec.size) as u64, &spec.encode(r));
            }
        }
        same!(v.len(), n, "len before closing");
        drop(scarce);
        let view = no_panic("close", || v.close());
        fault::sparse(false);
        let view = view?.map_err(|e| format!("close: {:?}", e))?;
        stored_is(&d.join("v"), (n * spec.size) as u64, &set)?;
        let later = FileResourceStorage::new(d.path());
        let again = ArrayView::<S>::new(later.read("v", "schema").map_err(|e| format!("read: {:?}", e))?);
        for view in &[view, again] {
            same!(view.len(), n, "length of the view");
            for (i, r) in &marks {
                same!(rec_of::<S>(&view.at(*i)), **r, "element {} of {}", i, n);
            }
        }
        self.1.class_if(c.bytes >= 1 << 32, "4 GB or more");
        self.1.nontrivial_if(!marks.is_empty());
        Ok(())
    }
}
fn check_giant(c: &Giant, o: &mut Obs) -> Result<(), String> {
    with_struct(c.s, RunGiant(c, o))
}
const MARKS: &[usize] = &[4096, 8192, 65_536, 131_072, 262_144];
const FLUSHES: &[usize] = &[FLUSH, FLUSH, 2 * FLUSH, 2 * FLUSH, 3 * FLUSH];
const FLUSH1: &[usize] = &[FLUSH, FLUSH, FLUSH, 2 * FLUSH];
fn named(n: &str) -> usize {
    STRUCTS.iter().position(|s| s.name == n).unwrap()
}
fn main() {
    let n = NUM_STRUCTS as u64;
    runner::main(Prop {
        id: "C07",
        level: "exploration",
        rule: "one to three streamed vectors of any generated struct type grown in random interleavings with any subset of fields \
               set, in memory and on disk, up to 60 of them open at once, and bulk vectors of lengths around 4 KiB .. 256 KiB and around one, two and three times \
               the 32 MiB flush size (also two of them at once); returned view, stored bytes, schema and later reads compared with \
               the reference encoding and with the same elements stored in one go; vectors of 2 to 8 GB, zero but for a few elements, \
               streamed to a file that keeps holes and compared byte for byte; non-trivial = at least one element",
        assumptions: &["the flush threshold is internal: lengths around multiples of 32 MiB are generated because the code flushes there"],
        subs: vec![
            Sub::sweep("small", n, 150, 4_000, |s| case(s as usize), check),
            Sub::new("many", 1_500, 20_000, many, check).shrink(600),
            Sub::sweep("bulk", n, 8, 200, |s| bulk(s as usize, MARKS, 20), check_bulk),
            Sub::new("giant", 8, 100, giant, check_giant).profiles(Profiles::Release).shards(4).shrink(6),
            Sub::new("flush-huge", 16, 240, || prop_oneof![bulk(named("Huge"), FLUSHES, 1100), bulk(named("Page"), FLUSHES, 9000), bulk(named("Kilo"), FLUSHES, 40_000)].boxed(), check_bulk).shrink(12),
            Sub::new("flush-small", 8, 160, || prop_oneof![bulk(named("Plain"), FLUSH1, 10), bulk(named("Wide9"), FLUSH1, 10), bulk(named("Odd7"), FLUSH1, 10), bulk(named("Odd3"), FLUSH1, 10), (0..NUM_STRUCTS).prop_flat_map(|s| bulk(s, FLUSH1, 3))].boxed(), check_bulk)
                .profiles(Profiles::Release)
                .shrink(12),
        ],
    })
}
