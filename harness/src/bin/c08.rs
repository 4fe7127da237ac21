//! C08: multivectors.
#[macro_use]
extern crate flatcheck;
#[path = "../fault.rs"]
mod fault;
use flatcheck::giant::{giant_size, put, stored_is};
use flatcheck::model::*;
use flatcheck::runner::{self, Obs, Profiles, Prop, Sub};
use flatcheck::util::*;
use flatdata::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::rc::Rc;

type Item = Vec<(usize, Rec)>;
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    file: bool,
    vectors: Vec<(usize, Vec<Item>)>,
    order: Vec<u8>,
    early_close: bool,
}
fn one(m: usize) -> BoxedStrategy<(usize, Vec<Item>)> {
    let (v, i) = MULTIS[m];
    let big = VARIADICS[v].name == "VBig";
    items_strategy(v, i, if big { 3 } else { 16 }, 5).prop_map(move |x| (m, x)).boxed()
}
fn case(m: usize) -> BoxedStrategy<Case> {
    (
        any::<bool>(),
        one(m),
        prop::collection::vec((0..MULTIS.len()).prop_flat_map(one), 0..3),
        prop::collection::vec(any::<u8>(), 0..30),
        any::<bool>(),
    )
        .prop_map(|(file, v, mut more, order, early_close)| {
            more.insert(0, v);
            Case { file, vectors: more, order, early_close }
        })
        .boxed()
}
/// Many of them open at once.
fn many() -> BoxedStrategy<Case> {
    let small: Vec<usize> = (0..MULTIS.len()).filter(|m| VARIADICS[MULTIS[*m].0].name != "VBig").collect();
    let one = prop::sample::select(small).prop_flat_map(|m| items_strategy(MULTIS[m].0, MULTIS[m].1, 3, 3).prop_map(move |x| (m, x)));
    (any::<bool>(), prop::collection::vec(one, 4..50), prop::collection::vec(any::<u8>(), 0..200), any::<bool>())
        .prop_map(|(file, vectors, order, early_close)| Case { file, vectors, order, early_close })
        .boxed()
}
/// Items of many elements and many items.
fn long_bulk(ms: Vec<usize>) -> BoxedStrategy<Bulk> {
    let run = |types: usize| {
        let vs = prop::collection::vec(0..types, 1..3);
        let n = || prop_oneof![5 => flatcheck::iterprog::long_len(), 1 => (17u32..20, -3i64..=3).prop_map(|(p, d)| ((1i64 << p) + d) as usize)];
        prop_oneof![
            2 => (1usize..3, n(), vs.clone()).prop_map(|(items, per_item, variants)| Run { items, per_item, variants }),
            2 => (n(), 0usize..3, vs.clone()).prop_map(|(items, per_item, variants)| Run { items, per_item, variants }),
            1 => (0usize..20, 0usize..20, vs).prop_map(|(items, per_item, variants)| Run { items, per_item, variants }),
        ]
    };
    (prop::sample::select(ms), any::<u64>(), any::<bool>())
        .prop_flat_map(move |(m, seed, file)| {
            prop::collection::vec(run(VARIADICS[MULTIS[m].0].types.len()), 1..4).prop_map(move |runs| Bulk { m, seed, file, runs })
        })
        .boxed()
}
fn storage(file: bool, d: &TempDir) -> Rc<dyn ResourceStorage> {
    if file {
        FileResourceStorage::new(d.path())
    } else {
        MemoryResourceStorage::new("/root/stored")
    }
}
fn stored(st: &dyn ResourceStorage, name: &str, schema: &str, payload: &[u8]) -> Result<(), String> {
    let raw = st.read_resource(name).map_err(|e| format!("{:?}", e))?;
    let f = frame(payload);
    if raw != &f[..] {
        let at = raw.iter().zip(&f).position(|(a, b)| a != b);
        return Err(format!("stored {}: {} bytes, expected {}, first difference at {:?}", name, raw.len(), f.len(), at));
    }
    let s = st.read_resource(&format!("{}.schema", name)).map_err(|e| format!("{:?}", e))?;
    same!(String::from_utf8_lossy(s), schema, "schema of {}", name);
    Ok(())
}
fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let d = TempDir::new();
    let st = storage(c.file, &d);
    let n = c.vectors.len();
    let names: Vec<String> = (0..n).map(|i| format!("mv{}", i)).collect();
    let schemas: Vec<String> = (0..n).map(|i| format!("multi {}\n{}", i, VARIADICS[MULTIS[c.vectors[i].0].0].name)).collect();
    let mut w: Vec<Option<Box<dyn DynWriter>>> = vec![];
    for (i, (m, _)) in c.vectors.iter().enumerate() {
        w.push(Some(no_panic("create", || start_multi(*m, &*st, &names[i], &schemas[i]))?.map_err(|e| format!("create: {:?}", e))?));
    }
    let mut done = vec![0; n];
    let close = |i: usize, w: Box<dyn DynWriter>| -> Result<(), String> {
        let got = no_panic("close", || w.close())?.map_err(|e| format!("close of multivector {}: {:?}", i, e))?;
        same!(got, Content::Multi(c.vectors[i].1.clone()), "view returned on closing multivector {}", i);
        Ok(())
    };
    let mut step = |i: usize, w: &mut Vec<Option<Box<dyn DynWriter>>>| -> Result<(), String> {
        if done[i] < c.vectors[i].1.len() {
            w[i].as_mut().unwrap().grow_item(&c.vectors[i].1[done[i]]).map_err(|e| format!("grow: {:?}", e))?;
            done[i] += 1;
            if c.early_close && done[i] == c.vectors[i].1.len() {
                close(i, w[i].take().unwrap())?;
            }
        }
        Ok(())
    };
    for k in &c.order {
        step(*k as usize % n, &mut w)?;
    }
    for i in (0..n).rev() {
        for _ in 0..c.vectors[i].1.len() {
            step(i, &mut w)?;
        }
    }
    for (i, x) in w.iter_mut().enumerate() {
        if let Some(x) = x.take() {
            close(i, x)?;
        }
    }
    let later: Rc<dyn ResourceStorage> = if c.file { FileResourceStorage::new(d.path()) } else { st.clone() };
    for (i, (m, items)) in c.vectors.iter().enumerate() {
        let (v, idx) = MULTIS[*m];
        let (index, data) = encode_multi(v, idx, items);
        let ischema = format!("index({})", schemas[i]);
        let iname = format!("{}_index", names[i]);
        for st in &[&st, &later] {
            stored(&***st, &names[i], &schemas[i], &data)?;
            stored(&***st, &iname, &ischema, &index)?;
            let a = st.read(&iname, &ischema).map_err(|e| format!("read index: {:?}", e))?;
            let b = st.read(&names[i], &schemas[i]).map_err(|e| format!("read: {:?}", e))?;
            same!(no_panic("reading", || read_multi(*m, a, b))?, *items, "multivector {} read later", i);
        }
    }
    if c.file {
        same!(tree(&d.0).len(), 4 * n, "files");
        o.class("file");
    }
    o.class_if(n > 1, "several at once");
    o.class_if(c.vectors.iter().any(|v| v.1.iter().any(|i| i.is_empty())), "empty item");
    o.nontrivial_if(c.vectors.iter().any(|v| v.1.iter().any(|i| !i.is_empty())));
    Ok(())
}

//
// Amounts that force flushes
//

/// One run of items: `items` items of `per_item` elements, element variants chosen by the seed among `variants`.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Run {
    items: usize,
    per_item: usize,
    variants: Vec<usize>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bulk {
    m: usize,
    seed: u64,
    file: bool,
    runs: Vec<Run>,
}
const FLUSH: usize = 32 * 1024 * 1024;
fn size_of(m: usize, k: usize) -> usize {
    1 + STRUCTS[VARIADICS[MULTIS[m].0].types[k].1].size
}
/// Data just around the flush size, in lumps of variant `lump`, then some small items.
fn data_bulk(ms: Vec<usize>) -> BoxedStrategy<Bulk> {
    (prop::sample::select(ms), any::<u64>(), any::<bool>(), any::<u8>(), 1usize..3, -3i64..=3, prop::collection::vec((0usize..40, 0usize..4), 1..4))
        .prop_map(|(m, seed, file, how, times, delta, tail)| {
            let types = VARIADICS[MULTIS[m].0].types.len();
            let lump = (0..types).max_by_key(|k| size_of(m, *k)).unwrap();
            let lumps = (FLUSH / size_of(m, lump)) as i64;
            let all: Vec<usize> = (0..types).collect();
            let mut runs = vec![];
            for t in 0..times {
                let n = (lumps + delta).max(1) as usize;
                runs.push(match how.wrapping_add(t as u8) % 4 {
                    0 => Run { items: n, per_item: 1, variants: vec![lump] },
                    // a single item larger than the buffer
                    1 => Run { items: 1, per_item: n, variants: vec![lump] },
                    2 => Run { items: n / 7, per_item: 7, variants: all.clone() },
                    _ => Run { items: n / 3, per_item: 3, variants: vec![lump] },
                });
                for (items, per_item) in &tail {
                    runs.push(Run { items: *items, per_item: *per_item, variants: vec![0] });
                }
                runs.push(Run { items: 3, per_item: 2, variants: all.clone() });
            }
            Bulk { m, seed, file, runs }
        })
        .boxed()
}
/// So many items that the index is flushed.
fn index_bulk(ms: Vec<usize>, both: bool) -> BoxedStrategy<Bulk> {
    (prop::sample::select(ms), any::<u64>(), any::<bool>(), 1usize..=2, -2i64..=3, 0usize..200)
        .prop_map(move |(m, seed, file, times, delta, some)| {
            let isz = STRUCTS[MULTIS[m].1].size;
            let n = ((FLUSH * times / isz) as i64 + delta) as usize;
            let small = (0..VARIADICS[MULTIS[m].0].types.len()).min_by_key(|k| size_of(m, *k)).unwrap();
            let all: Vec<usize> = (0..VARIADICS[MULTIS[m].0].types.len()).collect();
            let mut runs = vec![Run { items: some, per_item: 1, variants: all.clone() }];
            if both {
                // data of the same order of magnitude
                let k = FLUSH / size_of(m, small);
                runs.push(Run { items: k.min(n - some), per_item: 1, variants: vec![small] });
                runs.push(Run { items: n - some - k.min(n - some), per_item: 0, variants: vec![small] });
            } else {
                runs.push(Run { items: n - some, per_item: 0, variants: vec![small] });
            }
            runs.push(Run { items: some / 3, per_item: 2, variants: all });
            Bulk { m, seed, file, runs }
        })
        .boxed()
}
fn element(m: usize, x: &mut Mix, variants: &[usize], rec: &mut Rec) -> usize {
    let k = variants[(x.next() % variants.len() as u64) as usize];
    let spec = &STRUCTS[VARIADICS[MULTIS[m].0].types[k].1];
    rec.clear();
    rec.extend(spec.fields.iter().map(|f| from_bits(f.ty, f.width, x.next())));
    k
}
struct RunBulk<'a>(&'a Bulk, &'a mut Obs);
impl<'a> MultiVisitor for RunBulk<'a> {
    type Out = Result<(), String>;
    fn visit<I: ModelStruct + for<'b> IndexStruct<'b>, V: ModelVariadic>(self) -> Self::Out {
        let c = self.0;
        let d = TempDir::new();
        let st = storage(c.file, &d);
        let isz = I::spec().size;
        let mut w = create_multi_vector::<I, V>(&*st, "mv", "multi").map_err(|e| format!("create: {:?}", e))?;
        let (mut index, mut data): (Vec<u8>, Vec<u8>) = (vec![], vec![]);
        let mut x = Mix(c.seed);
        let mut rec = vec![];
        let mut items = 0usize;
        for r in &c.runs {
            for _ in 0..r.items {
                items += 1;
                index.extend_from_slice(&(data.len() as u64).to_le_bytes()[..isz]);
                let mut b = w.grow().map_err(|e| format!("grow: {:?}", e))?;
                for _ in 0..r.per_item {
                    let k = element(c.m, &mut x, &r.variants, &mut rec);
                    V::add(&mut b, k, &rec);
                    let (tag, s) = V::spec().types[k];
                    data.push(tag);
                    let at = data.len();
                    data.resize(at + STRUCTS[s].size, 0);
                    STRUCTS[s].encode_into(&mut data[at..], &rec);
                }
            }
        }
        index.extend_from_slice(&(data.len() as u64).to_le_bytes()[..isz]);
        {
            let view = no_panic("close", || w.close())?.map_err(|e| format!("close: {:?}", e))?;
            compare(c, &view, items, "returned view")?;
        }
        let later: Rc<dyn ResourceStorage> = if c.file { FileResourceStorage::new(d.path()) } else { st.clone() };
        stored(&*later, "mv", "multi", &data)?;
        stored(&*later, "mv_index", "index(multi)", &index)?;
        let a = later.read("mv_index", "index(multi)").map_err(|e| format!("read index: {:?}", e))?;
        let b = later.read("mv", "multi").map_err(|e| format!("read: {:?}", e))?;
        compare(c, &MultiArrayView::<I, V>::new(ArrayView::new(a), b), items, "later view")?;
        self.1.class(&format!("data {} times the flush size", data.len() / FLUSH));
        self.1.class(&format!("index {} times the flush size", index.len() / FLUSH));
        self.1.class_if(c.file, "file");
        self.1.nontrivial();
        Ok(())
    }
}
fn compare<I: ModelStruct + for<'b> IndexStruct<'b>, V: ModelVariadic>(
    c: &Bulk,
    view: &MultiArrayView<I, V>,
    items: usize,
    ctx: &str,
) -> Result<(), String> {
    same!(view.len(), items, "{}: length", ctx);
    let mut x = Mix(c.seed);
    let mut rec = vec![];
    let mut i = 0;
    for r in &c.runs {
        for _ in 0..r.items {
            let mut it = view.at(i);
            for e in 0..r.per_item {
                let k = element(c.m, &mut x, &r.variants, &mut rec);
                match it.next() {
                    None => return Err(format!("{}: item {} ends after {} elements of {}", ctx, i, e, r.per_item)),
                    Some(el) => {
                        let (gk, grec) = V::dump(&el);
                        ensure!(gk == k && grec == rec, "{}: item {} element {}: got {:?}, expected {:?}", ctx, i, e, (gk, grec), (k, &rec));
                    }
                }
            }
            ensure!(it.next().is_none(), "{}: item {} has more than {} elements", ctx, i, r.per_item);
            i += 1;
        }
    }
    Ok(())
}
fn check_bulk(c: &Bulk, o: &mut Obs) -> Result<(), String> {
    with_multi(c.m, RunBulk(c, o))
}
/// Gigabytes of elements, zero but for a few.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Giant {
    m: usize,
    bytes: u64,
    /// element counts of the items, over and over
    counts: Vec<usize>,
    /// every so many elements, one with values set
    every: usize,
    seed: u64,
}
fn giant() -> BoxedStrategy<Giant> {
    (
        prop::sample::select(with_index(&[5, 6, 7, 8], &["VBig"])),
        giant_size(),
        prop::collection::vec(prop_oneof![Just(0usize), 1usize..4, 1usize..700, Just(1200)], 1..6),
        50usize..5000,
        any::<u64>(),
    )
        .prop_map(|(m, bytes, mut counts, every, seed)| {
            counts.push(1);
            Giant { m, bytes, counts, every, seed }
        })
        .boxed()
}
struct RunGiant<'a>(&'a Giant, &'a mut Obs);
impl<'a> MultiVisitor for RunGiant<'a> {
    type Out = Result<(), String>;
    fn visit<I: ModelStruct + for<'b> IndexStruct<'b>, V: ModelVariadic>(self) -> Self::Out {
        let c = self.0;
        let _lim = Unlimited::new();
        let d = TempDir::new();
        let st = FileResourceStorage::new(d.path());
        let isz = I::spec().size;
        let limit = c.bytes.min(mask(I::spec().fields[0].width));
        let types = V::spec().types;
        let big = (0..types.len()).max_by_key(|k| STRUCTS[types[*k].1].size).unwrap();
        let (tag, s) = types[big];
        let spec = &STRUCTS[s];
        let zero = spec.zero();
        let mut x = Mix(c.seed);
        let mut set = std::collections::BTreeMap::new();
        let mut index = vec![];
        let mut items: Vec<usize> = vec![];
        let mut marks = std::collections::BTreeMap::new(); // (item, element) -> values
        let (mut len, mut elements) = (0u64, 0usize);
        let mut w = create_multi_vector::<I, V>(&*st, "mv", "multi").map_err(|e| format!("create: {:?}", e))?;
        // less than what is streamed
        let scarce = Scarce::new(3 << 29);
        fault::sparse(true);
        'all: for count in c.counts.iter().cycle() {
            index.extend_from_slice(&len.to_le_bytes()[..isz]);
            items.push(0);
            let mut b = w.grow().map_err(|e| format!("grow: {:?}", e))?;
            for k in 0..*count {
                if len + (spec.size as u64) + 1 > limit {
                    break 'all;
                }
                put(&mut set, len, &[tag]);
                elements += 1;
                if elements % c.every == 0 {
                    let rec: Rec = spec.fields.iter().map(|f| from_bits(f.ty, f.width, x.next())).collect();
                    put(&mut set, len + 1, &spec.encode(&rec));
                    V::add(&mut b, big, &rec);
                    marks.insert((items.len() - 1, k), rec);
                } else {
                    V::add(&mut b, big, &zero);
                }
                *items.last_mut().unwrap() += 1;
                len += spec.size as u64 + 1;
            }
        }
        index.extend_from_slice(&len.to_le_bytes()[..isz]);
        drop(scarce);
        let view = no_panic("close", || w.close());
        fault::sparse(false);
        let view = view?.map_err(|e| format!("close: {:?}", e))?;
        stored_is(&d.join("mv"), len, &set)?;
        stored(&*st, "mv_index", "index(multi)", &index)?;
        let later = FileResourceStorage::new(d.path());
        let a = later.read("mv_index", "index(multi)").map_err(|e| format!("read index: {:?}", e))?;
        let b = later.read("mv", "multi").map_err(|e| format!("read: {:?}", e))?;
        for view in &[view, MultiArrayView::<I, V>::new(ArrayView::new(a), b)] {
            same!(view.len(), items.len(), "length");
            for (i, n) in items.iter().enumerate() {
                let mut k = 0;
                for e in view.at(i) {
                    let (variant, rec) = V::dump(&e);
                    let want = marks.get(&(i, k)).unwrap_or(&zero);
                    ensure!(variant == big && rec == *want, "element {} of item {}: {:?}", k, i, (variant, rec));
                    k += 1;
                }
                same!(k, *n, "number of elements in item {}", i);
            }
        }
        self.1.class_if(len >= 1 << 32, "4 GB or more");
        self.1.nontrivial_if(elements > 0);
        Ok(())
    }
}
fn check_giant(c: &Giant, o: &mut Obs) -> Result<(), String> {
    with_multi(c.m, RunGiant(c, o))
}
fn with_index(bytes: &'static [usize], variadics: &'static [&'static str]) -> Vec<usize> {
    (0..MULTIS.len())
        .filter(|m| bytes.contains(&STRUCTS[MULTIS[*m].1].size) && variadics.iter().any(|v| VARIADICS[MULTIS[*m].0].name.starts_with(v)))
        .collect()
}
fn main() {
    let n = MULTIS.len() as u64;
    runner::main(Prop {
        id: "C08",
        level: "exploration",
        rule: "one to three multivectors of any generated variadic type and index width (1..8 bytes) grown in random \
               interleavings, in memory and on disk, up to 50 of them open at once, items of up to half a million elements, as many items, and \
               bulk multivectors whose data, index or both are around one or two times \
               the 32 MiB flush size (single items larger than it included); returned view, stored bytes of data and index, and \
               later reads compared with the items and the reference encoding; multivectors of 2 to 8 GB of data streamed to a file that \
               keeps holes; non-trivial = at least one element",
        assumptions: &["data fits what the index type can address", "the flush threshold is internal: amounts around multiples of 32 MiB are generated because the code flushes there"],
        subs: vec![
            Sub::sweep("small", n, 300, 8_000, |m| case(m as usize), check),
            Sub::new("many", 1_200, 30_000, many, check).shrink(600),
            Sub::new("long", 240, 6_000, || long_bulk(with_index(&[4, 5, 6, 7, 8], &["VMix", "VSingle", "VTags"])), check_bulk).shrink(60),
            Sub::new("giant", 4, 100, giant, check_giant).profiles(Profiles::Release).shards(4).shrink(6),
            Sub::new("flush-data", 16, 320, || data_bulk(with_index(&[4, 5, 6, 7, 8], &["VBig", "VBig", "VRand"])), check_bulk).shrink(12),
            Sub::new("flush-index", 8, 96, || index_bulk(with_index(&[4, 5, 6, 7, 8], &["VMix", "VSingle", "VTags", "VBig"]), false), check_bulk)
                .profiles(Profiles::Release)
                .shrink(12),
            Sub::new("flush-both", 4, 48, || index_bulk(with_index(&[4, 5, 6, 7, 8], &["VMix", "VSingle", "VTags"]), true), check_bulk)
                .profiles(Profiles::Release)
                .shards(4)
                .shrink(12),
        ],
    })
}
