//! C18: arbitrary bytes as resource contents.
#[macro_use]
extern crate flatcheck;
use flatcheck::archprog::*;
use flatcheck::model::*;
use flatcheck::schemas::PEnum;
use flatcheck::runner::{self, Obs, Prop, Sub};
use flatcheck::util::*;
use flatdata::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::rc::Rc;

type Item = Vec<(usize, Rec)>;

/// What the bytes mean: the elements of an item and whether reading on from there must panic.
type RefItem = (Item, bool);

fn ref_vector(s: usize, b: &[u8]) -> Vec<Rec> {
    b.chunks_exact(STRUCTS[s].size).map(|x| STRUCTS[s].decode(x)).collect()
}
fn ref_item(v: usize, mut b: &[u8]) -> RefItem {
    let mut out = vec![];
    while !b.is_empty() {
        let k = match VARIADICS[v].types.iter().position(|t| t.0 == b[0]) {
            None => return (out, true),
            Some(k) => k,
        };
        let s = VARIADICS[v].types[k].1;
        if b.len() - 1 < STRUCTS[s].size {
            return (out, true);
        }
        out.push((k, STRUCTS[s].decode(&b[1..=STRUCTS[s].size])));
        b = &b[1 + STRUCTS[s].size..];
    }
    (out, false)
}
/// Per item the elements, or None if its bounds do not fit the data.
fn ref_multi(v: usize, i: usize, index: &[u8], data: &[u8]) -> Vec<Option<RefItem>> {
    let e: Vec<u64> = index.chunks_exact(STRUCTS[i].size).map(|x| ref_get(x, 0, STRUCTS[i].size * 8)).collect();
    e.windows(2)
        .map(|w| if w[0] <= w[1] && w[1] <= data.len() as u64 { Some(ref_item(v, &data[w[0] as usize..w[1] as usize])) } else { None })
        .collect()
}

//
// Vectors
//

#[derive(Clone, Debug, Serialize, Deserialize)]
struct VecCase {
    s: usize,
    n: usize,
    extra: usize,
    seed: u64,
    /// bytes set afterwards
    set: Vec<(u16, u8)>,
}
fn vec_case(s: usize) -> BoxedStrategy<VecCase> {
    let size = STRUCTS[s].size;
    (0usize..6, prop_oneof![1 => Just(0), 3 => 0..size, 1 => Just(size - 1)], any::<u64>(), prop::collection::vec((any::<u16>(), any::<u8>()), 0..4))
        .prop_map(move |(n, extra, seed, set)| VecCase { s, n: if size > 2000 { n % 3 } else { n }, extra, seed, set })
        .boxed()
}
/// What follows the bytes, up to an inaccessible page.
const TAILS: [&[u8]; 4] = [&[], &[0; 8], &[0xff; 8], &[0xa5, 0x5a, 0x01, 0x80, 0x7e, 0xff, 0x00, 0x3c]];

struct VecRun<'a>(&'a VecCase, &'a mut Obs);
impl<'a> StructVisitor for VecRun<'a> {
    type Out = Result<(), String>;
    fn visit<S: ModelStruct>(self) -> Self::Out {
        let c = self.0;
        let size = S::spec().size;
        let mut bytes = filler(c.seed, c.n * size + c.extra);
        let len = bytes.len();
        for (p, v) in &c.set {
            if len > 0 {
                bytes[*p as usize * len >> 16] = *v;
            }
        }
        let want = ref_vector(c.s, &bytes);
        let mut shown: Option<String> = None;
        for tail in &TAILS {
            let buf = GuardBuf::new(&bytes, tail);
            let ctx = format!("{} bytes as a vector of {} ({} bytes each)", len, S::spec().name, size);
            let v = no_panic(&ctx, || ArrayView::<S>::new(buf.bytes()))?;
            same!(v.len(), want.len(), "{}: len", ctx);
            same!(v.is_empty(), want.is_empty(), "{}: is_empty", ctx);
            for (i, w) in want.iter().enumerate() {
                same!(rec_of::<S>(&v.at(i)), *w, "{}: element {}", ctx, i);
            }
            for i in &[want.len(), want.len() + 1, usize::max_value(), usize::max_value() / size, (usize::max_value() / size).saturating_add(1)] {
                must_panic(&format!("{}: at({})", ctx, i), || {
                    v.at(*i);
                })?;
            }
            let fwd: Vec<Rec> = v.iter().map(|x| rec_of::<S>(&x)).collect();
            same!(fwd, want, "{}: iter()", ctx);
            let mut back: Vec<Rec> = v.iter().rev().map(|x| rec_of::<S>(&x)).collect();
            back.reverse();
            same!(back, want, "{}: iter().rev()", ctx);
            same!(v.iter().len(), want.len(), "{}: iter().len()", ctx);
            for k in 0..=want.len() {
                same!(recs_of::<S>(&v.slice(k..)), &want[k..], "{}: slice({}..)", ctx, k);
                same!(recs_of::<S>(&v.slice(..k)), &want[..k], "{}: slice(..{})", ctx, k);
            }
            must_panic(&format!("{}: slice(..len + 1)", ctx), || v.slice(..want.len() + 1).len())?;
            ensure!(v.as_bytes() == &bytes[..], "{}: as_bytes", ctx);
            let d = format!("{:?}", v);
            if let Some(s) = &shown {
                same!(d, *s, "{}: Debug depends on bytes outside", ctx);
            }
            shown = Some(d);
        }
        self.1.class_if(len % size != 0, "not a whole number of elements");
        self.1.class_if(len < size, "smaller than an element");
        self.1.nontrivial_if(len > 0);
        Ok(())
    }
}
fn check_vec(c: &VecCase, o: &mut Obs) -> Result<(), String> {
    with_struct(c.s, VecRun(c, o))
}

//
// Multivectors
//

#[derive(Clone, Debug, Serialize, Deserialize)]
enum IdxEdit {
    Set(u64),
    Add(i8),
    /// relative to the length of the data
    Near(i8),
    Copy(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Size {
    Keep,
    Cut(u16),
    Minus(u8),
    Empty,
    Grow(Vec<u8>),
}
impl Size {
    fn strategy() -> BoxedStrategy<Size> {
        prop_oneof![
            5 => Just(Size::Keep),
            1 => any::<u16>().prop_map(Size::Cut),
            2 => (1u8..12).prop_map(Size::Minus),
            1 => Just(Size::Empty),
            1 => prop::collection::vec(any::<u8>(), 1..20).prop_map(Size::Grow),
        ]
        .boxed()
    }
    fn apply(&self, b: &mut Vec<u8>) {
        match self {
            Size::Keep => {}
            Size::Cut(n) => b.truncate((b.len() * *n as usize) >> 16),
            Size::Minus(n) => b.truncate(b.len().saturating_sub(*n as usize)),
            Size::Empty => b.clear(),
            Size::Grow(x) => b.extend_from_slice(x),
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct MultiEdits {
    idx: Vec<(u16, IdxEdit)>,
    data: Vec<(u16, u8)>,
    idx_size: Size,
    data_size: Size,
}
fn edits() -> BoxedStrategy<MultiEdits> {
    let e = prop_oneof![
        2 => any::<u64>().prop_map(IdxEdit::Set),
        1 => (0u64..64).prop_map(|x| IdxEdit::Set(0u64.wrapping_sub(x))),
        1 => (0u32..64).prop_map(|b| IdxEdit::Set(1 << b)),
        4 => (-6i8..6).prop_map(IdxEdit::Add),
        3 => (-6i8..6).prop_map(IdxEdit::Near),
        2 => any::<u16>().prop_map(IdxEdit::Copy),
    ];
    (
        prop_oneof![2 => Just(vec![]), 5 => prop::collection::vec((any::<u16>(), e), 1..4)],
        prop_oneof![2 => Just(vec![]), 3 => prop::collection::vec((any::<u16>(), prop_oneof![2 => 0u8..5, 1 => any::<u8>()]), 1..6)],
        Size::strategy(),
        Size::strategy(),
    )
        .prop_map(|(idx, data, idx_size, data_size)| MultiEdits { idx, data, idx_size, data_size })
        .boxed()
}
fn apply(e: &MultiEdits, isz: usize, idx: &mut Vec<u8>, data: &mut Vec<u8>) {
    let len = data.len();
    for (p, v) in &e.data {
        if len > 0 {
            data[*p as usize * len >> 16] = *v;
        }
    }
    e.data_size.apply(data);
    let n = idx.len() / isz;
    for (p, x) in &e.idx {
        if n == 0 {
            break;
        }
        let k = *p as usize * n >> 16;
        let old = ref_get(&idx[k * isz..], 0, isz * 8);
        let v = match x {
            IdxEdit::Set(v) => *v,
            IdxEdit::Add(d) => old.wrapping_add(*d as i64 as u64),
            IdxEdit::Near(d) => (data.len() as u64).wrapping_add(*d as i64 as u64),
            IdxEdit::Copy(q) => ref_get(&idx[(*q as usize * n >> 16) * isz..], 0, isz * 8),
        };
        ref_set(&mut idx[k * isz..], 0, isz * 8, v & mask(isz * 8));
    }
    e.idx_size.apply(idx);
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct MultiCase {
    m: usize,
    items: Vec<Item>,
    edits: MultiEdits,
}
fn multi_case(m: usize) -> BoxedStrategy<MultiCase> {
    let (v, i) = MULTIS[m];
    let big = VARIADICS[v].name == "VBig";
    (items_strategy(v, i, if big { 2 } else { 6 }, if big { 2 } else { 4 }), edits()).prop_map(move |(items, edits)| MultiCase { m, items, edits }).boxed()
}
/// Elements until the end or a panic.
fn drain<'a, V: ModelVariadic>(mut it: impl Iterator<Item = <V as VariadicStruct<'a>>::Item>) -> Result<RefItem, String> {
    let mut out = vec![];
    loop {
        match catch(|| it.next().map(|x| V::dump(&x))) {
            Err(_) => return Ok((out, true)),
            Ok(Some(x)) => out.push(x),
            Ok(None) => {
                ensure!(it.next().is_none(), "an element after the end of the item");
                return Ok((out, false));
            }
        }
        ensure!(out.len() < 1 << 20, "an item without end");
    }
}
struct MultiRun<'a>(&'a MultiCase, &'a mut Obs);
impl<'a> MultiVisitor for MultiRun<'a> {
    type Out = Result<(), String>;
    fn visit<I: ModelStruct + for<'b> IndexStruct<'b>, V: ModelVariadic>(self) -> Self::Out {
        let c = self.0;
        let isz = I::spec().size;
        let (mut idx, mut data) = encode_multi(V::IDX, I::IDX, &c.items);
        apply(&c.edits, isz, &mut idx, &mut data);
        let want = ref_multi(V::IDX, I::IDX, &idx, &data);
        let good = |w: &Option<RefItem>| w.as_ref().map_or(false, |x| !x.1);
        let mut shown: Option<Result<String, ()>> = None;
        let entries: Vec<u64> = idx.chunks_exact(isz).map(|x| ref_get(x, 0, isz * 8)).collect();
        let ctx = format!("multivector of {} with {} bytes of data, {} bytes of index ({} each): {:?}", V::spec().name, data.len(), idx.len(), isz, entries);
        for tail in &TAILS[..3] {
            let (ib, db) = (GuardBuf::new(&idx, tail), GuardBuf::new(&data, tail));
            let v: MultiArrayView<I, V> = no_panic(&ctx, || MultiArrayView::new(ArrayView::new(ib.bytes()), db.bytes()))?;
            same!(no_panic(&format!("{}: len", ctx), || v.len())?, want.len(), "{}: len", ctx);
            same!(no_panic(&format!("{}: is_empty", ctx), || v.is_empty())?, want.is_empty(), "{}: is_empty", ctx);
            same!(no_panic(&format!("{}: iter().len()", ctx), || v.iter().len())?, want.len(), "{}: iter().len()", ctx);
            for (i, w) in want.iter().enumerate() {
                match (catch(|| v.at(i)), w) {
                    (Err(_), None) => {}
                    (Err(m), Some(_)) => return Err(format!("{}: at({}) panics: {}", ctx, i, m)),
                    (Ok(_), None) => return Err(format!("{}: at({}) does not panic, its bounds do not fit the data", ctx, i)),
                    (Ok(it), Some(w)) => {
                        same!(drain::<V>(it)?, *w, "{}: item {} (elements, panics after them)", ctx, i);
                    }
                }
            }
            for i in &[want.len(), want.len() + 1, usize::max_value()] {
                must_panic(&format!("{}: at({})", ctx, i), || {
                    v.at(*i);
                })?;
            }
            // iteration from both ends up to the first item that does not fit
            let mut it = v.iter();
            for (i, w) in want.iter().enumerate() {
                match (catch(|| it.next()), w) {
                    (Err(_), None) => break,
                    (Ok(Some(x)), Some(w)) => same!(drain::<V>(x)?, *w, "{}: iterator, item {}", ctx, i),
                    (r, w) => return Err(format!("{}: iterator, item {}: got {:?}, expected {:?}", ctx, i, r.map(|x| x.is_some()), w)),
                }
            }
            if want.iter().all(|w| w.is_some()) {
                ensure!(no_panic(&ctx, || it.next())?.is_none(), "{}: iterator: an item after the end", ctx);
            }
            let mut it = v.iter();
            for (i, w) in want.iter().enumerate().rev() {
                match (catch(|| it.next_back()), w) {
                    (Err(_), None) => break,
                    (Ok(Some(x)), Some(w)) => same!(drain::<V>(x)?, *w, "{}: reverse iterator, item {}", ctx, i),
                    (r, w) => return Err(format!("{}: reverse iterator, item {}: got {:?}, expected {:?}", ctx, i, r.map(|x| x.is_some()), w)),
                }
            }
            for k in 0..=want.len() {
                for (r, w) in &[(k..want.len(), &want[k..]), (0..k, &want[..k])] {
                    let s = no_panic(&format!("{}: slice({:?})", ctx, r), || v.slice(r.clone()))?;
                    same!(s.len(), w.len(), "{}: slice({:?}).len()", ctx, r);
                    if let Some(i) = w.iter().position(good) {
                        same!(Some(drain::<V>(s.at(i))?), w[i], "{}: slice({:?}), item {}", ctx, r, i);
                    }
                }
            }
            must_panic(&format!("{}: slice(..len + 1)", ctx), || v.slice(..want.len() + 1).len())?;
            let d = catch(|| format!("{:?} {:?}", v, v.iter())).map_err(|_| ());
            if want.iter().all(good) {
                ensure!(d.is_ok(), "{}: Debug panics: {}", ctx, last_panic());
            }
            if let Some(s) = &shown {
                same!(d, *s, "{}: Debug depends on bytes outside", ctx);
            }
            shown = Some(d);
        }
        let o = self.1;
        o.class_if(want.iter().any(|w| w.is_none()), "bounds of an item do not fit");
        o.class_if(want.iter().flatten().any(|w| w.1), "an element does not fit or has an unknown tag");
        o.class_if(idx.len() < isz, "no sentinel");
        o.class_if(idx.len() >= isz && idx.len() % isz != 0, "ragged index");
        o.class_if(want.iter().all(good), "all readable");
        let (vi, vd) = encode_multi(V::IDX, I::IDX, &c.items);
        o.nontrivial_if(vi != idx || vd != data);
        Ok(())
    }
}
fn check_multi(c: &MultiCase, o: &mut Obs) -> Result<(), String> {
    with_multi(c.m, MultiRun(c, o))
}

//
// Archives
//

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Hostile {
    Bytes(Vec<u8>),
    Filler(u64, u16),
    Sized(Size),
    Set(Vec<(u16, u8)>),
    /// grown so that the file ends at the end of a page
    Page(u64),
    /// cut to one byte less than an element
    Short,
}
fn hostile() -> BoxedStrategy<Hostile> {
    prop_oneof![
        3 => prop::collection::vec(any::<u8>(), 0..24).prop_map(Hostile::Bytes),
        1 => (any::<u64>(), 0u16..400).prop_map(|(a, b)| Hostile::Filler(a, b)),
        4 => Size::strategy().prop_map(Hostile::Sized),
        3 => prop::collection::vec((any::<u16>(), prop_oneof![1 => 0u8..5, 1 => any::<u8>()]), 1..5).prop_map(Hostile::Set),
        1 => any::<u64>().prop_map(Hostile::Page),
        3 => Just(Hostile::Short),
    ]
    .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ArchCase {
    a: usize,
    content: ArchContent,
    file: bool,
    hostile: Vec<(u16, Hostile)>,
}
fn arch_case_at(a: usize) -> BoxedStrategy<ArchCase> {
    (arch_strategy(a, 4), any::<bool>(), prop::collection::vec((any::<u16>(), hostile()), 1..5))
        .prop_map(move |(content, file, hostile)| ArchCase { a, content, file, hostile })
        .boxed()
}
/// What a getter gives: contents, or a panic while reading them.
#[derive(Clone, Debug, PartialEq)]
enum Exp {
    Is(Content),
    Panics,
}
/// Err: opening must fail because of this resource.
fn expected(a: usize, written: &ArchContent, files: &BTreeMap<String, Vec<u8>>, prefix: &str) -> Result<Vec<Option<Exp>>, String> {
    let payload = |n: &str| {
        let b = &files[&format!("{}{}", prefix, n)];
        &b[8..b.len() - 8]
    };
    let mut out = vec![];
    for (r, c) in ARCHIVES[a].res.iter().zip(written) {
        let e = match (r.kind, c) {
            (_, None) => Err(String::new()),
            (Kind::Struct(s), _) if payload(r.name).len() < STRUCTS[s].size => Err(format!("{}{}", prefix, r.name)),
            (Kind::Struct(s), _) => Ok(Exp::Is(Content::Struct(STRUCTS[s].decode(payload(r.name))))),
            (Kind::Vector(s), _) => Ok(Exp::Is(Content::Vector(ref_vector(s, payload(r.name))))),
            (Kind::Multi(v, i), _) => {
                let m = ref_multi(v, i, payload(&format!("{}_index", r.name)), payload(r.name));
                Ok(if m.iter().all(|x| x.as_ref().map_or(false, |x| !x.1)) {
                    Exp::Is(Content::Multi(m.into_iter().map(|x| x.unwrap().0).collect()))
                } else {
                    Exp::Panics
                })
            }
            (Kind::Raw, _) => Ok(Exp::Is(Content::Raw(payload(r.name).to_vec()))),
            (Kind::Sub(s), Some(Content::Sub(cc))) => match expected(s, cc, files, &format!("{}{}/", prefix, r.name)) {
                Err(e) => Err(e),
                Ok(v) if v.iter().any(|x| *x == Some(Exp::Panics)) => Ok(Exp::Panics),
                Ok(v) => Ok(Exp::Is(Content::Sub(
                    v.into_iter().map(|x| x.map(|x| if let Exp::Is(c) = x { c } else { unreachable!() })).collect(),
                ))),
            },
            _ => unreachable!(),
        };
        out.push(match e {
            Ok(e) => Some(e),
            Err(_) if r.optional => None,
            Err(e) => return Err(e),
        });
    }
    Ok(out)
}
fn check_arch(c: &ArchCase, o: &mut Obs) -> Result<(), String> {
    let intact = files_of(c.a, &c.content);
    let mut files = intact.clone();
    let keys: Vec<String> = files.keys().filter(|k| !k.ends_with(".schema") && !k.ends_with(".archive")).cloned().collect();
    let mut hit = vec![];
    for (p, h) in &c.hostile {
        if keys.is_empty() {
            break;
        }
        let key = &keys[*p as usize * keys.len() >> 16];
        let old = &files[key];
        let mut b = old[8..old.len() - 8].to_vec();
        match h {
            Hostile::Bytes(x) => b = x.clone(),
            Hostile::Filler(s, n) => b = filler(*s, *n as usize),
            Hostile::Sized(s) => s.apply(&mut b),
            Hostile::Set(v) => {
                let n = b.len();
                for (p, x) in v {
                    if n > 0 {
                        b[*p as usize * n >> 16] = *x;
                    }
                }
            }
            Hostile::Page(s) => b.extend(filler(*s, (4096 - (b.len() + 16) % 4096) % 4096)),
            Hostile::Short => {
                b.pop();
            }
        }
        files.insert(key.clone(), frame(&b));
        hit.push(format!("{}: {} bytes", key, b.len()));
    }
    let want = expected(c.a, &c.content, &files, "");
    let d = TempDir::new();
    let st: Rc<dyn ResourceStorage> = if c.file {
        for (n, b) in &files {
            put_file(&d.0, n, b);
        }
        FileResourceStorage::new(d.path())
    } else {
        let st = MemoryResourceStorage::new("/mem");
        put_memory(&*st, &files)?;
        st
    };
    let ctx = format!("{} with other bytes in {:?}", ARCHIVES[c.a].name, hit);
    match (catch(|| open_archive(c.a, st.clone())), &want) {
        (Err(_), Err(_)) | (Ok(Err(_)), Err(_)) => o.class("opening fails"),
        (Ok(Ok(x)), Err(n)) => return Err(format!("{}: opens although the struct {} is too small; reads {:?}", ctx, n, catch(|| x.dump()))),
        (Err(m), Ok(_)) => return Err(format!("{}: opening panics: {}", ctx, m)),
        (Ok(Err(e)), Ok(_)) => return Err(format!("{}: opening fails: {:?}", ctx, e)),
        (Ok(Ok(x)), Ok(w)) => {
            for (i, w) in w.iter().enumerate() {
                let name = ARCHIVES[c.a].res[i].name;
                let got = match catch(|| x.dump_one(i)) {
                    Ok(c) => c.map(Exp::Is),
                    Err(_) => Some(Exp::Panics),
                };
                same!(got, *w, "{}: {}", ctx, name);
            }
            o.class_if(w.iter().any(|x| *x == Some(Exp::Panics)), "reading panics");
            let r = catch(|| x.debug());
            if !w.iter().any(|x| *x == Some(Exp::Panics)) {
                ensure!(r.is_ok(), "{}: Debug panics: {}", ctx, last_panic());
            }
            o.class_if(ARCHIVES[c.a].res.iter().zip(w).zip(&c.content).any(|((r, w), c)| r.optional && w.is_none() && c.is_some()), "optional resource rejected");
        }
    }
    o.nontrivial_if(files != intact);
    Ok(())
}

//
// Enumeration fields
//

/// Reads the discriminant without ever using an invalid enum as such.
fn check_enum(c: &(u8, u8), o: &mut Obs) -> Result<(), String> {
    let bytes = [c.0, c.1];
    let buf = GuardBuf::new(&bytes, &[]);
    let v = ArrayView::<PEnum>::new(buf.bytes());
    let (a, b) = (ref_get(&bytes, 1, 2), ref_get(&bytes, 3, 3));
    let cc = from_bits(Ty::I32, 4, ref_get(&bytes, 6, 4)) as i64;
    same!(u64::from(v.at(0).b()), b, "field next to an enumeration, bytes {:?}", bytes);
    let ga = catch(|| {
        let x = std::mem::MaybeUninit::new(v.at(0).a());
        u64::from(unsafe { std::ptr::read_volatile(x.as_ptr() as *const u8) })
    });
    let gc = catch(|| {
        let x = std::mem::MaybeUninit::new(v.at(0).c());
        i64::from(unsafe { std::ptr::read_volatile(x.as_ptr() as *const i32) })
    });
    let mut undeclared = 0;
    if a < 3 {
        same!(ga, Ok(a), "declared enumeration value, bytes {:?}", bytes);
    } else {
        undeclared += 1;
        if let Ok(x) = ga {
            o.finding("enum-undeclared", format!("bytes {:?}: an enumeration of 0..=2 is given the invalid value {}", bytes, x))?;
        }
    }
    if [-3, 0, 4].contains(&cc) {
        same!(gc, Ok(cc), "declared enumeration value, bytes {:?}", bytes);
    } else {
        undeclared += 1;
        if let Ok(x) = gc {
            o.finding("enum-undeclared", format!("bytes {:?}: an enumeration of -3, 0, 4 is given the invalid value {}", bytes, x))?;
        }
    }
    o.class_if(undeclared > 0, "undeclared value");
    o.nontrivial_if(undeclared > 0);
    Ok(())
}

fn main() {
    runner::main(Prop {
        id: "C18",
        level: "exploration",
        rule: "arbitrary bytes of any length as vectors of every struct schema; multivector index and data obtained by editing encoded \
               ones (entries near or far beyond the data, inverted, unknown tags, cut or ragged); complete archives with the payload of \
               any resources replaced and framed again, in memory and on disk; in a release and an overflow-checked build. The outcome \
               of every read (value, failure or panic) is compared with a bit-level reference, buffers end at a guard page or are \
               followed by different bytes; non-trivial = bytes differ from what the library would have written (vectors: any \
               bytes; enumerations: an undeclared value)",
        assumptions: &["in complete archives, the 8 bytes of padding that end every resource may be touched, but not influence anything"],
        subs: vec![
            Sub::sweep("vector", NUM_STRUCTS as u64, 1_200, 40_000, |s| vec_case(s as usize), check_vec),
            Sub::sweep("multi", MULTIS.len() as u64, 3_000, 80_000, |m| multi_case(m as usize), check_multi),
            Sub::sweep("archive", ARCHIVES.len() as u64, 2_500, 60_000, |a| arch_case_at(a as usize), check_arch),
            // with debug assertions the compiler's own check of enumerations aborts the process (the known finding)
            Sub::new("enum", 20_000, 200_000, || (any::<u8>(), any::<u8>()).boxed(), check_enum).profiles(runner::Profiles::Release),
        ],
    })
}
