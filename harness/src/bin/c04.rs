//! C04: Vector against a list of records.
#[macro_use]
extern crate flatcheck;
use flatcheck::giant::{at, giant_size, At};
use flatcheck::model::*;
use flatcheck::runner::{self, Obs, Profiles, Prop, Sub};
use flatcheck::util::*;
use flatdata::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    New(usize),
    Default,
    WithLen(usize),
    Grow(Rec),
    GrowSome(Vec<(usize, u64)>),
    GrowMany(usize, u64),
    Reserve(usize),
    CloneTo(usize),
    CloneFrom(usize),
    Switch(usize),
    Set { at: u16, field: usize, value: u64 },
    Fill { at: u16, rec: Rec },
    CopyElement { from: u16, to: u16 },
    Past(Far),
    TooMany(Far, bool),
    Debug,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Far {
    Len(u8),
    Max(u8),
    Wrap(u8, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    s: usize,
    ops: Vec<Op>,
}
const POOL: usize = 3;
fn case(s: usize) -> BoxedStrategy<Case> {
    let nf = STRUCTS[s].fields.len();
    let max = (60_000 / STRUCTS[s].size).max(2).min(200);
    let fv = move || (0..nf).prop_flat_map(move |f| field_strategy(&STRUCTS[s].fields[f]).prop_map(move |v| (f, v)));
    let op = prop_oneof![
        1 => (0..POOL).prop_map(Op::New),
        1 => Just(Op::Default),
        1 => (0..=max / 4).prop_map(Op::WithLen),
        8 => rec_strategy(s).prop_map(Op::Grow),
        3 => prop::collection::vec(fv(), 0..4).prop_map(Op::GrowSome),
        1 => (0..=max, any::<u64>()).prop_map(|(n, x)| Op::GrowMany(n, x)),
        1 => (0usize..max * 2).prop_map(Op::Reserve),
        2 => (0..POOL).prop_map(Op::CloneTo),
        2 => (0..POOL).prop_map(Op::CloneFrom),
        3 => (0..POOL).prop_map(Op::Switch),
        6 => (any::<u16>(), fv()).prop_map(|(at, (field, value))| Op::Set { at, field, value }),
        2 => (any::<u16>(), rec_strategy(s)).prop_map(|(at, rec)| Op::Fill { at, rec }),
        1 => (any::<u16>(), any::<u16>()).prop_map(|(from, to)| Op::CopyElement { from, to }),
        2 => prop_oneof![
            3 => (0u8..3).prop_map(Far::Len),
            1 => (0u8..3).prop_map(Far::Max),
            1 => (any::<u8>(), 0u8..4).prop_map(|(a, b)| Far::Wrap(a, b)),
        ].prop_map(Op::Past),
        1 => (prop_oneof![
            1 => (0u8..12).prop_map(Far::Max),
            2 => (any::<u8>(), 0u8..4).prop_map(|(a, b)| Far::Wrap(a, b)),
        ], any::<bool>()).prop_map(|(f, w)| Op::TooMany(f, w)),
        1 => Just(Op::Debug),
    ];
    prop::collection::vec(op, 1..30).prop_map(move |ops| Case { s, ops }).boxed()
}
struct Run<'a>(&'a Case, &'a mut Obs);
impl<'a> StructVisitor for Run<'a> {
    type Out = Result<(), String>;
    fn visit<S: ModelStruct>(self) -> Self::Out {
        let spec = S::spec();
        let sidx = self.0.s;
        let mut v: Vec<Vector<S>> = (0..POOL).map(|_| Vector::new()).collect();
        let mut m: Vec<Vec<Rec>> = vec![vec![]; POOL];
        let mut cur = 0;
        let (mut cloned, mut modified_after_grow) = (false, false);
        for (n, op) in self.0.ops.iter().enumerate() {
            let ctx = format!("step {} {:?} on vector {} of {} elements", n, op, cur, m[cur].len());
            let pick = |at: u16, len: usize| (at as usize * len) >> 16;
            match op {
                Op::New(k) => {
                    v[*k] = Vector::new();
                    m[*k] = vec![];
                }
                Op::Default => {
                    v[cur] = Vector::default();
                    m[cur] = vec![];
                }
                Op::WithLen(k) => {
                    v[cur] = Vector::with_len(*k);
                    m[cur] = vec![spec.zero(); *k];
                }
                Op::Grow(rec) => {
                    let mut h = v[cur].grow();
                    same!(rec_of_m::<S>(&h), spec.zero(), "{}: new element", ctx);
                    set_rec::<S>(&mut h, rec);
                    same!(rec_of_m::<S>(&h), *rec, "{}: element through its handle", ctx);
                    m[cur].push(rec.clone());
                }
                Op::GrowSome(fs) => {
                    let mut h = v[cur].grow();
                    let mut rec = spec.zero();
                    for (f, x) in fs {
                        S::set(&mut h, *f, *x);
                        rec[*f] = *x;
                    }
                    m[cur].push(rec);
                }
                Op::GrowMany(k, seed) => {
                    let mut x = Mix(*seed);
                    for _ in 0..*k {
                        if m[cur].len() * spec.size > 300_000 {
                            break;
                        }
                        let rec: Rec = spec
                            .fields
                            .iter()
                            .map(|f| from_bits(f.ty, f.width, x.next()))
                            .collect();
                        set_rec::<S>(&mut v[cur].grow(), &rec);
                        m[cur].push(rec);
                    }
                }
                Op::Reserve(k) => v[cur].reserve(*k),
                Op::CloneTo(k) => {
                    let c = v[cur].clone();
                    v[*k] = c;
                    m[*k] = m[cur].clone();
                    cloned |= *k != cur;
                }
                Op::CloneFrom(k) => {
                    if *k != cur {
                        let (a, b) = v.split_at_mut((*k).max(cur));
                        let (dst, src) = if *k < cur { (&mut a[*k], &b[0]) } else { (&mut b[0], &a[cur]) };
                        dst.clone_from(src);
                        m[*k] = m[cur].clone();
                        cloned = true;
                    }
                }
                Op::Switch(k) => cur = *k,
                Op::Set { at, field, value } => {
                    if !m[cur].is_empty() {
                        let i = pick(*at, m[cur].len());
                        let mut h = v[cur].at_mut(i);
                        same!(rec_of_m::<S>(&h), m[cur][i], "{}: element {} before", ctx, i);
                        S::set(&mut h, *field, *value);
                        m[cur][i][*field] = *value;
                        modified_after_grow |= i + 1 < m[cur].len();
                    }
                }
                Op::Fill { at, rec } => {
                    if !m[cur].is_empty() {
                        let i = pick(*at, m[cur].len());
                        let b = buf_of::<S>(rec);
                        S::fill(&mut v[cur].at_mut(i), &b.get());
                        m[cur][i] = rec.clone();
                    }
                }
                Op::CopyElement { from, to } => {
                    if !m[cur].is_empty() {
                        let (i, j) = (pick(*from, m[cur].len()), pick(*to, m[cur].len()));
                        let src = v[cur].clone();
                        S::fill(&mut v[cur].at_mut(j), &src.at(i));
                        m[cur][j] = m[cur][i].clone();
                    }
                }
                Op::Past(far) => {
                    let i = match far {
                        Far::Len(k) => m[cur].len() + *k as usize,
                        Far::Max(k) => usize::max_value() - *k as usize,
                        Far::Wrap(a, b) => {
                            let a = 1 + *a as u128 % spec.size as u128;
                            let i = (((a << 64) / spec.size as u128) + *b as u128) as usize;
                            if i < m[cur].len() { m[cur].len() } else { i }
                        }
                    };
                    let c = &mut v[cur];
                    must_panic(&format!("{}: at({}) of {}", ctx, i, m[cur].len()), || {
                        c.at(i);
                    })?;
                    must_panic(&format!("{}: at_mut({}) of {}", ctx, i, m[cur].len()), || {
                        c.at_mut(i);
                    })?;
                    self.1.class("out of bounds");
                }
                // more bytes than can be addressed: never a shorter vector
                Op::TooMany(far, with_len) => {
                    let k = match far {
                        Far::Len(_) => unreachable!(),
                        Far::Max(k) => usize::max_value() - *k as usize,
                        Far::Wrap(a, b) => {
                            let a = 1 + *a as u128 % spec.size as u128;
                            let k = ((a << 64) / spec.size as u128) + 1 + *b as u128;
                            k.min(usize::max_value() as u128) as usize
                        }
                    };
                    if *with_len {
                        must_panic(&format!("{}: with_len({})", ctx, k), || {
                            Vector::<S>::with_len(k);
                        })?;
                    } else {
                        let c = &mut v[cur];
                        // whether that panics cannot be seen in the vector
                        let _ = catch(|| c.reserve(k));
                    }
                    self.1.class("more elements than can be addressed");
                }
                Op::Debug => {
                    let first: Vec<String> = m[cur].iter().take(10).map(|r| spec.show(r)).collect();
                    flatcheck::iterprog::shows(&format!("{:?}", v[cur]), m[cur].len(), &first).map_err(|e| format!("{}: {}", ctx, e))?;
                }
            }
            for k in 0..POOL {
                let len = m[k].len();
                same!(v[k].len(), len, "{}: length of vector {}", ctx, k);
                same!(v[k].is_empty(), len == 0, "{}: is_empty of vector {}", ctx, k);
                same!(v[k].size_in_bytes(), len * spec.size, "{}: size of vector {}", ctx, k);
                let bytes = encode_vec(sidx, &m[k]);
                ensure!(v[k].as_bytes() == &bytes[..], "{}: bytes of vector {} differ: {:?} vs {:?}", ctx, k, v[k].as_bytes(), bytes);
                ensure!(v[k].as_ref() == &bytes[..], "{}: as_ref of vector {}", ctx, k);
                let view = v[k].as_view();
                same!(view.len(), len, "{}: view of vector {}", ctx, k);
                let view2: ArrayView<S> = ArrayView::from(&v[k]);
                same!(view2.len(), len, "{}: converted view of vector {}", ctx, k);
                let step = (len / 16).max(1);
                for i in (0..len).step_by(step).chain(len.saturating_sub(2)..len) {
                    same!(rec_of::<S>(&v[k].at(i)), m[k][i], "{}: element {} of vector {}", ctx, i, k);
                    same!(rec_of::<S>(&view.at(i)), m[k][i], "{}: element {} of the view of vector {}", ctx, i, k);
                }
                for i in (0..len).step_by(step) {
                    same!(rec_of_m::<S>(&v[k].at_mut(i)), m[k][i], "{}: element {} of vector {} (mutable)", ctx, i, k);
                }
            }
        }
        self.1.class_if(cloned, "cloned");
        self.1.class_if(modified_after_grow, "modified an inner element");
        self.1.nontrivial_if(m.iter().any(|x| x.len() >= 2));
        Ok(())
    }
}
/// A vector of many elements: grown, or made with its length and filled, or both.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Long {
    s: usize,
    n: usize,
    with_len: usize,
    reserve: usize,
    seed: u64,
    sets: Vec<(u16, usize, u64)>,
    clone: bool,
}
fn long(s: usize) -> BoxedStrategy<Long> {
    let nf = STRUCTS[s].fields.len();
    let max = 4_000_000 / STRUCTS[s].size;
    let fv = (0..nf).prop_flat_map(move |f| field_strategy(&STRUCTS[s].fields[f]).prop_map(move |v| (f, v)));
    (
        flatcheck::iterprog::long_len(),
        prop_oneof![1 => Just(0usize), 1 => flatcheck::iterprog::long_len()],
        prop_oneof![2 => Just(0usize), 1 => 0usize..70_000],
        any::<u64>(),
        prop::collection::vec((any::<u16>(), fv).prop_map(|(a, (f, v))| (a, f, v)), 0..6),
        any::<bool>(),
    )
        .prop_map(move |(n, with_len, reserve, seed, sets, clone)| {
            let n = n.min(max);
            Long { s, n, with_len: with_len.min(n), reserve, seed, sets, clone }
        })
        .boxed()
}
struct RunLong<'a>(&'a Long, &'a mut Obs);
impl<'a> StructVisitor for RunLong<'a> {
    type Out = Result<(), String>;
    fn visit<S: ModelStruct>(self) -> Self::Out {
        let (c, spec) = (self.0, S::spec());
        let mut x = Mix(c.seed);
        let mut rec = || -> Rec { spec.fields.iter().map(|f| from_bits(f.ty, f.width, x.next())).collect() };
        let mut v = Vector::<S>::with_len(c.with_len);
        let mut bytes = vec![0; c.n * spec.size];
        let mut m: Vec<Rec> = vec![];
        let at = |b: &mut Vec<u8>, i: usize, r: &Rec| spec.encode_into(&mut b[i * spec.size..(i + 1) * spec.size], r);
        if c.with_len > 0 {
            v.reserve(c.reserve);
        }
        for i in 0..c.n {
            // every other element stays zero in places
            let r = if i % 5 == 3 { spec.zero() } else { rec() };
            if i < c.with_len {
                set_rec::<S>(&mut v.at_mut(i), &r);
            } else {
                let mut h = v.grow();
                if i % 5 == 3 {
                    same!(rec_of_m::<S>(&h), spec.zero(), "new element {}", i);
                } else {
                    set_rec::<S>(&mut h, &r);
                }
            }
            at(&mut bytes, i, &r);
            m.push(r);
        }
        let old = if c.clone { Some(v.clone()) } else { None };
        let before = if c.clone { bytes.clone() } else { vec![] };
        for (i, f, val) in &c.sets {
            if c.n > 0 {
                let i = *i as usize * c.n >> 16;
                same!(rec_of_m::<S>(&v.at_mut(i)), m[i], "element {} of {} before", i, c.n);
                S::set(&mut v.at_mut(i), *f, *val);
                m[i][*f] = *val;
                at(&mut bytes, i, &m[i]);
            }
        }
        same!(v.len(), c.n, "len");
        ensure!(v.as_bytes() == &bytes[..], "bytes of {} elements differ", c.n);
        for (i, want) in m.iter().enumerate() {
            same!(rec_of::<S>(&v.at(i)), *want, "element {} of {}", i, c.n);
        }
        same!(recs_of::<S>(&v.as_view()).len(), c.n, "view");
        if let Some(old) = old {
            ensure!(old.as_bytes() == &before[..], "clone of {} elements changed", c.n);
        }
        must_panic(&format!("at({})", c.n), || {
            v.at(c.n);
        })?;
        self.1.nontrivial_if(c.n > 100);
        Ok(())
    }
}
fn check_long(c: &Long, o: &mut Obs) -> Result<(), String> {
    with_struct(c.s, RunLong(c, o))
}
/// A vector of gigabytes.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Giant {
    s: usize,
    bytes: u64,
    set: Vec<(At, usize, u64)>,
    grow: Vec<Rec>,
    reserve: usize,
}
fn giant() -> BoxedStrategy<Giant> {
    (0..NUM_STRUCTS, giant_size())
        .prop_flat_map(|(s, bytes)| {
            let nf = STRUCTS[s].fields.len();
            let fv = (0..nf).prop_flat_map(move |f| field_strategy(&STRUCTS[s].fields[f]).prop_map(move |v| (f, v)));
            (
                Just((s, bytes)),
                prop::collection::vec((at(), fv).prop_map(|(a, (f, v))| (a, f, v)), 1..8),
                prop::collection::vec(rec_strategy(s), 0..4),
                0usize..1000,
            )
        })
        .prop_map(|((s, bytes), set, grow, reserve)| Giant { s, bytes, set, grow, reserve })
        .boxed()
}
struct RunGiant<'a>(&'a Giant, &'a mut Obs);
impl<'a> StructVisitor for RunGiant<'a> {
    type Out = Result<(), String>;
    fn visit<S: ModelStruct>(self) -> Self::Out {
        let (c, spec) = (self.0, S::spec());
        let _lim = Unlimited::new();
        let n = (c.bytes as usize / spec.size).max(1);
        let mut v = Vector::<S>::with_len(n);
        let mut m = std::collections::BTreeMap::new();
        for (a, f, x) in &c.set {
            let i = a.get(n, spec.size);
            let r = m.entry(i).or_insert_with(|| spec.zero());
            let mut h = v.at_mut(i);
            same!(rec_of_m::<S>(&h), *r, "element {} of {} before", i, n);
            S::set(&mut h, *f, *x);
            r[*f] = *x;
        }
        v.reserve(c.reserve);
        for (k, r) in c.grow.iter().enumerate() {
            let mut h = v.grow();
            same!(rec_of_m::<S>(&h), spec.zero(), "new element {}", n + k);
            set_rec::<S>(&mut h, r);
            m.insert(n + k, r.clone());
        }
        let n = n + c.grow.len();
        same!(v.len(), n, "len");
        same!(v.size_in_bytes(), n * spec.size, "size_in_bytes");
        same!(v.as_bytes().len(), n * spec.size, "length of as_bytes");
        same!(v.as_view().len(), n, "length of the view");
        let keys: Vec<usize> = m.keys().flat_map(|i| vec![i.saturating_sub(1), *i, i + 1]).filter(|i| *i < n).collect();
        for i in keys {
            let want = m.get(&i).cloned().unwrap_or_else(|| spec.zero());
            same!(rec_of::<S>(&v.at(i)), want, "element {} of {}", i, n);
            same!(rec_of_m::<S>(&v.at_mut(i)), want, "element {} of {} (mutable)", i, n);
            same!(rec_of::<S>(&v.as_view().at(i)), want, "element {} of {} (view)", i, n);
            let b = &v.as_bytes()[i * spec.size..(i + 1) * spec.size];
            ensure!(b == &spec.encode(&want)[..], "bytes of element {} of {}", i, n);
        }
        for i in vec![n, n | 1 << 33, usize::max_value()] {
            must_panic(&format!("at({}) of {}", i, n), || {
                v.at(i);
            })?;
        }
        self.1.class_if(c.bytes >= 1 << 32, "4 GB or more");
        self.1.nontrivial();
        Ok(())
    }
}
fn check_giant(c: &Giant, o: &mut Obs) -> Result<(), String> {
    with_struct(c.s, RunGiant(c, o))
}
fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    with_struct(c.s, Run(c, o))
}
fn main() {
    runner::main(Prop {
        id: "C04",
        level: "exploration",
        rule: "histories of create/grow/reserve/clone/set/copy steps on three vectors of every generated struct schema against \
               lists of records; lengths, bytes and elements of all vectors compared after every step, accesses at and past the \
               length (also where the byte offset wraps) and lengths whose size wraps must panic; vectors of up to 65539 elements; vectors of 2 to 8 GB (mostly untouched) set, grown and read next to multiples of \
               2^31 bytes; non-trivial = some vector ends with two or more elements",
        assumptions: &[],
        subs: vec![Sub::sweep("histories", NUM_STRUCTS as u64, 1_600, 24_000, |s| case(s as usize), check),
            Sub::sweep("long", NUM_STRUCTS as u64, 24, 600, |s| long(s as usize), check_long).profiles(Profiles::Release).shrink(100),
            Sub::new("giant", 3_000, 100_000, giant, check_giant).profiles(Profiles::Release).shrink(60),
        ],
    })
}
