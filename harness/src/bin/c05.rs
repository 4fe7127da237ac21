//! C05: ArrayView and its iterator against slices.
#[macro_use]
extern crate flatcheck;
use flatcheck::giant::{at, giant_size, At};
use flatcheck::iterprog::*;
use flatcheck::model::*;
use flatcheck::runner::{self, Obs, Profiles, Prop, Sub};
use flatcheck::util::*;
use flatdata::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    s: usize,
    n: usize,
    seed: u64,
    /// bytes behind the last whole element (fewer than an element)
    extra: usize,
    slices: Vec<Range>,
    probes: Vec<Pos>,
    ops: Vec<IterOp>,
    by_ref: u8,
}
fn case(s: usize, wild: u32) -> BoxedStrategy<Case> {
    let size = STRUCTS[s].size;
    let max = (40_000 / size).max(2).min(60);
    (
        prop_oneof![4 => 0usize..8, 2 => 0..=max],
        any::<u64>(),
        prop_oneof![4 => Just(0usize), 1 => 0..size],
        prop::collection::vec(range_strategy(wild), 0..4),
        prop::collection::vec(pos_strategy(wild), 0..4),
        ops_strategy(12),
        0u8..3,
    )
        .prop_map(move |(n, seed, extra, slices, probes, ops, by_ref)| Case { s, n: n.min(max), seed, extra, slices, probes, ops, by_ref })
        .boxed()
}
/// Many elements.
fn long(s: usize) -> BoxedStrategy<Case> {
    let max = 2_000_000 / STRUCTS[s].size;
    (case(s, 1), long_len())
        .prop_map(move |(mut c, n)| {
            c.n = n.min(max);
            c.ops = stretched(&c.ops, c.n);
            c.slices.truncate(2);
            c
        })
        .boxed()
}
struct Run<'a>(&'a Case, &'a mut Obs);
impl<'a> StructVisitor for Run<'a> {
    type Out = Result<(), String>;
    fn visit<S: ModelStruct>(self) -> Self::Out {
        let c = self.0;
        let spec = S::spec();
        let bytes = filler(c.seed, c.n * spec.size + c.extra);
        let buf = GuardBuf::new(&bytes, &[0xff; 8][..if c.seed % 3 == 0 { 8 } else { 0 }]);
        let mut model: Vec<Rec> = bytes.chunks_exact(spec.size).map(|x| spec.decode(x)).collect();
        let mut view = ArrayView::<S>::new(buf.bytes());
        let mut first = 0;
        let mut outside = false;
        compare(&view, &model, &bytes, 0, "whole view")?;
        probe(&view, &model, c, &mut outside, "whole view")?;
        for (k, r) in c.slices.iter().enumerate() {
            let (s, e) = (r.start.bound(model.len(), spec.size), r.end.bound(model.len(), spec.size));
            let ctx = format!("slice {} {:?}..{:?} of {}", k, s, e, model.len());
            match resolve(s, e, model.len()) {
                Some((a, b)) => {
                    view = no_panic(&ctx, || view.slice((s, e)))?;
                    model = model[a..b].to_vec();
                    first += a;
                    compare(&view, &model, &bytes, first, &ctx)?;
                    probe(&view, &model, c, &mut outside, &ctx)?;
                    self.1.class("slice");
                    self.1.class_if(k > 0, "slice of a slice");
                }
                None => {
                    must_panic(&ctx, || view.slice((s, e)).len())?;
                    self.1.class("slice out of bounds");
                    outside = true;
                }
            }
            // the plain range forms go the same way
            let (a, b) = ((r_at(r.start, model.len())), (r_at(r.end, model.len())));
            let (a, b) = (a.min(b), a.max(b));
            same!(dump(&view.slice(a..b))?, &model[a..b], "{}: {}..{}", ctx, a, b);
            same!(dump(&view.slice(a..))?, &model[a..], "{}: {}..", ctx, a);
            same!(dump(&view.slice(..b))?, &model[..b], "{}: ..{}", ctx, b);
            same!(dump(&view.slice(..))?, &model[..], "{}: ..", ctx);
            if b < model.len() {
                same!(dump(&view.slice(a..=b))?, &model[a..=b], "{}: {}..={}", ctx, a, b);
                same!(dump(&view.slice(..=b))?, &model[..=b], "{}: ..={}", ctx, b);
            }
            if a < b {
                must_panic(&format!("{}: {}..{}", ctx, b, a), || view.slice(b..a).len())?;
            }
        }
        let conv = |x: <S as Struct>::Item| rec_of::<S>(&x);
        match c.by_ref {
            0 => drive(view.iter(), &model, &c.ops, &conv, "iter()")?,
            1 => drive((&view).into_iter(), &model, &c.ops, &conv, "(&view).into_iter()")?,
            _ => drive(view.clone().into_iter(), &model, &c.ops, &conv, "into_iter()")?,
        }
        let first: Vec<String> = view.iter().take(10).map(|x| format!("{:?}", x)).collect();
        shows(&format!("{:?}", view), model.len(), &first)?;
        shows(&format!("{:?}", view.iter()), model.len(), &first)?;
        self.1.class_if(outside, "out of bounds access");
        self.1.class_if(c.extra > 0, "trailing bytes");
        self.1.nontrivial_if(model.len() >= 2 && (c.ops.len() >= 2 || !c.slices.is_empty()));
        Ok(())
    }
}
fn r_at(e: End, len: usize) -> usize {
    match e {
        End::Inc(p) | End::Exc(p) => p.at(len, 1).min(len),
        End::Unb => len,
    }
}
fn dump<S: ModelStruct>(v: &ArrayView<S>) -> Result<Vec<Rec>, String> {
    ensure!(v.len() <= 1 << 20, "length {}", v.len());
    Ok(recs_of::<S>(v))
}
fn compare<S: ModelStruct>(v: &ArrayView<S>, m: &[Rec], bytes: &[u8], first: usize, ctx: &str) -> Result<(), String> {
    let size = S::spec().size;
    same!(v.len(), m.len(), "{}: len", ctx);
    same!(v.is_empty(), m.is_empty(), "{}: is_empty", ctx);
    same!(recs_of::<S>(v), m, "{}: elements", ctx);
    let want = &bytes[first * size..(first + m.len()) * size];
    ensure!(v.as_bytes().len() >= want.len() && &v.as_bytes()[..want.len()] == want, "{}: as_bytes", ctx);
    same!(v.as_ref(), v.as_bytes(), "{}: as_ref", ctx);
    Ok(())
}
fn probe<S: ModelStruct>(v: &ArrayView<S>, m: &[Rec], c: &Case, outside: &mut bool, ctx: &str) -> Result<(), String> {
    for p in c.probes.iter().cloned().chain(std::iter::once(Pos::FromEnd(0))) {
        let i = p.at(m.len(), S::spec().size);
        if i < m.len() {
            same!(rec_of::<S>(&v.at(i)), m[i], "{}: at({})", ctx, i);
        } else {
            *outside = true;
            must_panic(&format!("{}: at({}) of {}", ctx, i, m.len()), || {
                v.at(i);
            })?;
        }
    }
    Ok(())
}
/// A view of gigabytes, zero but for a few elements.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Giant {
    s: usize,
    bytes: u64,
    marks: Vec<(At, Rec)>,
    slices: Vec<(At, At)>,
    probes: Vec<At>,
}
fn giant() -> BoxedStrategy<Giant> {
    (0..NUM_STRUCTS, giant_size())
        .prop_flat_map(|(s, bytes)| {
            (
                Just((s, bytes)),
                prop::collection::vec((at(), rec_strategy(s)), 1..8),
                prop::collection::vec((at(), at()), 0..4),
                prop::collection::vec(at(), 0..6),
            )
        })
        .prop_map(|((s, bytes), marks, slices, probes)| Giant { s, bytes, marks, slices, probes })
        .boxed()
}
struct RunGiant<'a>(&'a Giant, &'a mut Obs);
impl<'a> StructVisitor for RunGiant<'a> {
    type Out = Result<(), String>;
    fn visit<S: ModelStruct>(self) -> Self::Out {
        let (c, spec) = (self.0, S::spec());
        let mut space = Space::new(c.bytes as usize);
        let n = c.bytes as usize / spec.size;
        let mut set = std::collections::BTreeMap::new();
        for (a, r) in &c.marks {
            let i = a.get(n, spec.size);
            let enc = spec.encode(r);
            space.put(i * spec.size, &enc);
            set.insert(i, spec.decode(&enc));
        }
        let value = |i: usize| set.get(&i).cloned().unwrap_or_else(|| spec.zero());
        let mut view = ArrayView::<S>::new(space.get());
        let (mut lo, mut hi) = (0, n);
        for step in 0..=c.slices.len() {
            let len = hi - lo;
            let ctx = format!("{}..{} of {} elements of {} bytes", lo, hi, n, spec.size);
            same!(view.len(), len, "{}: len", ctx);
            same!(view.is_empty(), len == 0, "{}: is_empty", ctx);
            same!(view.iter().len(), len, "{}: len of iter", ctx);
            same!(view.iter().size_hint(), (len, Some(len)), "{}: size hint", ctx);
            ensure!(view.as_bytes().len() >= len * spec.size, "{}: as_bytes has {} bytes", ctx, view.as_bytes().len());
            let marked = set.keys().filter(|i| **i >= lo && **i < hi).flat_map(|i| vec![i - lo, (i - lo).saturating_sub(1), i - lo + 1]);
            let probes: Vec<usize> = marked.chain(c.probes.iter().map(|p| p.get(len, spec.size))).filter(|i| *i < len).collect();
            for i in probes {
                let want = value(lo + i);
                same!(rec_of::<S>(&view.at(i)), want, "{}: at({})", ctx, i);
                same!(view.slice(i..).iter().next().map(|x| rec_of::<S>(&x)), Some(want.clone()), "{}: first of {}..", ctx, i);
                same!(view.slice(..=i).iter().next_back().map(|x| rec_of::<S>(&x)), Some(want.clone()), "{}: last of ..={}", ctx, i);
                if i < 3_000_000 {
                    same!(view.iter().nth(i).map(|x| rec_of::<S>(&x)), Some(want.clone()), "{}: nth({})", ctx, i);
                }
                if len - i < 3_000_000 {
                    same!(view.iter().nth_back(len - i - 1).map(|x| rec_of::<S>(&x)), Some(want), "{}: nth_back({})", ctx, len - i - 1);
                }
            }
            for i in vec![len, len + 1, len | 1 << 32, len | 1 << 33] {
                if i >= len {
                    must_panic(&format!("{}: at({})", ctx, i), || {
                        view.at(i);
                    })?;
                }
            }
            must_panic(&format!("{}: ..{}", ctx, len + 1), || view.slice(..len + 1).len())?;
            if let Some((a, b)) = c.slices.get(step) {
                let (a, b) = (a.get(len, spec.size), b.get(len, spec.size));
                let (a, b) = (a.min(b), a.max(b));
                view = no_panic(&ctx, || view.slice(a..b))?;
                hi = lo + b;
                lo += a;
            }
        }
        self.1.class_if(n >= 1 << 32, "2^32 elements or more");
        self.1.class_if(c.bytes >= 1 << 32, "4 GB or more");
        self.1.nontrivial_if(!set.is_empty());
        Ok(())
    }
}
fn check_giant(c: &Giant, o: &mut Obs) -> Result<(), String> {
    with_struct(c.s, RunGiant(c, o))
}
fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    with_struct(c.s, Run(c, o))
}
fn main() {
    let ns = NUM_STRUCTS as u64;
    runner::main(Prop {
        id: "C05",
        level: "exploration",
        rule: "views of 0..60 (at times up to 65539) elements of every generated struct schema over arbitrary bytes ending at a guard page; chains of \
               slices of every range form and programs of 32 kinds of iterator calls compared with the same on a list; ends and \
               indices out of bounds, inverted, near 2^64 or wrapping the byte offset must panic, in a release and an \
               overflow-checked build; views over 2 to 8 GB of address space (mostly zero pages) probed, sliced and iterated next \
               to multiples of 2^31 bytes; non-trivial = two or more elements left and slices or iterator steps made",
        assumptions: &[],
        subs: vec![
            Sub::sweep("views", ns, 3_000, 50_000, |s| case(s as usize, 1), check),
            Sub::sweep("wild", ns, 500, 10_000, |s| case(s as usize, 6), check),
            Sub::sweep("long", ns, 12, 400, |s| long(s as usize), check).profiles(Profiles::Release).shrink(100),
            Sub::new("giant", 3_000, 100_000, giant, check_giant).profiles(Profiles::Release).shrink(60),
        ],
    })
}
