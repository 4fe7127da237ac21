//! C06: MultiArrayView and its iterators against a list of lists.
#[macro_use]
extern crate flatcheck;
use flatcheck::giant::giant_size;
use flatcheck::iterprog::*;
use flatcheck::model::*;
use flatcheck::runner::{self, Obs, Profiles, Prop, Sub};
use flatcheck::util::*;
use flatdata::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

type Item = Vec<(usize, Rec)>;
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    m: usize,
    items: Vec<Item>,
    slices: Vec<Range>,
    probes: Vec<Pos>,
    ops: Vec<IterOp>,
    by_ref: u8,
}
fn case(m: usize, wild: u32) -> BoxedStrategy<Case> {
    let (v, i) = MULTIS[m];
    let big = VARIADICS[v].name == "VBig";
    (
        items_strategy(v, i, if big { 3 } else { 14 }, 4),
        prop::collection::vec(range_strategy(wild), 0..4),
        prop::collection::vec(pos_strategy(wild), 0..4),
        ops_strategy(12),
        0u8..3,
    )
        .prop_map(move |(items, slices, probes, ops, by_ref)| Case { m, items, slices, probes, ops, by_ref })
        .boxed()
}
/// Many items, or many elements in one item.
fn long(m: usize) -> BoxedStrategy<Case> {
    let (v, i) = MULTIS[m];
    let big = VARIADICS[v].name == "VBig";
    (case(m, 1), long_len(), 0u8..3)
        .prop_map(move |(mut c, n, how)| {
            // repeat what there is, as far as the index reaches
            let room = if STRUCTS[i].size >= 3 { 3_000_000 } else { (1usize << (8 * STRUCTS[i].size)) - 1 };
            let n = if big { n.min(30) } else { n };
            let bytes = |x: &[(usize, Rec)]| x.iter().map(|e| 1 + STRUCTS[VARIADICS[v].types[e.0].1].size).sum::<usize>();
            let all: Item = c.items.iter().flatten().cloned().collect();
            if how == 0 && !all.is_empty() {
                let mut item = Item::new();
                let mut used: usize = c.items.iter().map(|x| bytes(x)).sum();
                for k in 0..n {
                    let e = all[k % all.len()].clone();
                    used += bytes(std::slice::from_ref(&e));
                    if used > room {
                        break;
                    }
                    item.push(e);
                }
                let at = n % c.items.len();
                c.items[at].extend(item);
                c.ops = stretched(&c.ops, c.items[at].len());
            } else if !c.items.is_empty() {
                let mut used = 0;
                let mut items = vec![];
                for k in 0..n {
                    let x = &c.items[k % c.items.len()];
                    used += bytes(x);
                    if used > room {
                        break;
                    }
                    items.push(x.clone());
                }
                c.items = items;
                c.ops = stretched(&c.ops, c.items.len());
            }
            c.slices.truncate(2);
            c
        })
        .boxed()
}
struct Run<'a>(&'a Case, &'a mut Obs);
impl<'a> MultiVisitor for Run<'a> {
    type Out = Result<(), String>;
    fn visit<I: ModelStruct + for<'b> IndexStruct<'b>, V: ModelVariadic>(self) -> Self::Out {
        let c = self.0;
        let isz = I::spec().size;
        let (idx, data) = encode_multi(V::IDX, I::IDX, &c.items);
        let tail = &[0xff; 8][..if c.by_ref == 0 { 8 } else { 0 }];
        let idx = GuardBuf::new(&idx, tail);
        let data = GuardBuf::new(&data, tail);
        let mut view: MultiArrayView<I, V> = MultiArrayView::new(ArrayView::new(idx.bytes()), data.bytes());
        let mut model: Vec<Item> = c.items.clone();
        let mut outside = false;
        compare(&view, &model, "whole view")?;
        probe(&view, &model, c, isz, &mut outside, "whole view")?;
        for (k, r) in c.slices.iter().enumerate() {
            let (s, e) = (r.start.bound(model.len(), isz), r.end.bound(model.len(), isz));
            let ctx = format!("slice {} {:?}..{:?} of {}", k, s, e, model.len());
            match resolve(s, e, model.len()) {
                Some((a, b)) => {
                    view = no_panic(&ctx, || view.slice((s, e)))?;
                    model = model[a..b].to_vec();
                    compare(&view, &model, &ctx)?;
                    probe(&view, &model, c, isz, &mut outside, &ctx)?;
                    self.1.class("slice");
                    self.1.class_if(k > 0, "slice of a slice");
                }
                None => {
                    must_panic(&ctx, || view.slice((s, e)).len())?;
                    self.1.class("slice out of bounds");
                    outside = true;
                }
            }
            let (a, b) = ((r_at(r.start, model.len())), (r_at(r.end, model.len())));
            let (a, b) = (a.min(b), a.max(b));
            same!(items_of(&view.slice(a..b)), &model[a..b], "{}: {}..{}", ctx, a, b);
            same!(items_of(&view.slice(a..)), &model[a..], "{}: {}..", ctx, a);
            same!(items_of(&view.slice(..b)), &model[..b], "{}: ..{}", ctx, b);
            same!(items_of(&view.slice(..)), &model[..], "{}: ..", ctx);
            if b < model.len() {
                same!(items_of(&view.slice(a..=b)), &model[a..=b], "{}: {}..={}", ctx, a, b);
                same!(items_of(&view.slice(..=b)), &model[..=b], "{}: ..={}", ctx, b);
            }
            if a < b {
                must_panic(&format!("{}: {}..{}", ctx, b, a), || view.slice(b..a).len())?;
            }
            must_panic(&format!("{}: {}..", ctx, model.len() + 1), || view.slice(model.len() + 1..).len())?;
        }
        match c.by_ref {
            0 => drive(view.iter(), &model, &c.ops, &|x| x.map(|e| V::dump(&e)).collect::<Vec<_>>(), "iter()")?,
            1 => drive((&view).into_iter(), &model, &c.ops, &|x| x.map(|e| V::dump(&e)).collect::<Vec<_>>(), "(&view).into_iter()")?,
            _ => drive(view.clone().into_iter(), &model, &c.ops, &|x| x.map(|e| V::dump(&e)).collect::<Vec<_>>(), "into_iter()")?,
        }
        // elements of one item, step by step
        let some = if model.len() > 100 { model.len() / 50 } else { 1 };
        for (i, m) in model.iter().enumerate().step_by(some) {
            let mut it = view.at(i);
            for (k, e) in m.iter().enumerate() {
                let step = k < 40 || k + 40 > m.len();
                let (lo, hi) = it.size_hint();
                let left = m.len() - k;
                ensure!(lo <= left && hi.map_or(true, |h| h >= left), "size hint {:?} with {} elements left", (lo, hi), left);
                let kept = it.clone();
                let x = it.next();
                ensure!(x.is_some(), "item {} ends after {} elements of {}", i, k, m.len());
                let x = x.unwrap();
                same!(V::dump(&x), *e, "element {} of item {}", k, i);
                same!(x.size_in_bytes(), STRUCTS[V::spec().types[e.0].1].size, "size of element {} of item {}", k, i);
                same!(if step { kept.take(m.len() + 1).count() } else { left }, left, "clone of the iterator of item {}", i);
                ensure!(x == x.clone(), "element {} of item {} differs from its clone", k, i);
            }
            for _ in 0..3 {
                ensure!(it.next().is_none(), "item {} has more than {} elements", i, m.len());
            }
            drive_forward(view.at(i), m, &c.ops, &|e| V::dump(&e), &format!("item {}", i))?;
            // equality of elements is equality of variant and value
            let all: Vec<_> = view.at(i).take(40).collect();
            for (a, ma) in all.iter().zip(m) {
                for (b, mb) in all.iter().zip(m) {
                    same!(a == b, ma == mb, "equality of elements {:?} and {:?}", ma, mb);
                }
            }
        }
        let first: Vec<String> = view.iter().take(10).flat_map(|i| i.map(|x| format!("{:?}", x)).collect::<Vec<_>>()).collect();
        shows(&format!("{:?}", view), model.len(), &first)?;
        shows(&format!("{:?}", view.iter()), model.len(), &first)?;
        self.1.class_if(outside, "out of bounds access");
        self.1.class_if(model.iter().any(|i| i.is_empty()), "has empty item");
        self.1.nontrivial_if(model.len() >= 2 && (c.ops.len() >= 2 || !c.slices.is_empty()));
        Ok(())
    }
}
fn r_at(e: End, len: usize) -> usize {
    match e {
        End::Inc(p) | End::Exc(p) => p.at(len, 1).min(len),
        End::Unb => len,
    }
}
fn compare<I: ModelStruct + for<'b> IndexStruct<'b>, V: ModelVariadic>(
    v: &MultiArrayView<I, V>,
    m: &[Item],
    ctx: &str,
) -> Result<(), String> {
    same!(v.len(), m.len(), "{}: len", ctx);
    same!(v.is_empty(), m.is_empty(), "{}: is_empty", ctx);
    same!(items_of(v), m, "{}: items", ctx);
    Ok(())
}
fn probe<I: ModelStruct + for<'b> IndexStruct<'b>, V: ModelVariadic>(
    v: &MultiArrayView<I, V>,
    m: &[Item],
    c: &Case,
    isz: usize,
    outside: &mut bool,
    ctx: &str,
) -> Result<(), String> {
    for p in c.probes.iter().cloned().chain(std::iter::once(Pos::FromEnd(0))) {
        let i = p.at(m.len(), isz);
        if i < m.len() {
            let got: Item = v.at(i).map(|e| V::dump(&e)).collect();
            same!(got, m[i], "{}: at({})", ctx, i);
        } else {
            *outside = true;
            must_panic(&format!("{}: at({}) of {}", ctx, i, m.len()), || {
                v.at(i);
            })?;
        }
    }
    Ok(())
}
/// Items spread over gigabytes of data: the ones given, with huge ones of zeros in between.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Giant {
    m: usize,
    bytes: u64,
    /// where it starts (fraction of the data), and its elements
    items: Vec<(u32, Item)>,
    slice: (u16, u16),
}
fn giant() -> BoxedStrategy<Giant> {
    let ms: Vec<usize> = (0..MULTIS.len()).filter(|m| STRUCTS[MULTIS[*m].1].size >= 5).collect();
    (prop::sample::select(ms), giant_size())
        .prop_flat_map(|(m, bytes)| {
            let (v, i) = MULTIS[m];
            (Just((m, bytes)), prop::collection::vec(any::<u32>(), 8), items_strategy(v, i, 8, 3), any::<(u16, u16)>())
        })
        .prop_map(|((m, bytes), at, items, slice)| {
            let mut items: Vec<_> = at.into_iter().zip(items).collect();
            items.sort_by_key(|x| x.0);
            Giant { m, bytes, items, slice }
        })
        .boxed()
}
fn dump_up_to<'a, V: ModelVariadic>(it: impl Iterator<Item = <V as VariadicStruct<'a>>::Item>, n: usize) -> Item {
    it.take(n).map(|e| V::dump(&e)).collect()
}
struct RunGiant<'a>(&'a Giant, &'a mut Obs);
impl<'a> MultiVisitor for RunGiant<'a> {
    type Out = Result<(), String>;
    fn visit<I: ModelStruct + for<'b> IndexStruct<'b>, V: ModelVariadic>(self) -> Self::Out {
        let c = self.0;
        let isz = I::spec().size;
        let limit = mask(I::spec().fields[0].width).min(c.bytes);
        let mut space = Space::new(limit as usize);
        let mut index = vec![];
        let mut want: Vec<Option<&Item>> = vec![]; // None: huge one
        let mut end = 0u64;
        let mut push = |x: u64| index.extend_from_slice(&x.to_le_bytes()[..isz]);
        for (f, item) in &c.items {
            let (_, data) = encode_multi(V::IDX, I::IDX, &[item.clone()]);
            let start = (u128::from(*f) * u128::from(limit) >> 32) as u64;
            if start < end || start + data.len() as u64 > limit {
                continue;
            }
            push(end);
            want.push(None);
            push(start);
            want.push(Some(item));
            space.put(start as usize, &data);
            end = start + data.len() as u64;
        }
        push(end);
        want.push(None);
        push(limit);
        let view: MultiArrayView<I, V> = MultiArrayView::new(ArrayView::new(&index), space.get());
        let n = want.len();
        let (a, b) = (c.slice.0 as usize * (n + 1) >> 16, c.slice.1 as usize * (n + 1) >> 16);
        let (a, b) = (a.min(b), a.max(b));
        for (view, lo, hi) in vec![(view.clone(), 0, n), (view.slice(a..b), a, b), (view.slice(a..).slice(..b - a), a, b)] {
            let ctx = format!("{}..{} of {} items over {} bytes", lo, hi, n, limit);
            same!(view.len(), hi - lo, "{}: len", ctx);
            for i in lo..hi {
                if let Some(item) = want[i] {
                    let n = item.len() + 1;
                    same!(dump_up_to::<V>(view.at(i - lo), n), *item, "{}: at({})", ctx, i - lo);
                    same!(view.iter().nth(i - lo).map(|x| dump_up_to::<V>(x, n)), Some(item.clone()), "{}: nth({})", ctx, i - lo);
                    same!(view.iter().rev().nth(hi - 1 - i).map(|x| dump_up_to::<V>(x, n)), Some(item.clone()), "{}: rev().nth({})", ctx, hi - 1 - i);
                    same!(view.slice(i - lo..).iter().next().map(|x| dump_up_to::<V>(x, n)), Some(item.clone()), "{}: first of {}..", ctx, i - lo);
                }
            }
        }
        self.1.class_if(limit >= 1 << 32, "4 GB or more");
        self.1.nontrivial_if(n > 1);
        Ok(())
    }
}
fn check_giant(c: &Giant, o: &mut Obs) -> Result<(), String> {
    with_multi(c.m, RunGiant(c, o))
}
fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    with_multi(c.m, Run(c, o))
}
fn main() {
    let n = MULTIS.len() as u64;
    runner::main(Prop {
        id: "C06",
        level: "exploration",
        rule: "multivector contents (empty items included) for every generated variadic type and index widths of 1..8 bytes, laid \
               out by the reference encoder and ending at a guard page; chains of slices of every range form and programs of 32 \
               kinds of iterator calls compared with the same on a list of lists; out-of-bounds, inverted and overflowing \
               accesses must panic in a release and an overflow-checked build; items spread over 2 to 8 GB of data; non-trivial = two or more items left and slices \
               or iterator steps made",
        assumptions: &[],
        subs: vec![
            Sub::sweep("views", n, 4_000, 60_000, |m| case(m as usize, 1), check),
            Sub::sweep("wild", n, 1_200, 20_000, |m| case(m as usize, 6), check),
            Sub::sweep("long", n, 12, 400, |m| long(m as usize), check).profiles(Profiles::Release).shrink(100),
            Sub::new("giant", 8_000, 300_000, giant, check_giant).profiles(Profiles::Release).shrink(60),
        ],
    })
}
