//! Programs of iterator calls, run on an iterator of the library and on a plain list side by side.
use crate::{ensure, same};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;
use std::fmt::Debug;
use std::ops::Bound;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum IterOp {
    Next,
    NextBack,
    Nth(usize),
    NthBack(usize),
    Len,
    SizeHint,
    /// The following run on a clone, which is consumed.
    Collect,
    RevCollect,
    SkipRev(usize),
    SkipLen(usize),
    TakeRev(usize),
    ZipLen,
    ZipRev(usize),
    EnumRev,
    PeekLen(usize),
    PeekRev,
    ChainRev,
    StepBy(usize),
    StepByRev(usize),
    RPosition(usize),
    Position(usize),
    Last,
    Count,
    Rfold,
    Fold,
    /// try_fold, find and rfind up to the given element, on the iterator itself
    Find(usize),
    RFind(usize),
    TryFold(usize),
    ByRef(usize),
    Max,
    /// Drops a clone after moving it: the original must not move.
    CloneMove(usize),
    Exhaust,
}
/// The same program with its small counts stretched to a list of n elements.
pub fn stretched(ops: &[IterOp], n: usize) -> Vec<IterOp> {
    use IterOp::*;
    let s = |k: &usize| if *k < 40 { *k * n / 37 } else { *k };
    let by = |k: &usize| (*k * n / 40).max(1);
    ops.iter()
        .map(|o| match o {
            Nth(k) => Nth(s(k)),
            NthBack(k) => NthBack(s(k)),
            SkipRev(k) => SkipRev(s(k)),
            SkipLen(k) => SkipLen(s(k)),
            TakeRev(k) => TakeRev(s(k)),
            ZipRev(k) => ZipRev(s(k)),
            StepBy(k) => StepBy(by(k)),
            StepByRev(k) => StepByRev(by(k)),
            RPosition(k) => RPosition(s(k)),
            Position(k) => Position(s(k)),
            Find(k) => Find(s(k)),
            RFind(k) => RFind(s(k)),
            TryFold(k) => TryFold(s(k)),
            ByRef(k) => ByRef(s(k)),
            o => o.clone(),
        })
        .collect()
}
/// Numbers of elements next to powers of two.
pub fn long_len() -> BoxedStrategy<usize> {
    prop_oneof![
        3 => (8u32..13, -3i64..=3).prop_map(|(p, d)| ((1i64 << p) + d) as usize),
        1 => (14u32..17, -3i64..=3).prop_map(|(p, d)| ((1i64 << p) + d) as usize),
        1 => 100usize..3_000,
    ]
    .boxed()
}
pub fn ops_strategy(max: usize) -> BoxedStrategy<Vec<IterOp>> {
    use IterOp::*;
    let k = || prop_oneof![4 => 0usize..6, 1 => 0usize..40, 1 => Just(usize::max_value()), 1 => (0usize..3).prop_map(|x| usize::max_value() / 2 + x)];
    let small = || prop_oneof![4 => 0usize..6, 1 => 0usize..40];
    let op = prop_oneof![
        6 => Just(Next),
        6 => Just(NextBack),
        3 => k().prop_map(Nth),
        3 => k().prop_map(NthBack),
        2 => Just(Len),
        2 => Just(SizeHint),
        1 => Just(Collect),
        1 => Just(RevCollect),
        2 => k().prop_map(SkipRev),
        1 => k().prop_map(SkipLen),
        1 => small().prop_map(TakeRev),
        1 => Just(ZipLen),
        1 => small().prop_map(ZipRev),
        1 => Just(EnumRev),
        1 => (0usize..4).prop_map(PeekLen),
        1 => Just(PeekRev),
        1 => Just(ChainRev),
        1 => (1usize..6).prop_map(StepBy),
        1 => (1usize..6).prop_map(StepByRev),
        1 => small().prop_map(RPosition),
        1 => small().prop_map(Position),
        1 => Just(Last),
        1 => Just(Count),
        1 => Just(Rfold),
        1 => Just(Fold),
        1 => small().prop_map(Find),
        1 => small().prop_map(RFind),
        1 => small().prop_map(TryFold),
        1 => small().prop_map(ByRef),
        1 => Just(Max),
        1 => (0usize..5).prop_map(CloneMove),
        1 => Just(Exhaust),
    ];
    prop::collection::vec(op, 0..=max).boxed()
}

/// Runs the program; `conv` turns what the iterator yields into a model value.
pub fn drive<I, M>(it: I, model: &[M], ops: &[IterOp], conv: &dyn Fn(I::Item) -> M, who: &str) -> Result<(), String>
where
    I: Iterator + DoubleEndedIterator + ExactSizeIterator + Clone,
    M: PartialEq + Debug + Clone,
{
    let mut it = it;
    let mut m: VecDeque<M> = model.iter().cloned().collect();
    for (n, op) in ops.iter().enumerate() {
        let ctx = format!("{}: iterator step {} {:?} with {} left", who, n, op, m.len());
        let lim = m.len() + 3; // nothing may yield more than that
        let v: Vec<M> = m.iter().cloned().collect();
        match op {
            IterOp::Next => same!(it.next().map(conv), m.pop_front(), "{}", ctx),
            IterOp::NextBack => same!(it.next_back().map(conv), m.pop_back(), "{}", ctx),
            IterOp::Nth(k) => {
                let want = v.get(*k).cloned();
                for _ in 0..(*k).min(lim).saturating_add(1) {
                    m.pop_front();
                }
                same!(it.nth(*k).map(conv), want, "{}", ctx);
            }
            IterOp::NthBack(k) => {
                let want = if *k < v.len() { v.get(v.len() - 1 - k).cloned() } else { None };
                for _ in 0..(*k).min(lim).saturating_add(1) {
                    m.pop_back();
                }
                same!(it.nth_back(*k).map(conv), want, "{}", ctx);
            }
            IterOp::Len => same!(it.len(), m.len(), "{}", ctx),
            IterOp::SizeHint => same!(it.size_hint(), (m.len(), Some(m.len())), "{}", ctx),
            IterOp::Collect => same!(it.clone().take(lim).map(conv).collect::<Vec<_>>(), v, "{}", ctx),
            IterOp::RevCollect => {
                let w: Vec<M> = v.into_iter().rev().collect();
                same!(it.clone().rev().take(lim).map(conv).collect::<Vec<_>>(), w, "{}", ctx)
            }
            IterOp::SkipRev(k) => {
                let w: Vec<M> = v.into_iter().skip(*k).rev().collect();
                same!(it.clone().skip(*k).rev().take(lim).map(conv).collect::<Vec<_>>(), w, "{}", ctx)
            }
            IterOp::SkipLen(k) => same!(it.clone().skip(*k).len(), v.len().saturating_sub(*k), "{}", ctx),
            IterOp::TakeRev(k) => {
                let w: Vec<M> = v.into_iter().take(*k).rev().collect();
                same!(it.clone().take(*k).rev().take(lim).map(conv).collect::<Vec<_>>(), w, "{}", ctx)
            }
            IterOp::ZipLen => {
                same!(it.clone().zip(0..5usize).len(), v.len().min(5), "{}", ctx);
                same!(it.clone().zip(it.clone()).len(), v.len(), "{}", ctx);
            }
            IterOp::ZipRev(k) => {
                let other: Vec<usize> = (0..*k).collect();
                let w: Vec<(M, usize)> = v.into_iter().zip(other.iter().cloned()).rev().collect();
                let g: Vec<(M, usize)> =
                    it.clone().zip(other.iter().cloned()).rev().take(lim).map(|(a, b)| (conv(a), b)).collect();
                same!(g, w, "{}", ctx)
            }
            IterOp::EnumRev => {
                let w: Vec<(usize, M)> = v.into_iter().enumerate().rev().collect();
                let g: Vec<(usize, M)> = it.clone().enumerate().rev().take(lim).map(|(i, a)| (i, conv(a))).collect();
                same!(g, w, "{}", ctx)
            }
            IterOp::PeekLen(k) => {
                let mut p = it.clone().peekable();
                let mut q = v.into_iter().peekable();
                for _ in 0..*k {
                    same!(p.peek().is_some(), q.peek().is_some(), "{}", ctx);
                    same!(p.len(), q.len(), "{}: len of peekable", ctx);
                    same!(p.next().map(conv), q.next(), "{}", ctx);
                }
                same!(p.len(), q.len(), "{}: len of peekable", ctx);
            }
            IterOp::PeekRev => {
                let mut p = it.clone().peekable();
                let mut q = v.into_iter().peekable();
                same!(p.peek().is_some(), q.peek().is_some(), "{}", ctx);
                same!(p.rev().take(lim).map(conv).collect::<Vec<_>>(), q.rev().collect::<Vec<_>>(), "{}", ctx);
            }
            IterOp::ChainRev => {
                let w: Vec<M> = v.iter().cloned().chain(v.iter().cloned()).rev().collect();
                same!(it.clone().chain(it.clone()).rev().take(2 * lim).map(conv).collect::<Vec<_>>(), w, "{}", ctx)
            }
            IterOp::StepBy(k) => {
                same!(it.clone().step_by(*k).len(), v.iter().step_by(*k).len(), "{}: len", ctx);
                let w: Vec<M> = v.into_iter().step_by(*k).collect();
                same!(it.clone().step_by(*k).take(lim).map(conv).collect::<Vec<_>>(), w, "{}", ctx)
            }
            IterOp::StepByRev(k) => {
                let w: Vec<M> = v.into_iter().step_by(*k).rev().collect();
                same!(it.clone().step_by(*k).rev().take(lim).map(conv).collect::<Vec<_>>(), w, "{}", ctx)
            }
            IterOp::RPosition(k) => {
                let t = v.get(*k).cloned();
                let w = v.iter().rposition(|x| Some(x) == t.as_ref());
                let g = it.clone().rposition(|x| Some(&conv(x)) == t.as_ref());
                same!(g, w, "{}", ctx)
            }
            IterOp::Position(k) => {
                let t = v.get(*k).cloned();
                let w = v.iter().position(|x| Some(x) == t.as_ref());
                let g = it.clone().take(lim).position(|x| Some(&conv(x)) == t.as_ref());
                same!(g, w, "{}", ctx)
            }
            IterOp::Last => {
                ensure!(it.clone().take(lim).count() == v.len(), "{}: count", ctx);
                same!(it.clone().last().map(conv), v.last().cloned(), "{}", ctx)
            }
            IterOp::Count => {
                ensure!(it.clone().take(lim).count() == v.len(), "{}: count", ctx);
                same!(it.clone().count(), v.len(), "{}", ctx)
            }
            IterOp::Rfold => {
                ensure!(it.clone().rev().take(lim).count() == v.len(), "{}: count", ctx);
                let g = it.clone().rfold(vec![], |mut a, x| {
                    a.push(conv(x));
                    a
                });
                let w = v.into_iter().rfold(vec![], |mut a, x| {
                    a.push(x);
                    a
                });
                same!(g, w, "{}", ctx)
            }
            IterOp::Fold => {
                ensure!(it.clone().take(lim).count() == v.len(), "{}: count", ctx);
                let mut g = vec![];
                it.clone().for_each(|x| g.push(conv(x)));
                same!(g, v, "{}", ctx);
                let (a, b): (Vec<M>, Vec<M>) = {
                    let mut k = 0;
                    it.clone().map(conv).partition(|_| {
                        k += 1;
                        k % 3 == 0
                    })
                };
                same!(a.len() + b.len(), v.len(), "{}: partition", ctx);
                same!(it.clone().all(|x| v.contains(&conv(x))), true, "{}: all", ctx);
            }
            IterOp::Find(k) => {
                let t = v.get(*k).cloned();
                let want = v.iter().position(|x| Some(x) == t.as_ref());
                let mut calls = 0;
                let g = it.find(|_| {
                    calls += 1;
                    calls > want.unwrap_or(lim)
                });
                for _ in 0..want.map_or(lim, |w| w + 1) {
                    m.pop_front();
                }
                same!(g.map(conv), want.map(|w| v[w].clone()), "{}", ctx);
            }
            IterOp::RFind(k) => {
                let want = if *k < v.len() { Some(v[v.len() - 1 - k].clone()) } else { None };
                let mut calls = 0;
                let g = it.rfind(|_| {
                    calls += 1;
                    calls > *k
                });
                for _ in 0..(*k).min(lim) + 1 {
                    m.pop_back();
                }
                same!(g.map(conv), want, "{}", ctx);
            }
            IterOp::TryFold(k) => {
                let mut got = vec![];
                let r = it.try_fold((), |_, x| {
                    got.push(conv(x));
                    if got.len() > *k { Err(()) } else { Ok(()) }
                });
                same!(r.is_err(), *k < v.len(), "{}", ctx);
                same!(got, &v[..(*k + 1).min(v.len())], "{}", ctx);
                for _ in 0..(*k).min(lim) + 1 {
                    m.pop_front();
                }
            }
            IterOp::ByRef(k) => {
                let got: Vec<M> = it.by_ref().take(*k).map(conv).collect();
                same!(got, &v[..(*k).min(v.len())], "{}", ctx);
                for _ in 0..*k {
                    m.pop_front();
                }
            }
            IterOp::Max => {
                // comparisons of whole iterators
                let n = it.clone().take(lim).map(|_| 0u8).max();
                same!(n, v.first().map(|_| 0), "{}", ctx);
                let last = it.clone().take(lim).max_by(|_, _| std::cmp::Ordering::Equal).map(conv);
                same!(last, v.last().cloned(), "{}: max_by", ctx);
                let first = it.clone().take(lim).min_by(|_, _| std::cmp::Ordering::Equal).map(conv);
                same!(first, v.first().cloned(), "{}: min_by", ctx);
            }
            IterOp::CloneMove(k) => {
                let mut c = it.clone();
                for i in 0..*k {
                    if i % 2 == 0 {
                        c.next();
                    } else {
                        c.next_back();
                    }
                }
            }
            IterOp::Exhaust => {
                for i in 0..lim {
                    same!(it.next().map(conv), m.pop_front(), "{}: call {}", ctx, i);
                }
                same!(it.next().map(conv), None, "{}: not fused", ctx);
                same!(it.next_back().map(conv), None, "{}: not fused", ctx);
            }
        }
        same!(it.len(), m.len(), "{}: len afterwards", ctx);
    }
    let v: Vec<M> = m.into_iter().collect();
    let lim = v.len() + 3;
    same!(it.take(lim).map(conv).collect::<Vec<_>>(), v, "{}: rest", who);
    Ok(())
}

/// Does the text name the length, then the first elements (up to ten) in order, and then whether any are left out?
pub fn shows(text: &str, len: usize, first: &[String]) -> Result<(), String> {
    let l = format!("len: {}", len);
    let mut rest = match text.find(&l) {
        Some(k) if !text[k + l.len()..].starts_with(|c: char| c.is_ascii_digit()) => &text[k + l.len()..],
        _ => return Err(format!("{} does not tell its length {}", text, len)),
    };
    for f in first {
        match rest.find(f.as_str()) {
            Some(k) => rest = &rest[k + f.len()..],
            None => return Err(format!("{} does not show {}", text, f)),
        }
    }
    // an ellipsis exactly if there are more than ten
    ensure!(rest.contains("...") == (len > 10), "{} of {} elements: wrong mark for elements left out", text, len);
    Ok(())
}
/// A forward iterator against a list, step by step.
pub fn drive_forward<I, M>(it: I, model: &[M], ops: &[IterOp], conv: &dyn Fn(I::Item) -> M, who: &str) -> Result<(), String>
where
    I: Iterator + Clone,
    M: PartialEq + Debug + Clone,
{
    let mut it = it;
    let mut at = 0;
    for (n, op) in ops.iter().enumerate() {
        let v = &model[at..];
        let ctx = format!("{}: step {} {:?} with {} left", who, n, op, v.len());
        let lim = v.len() + 3;
        let (lo, hi) = it.size_hint();
        ensure!(lo <= v.len() && hi.map_or(true, |h| h >= v.len()), "{}: size hint {:?}", ctx, (lo, hi));
        match op {
            IterOp::Next | IterOp::NextBack => {
                same!(it.next().map(conv), v.first().cloned(), "{}", ctx);
                at += 1;
            }
            IterOp::Nth(k) | IterOp::NthBack(k) | IterOp::SkipRev(k) | IterOp::SkipLen(k) => {
                same!(it.nth(*k).map(conv), v.get(*k).cloned(), "{}", ctx);
                at += (*k).min(lim) + 1;
            }
            IterOp::StepBy(k) | IterOp::StepByRev(k) => {
                let g: Vec<M> = it.clone().step_by(*k).take(lim).map(conv).collect();
                same!(g, v.iter().step_by(*k).cloned().collect::<Vec<_>>(), "{}", ctx);
            }
            IterOp::Last | IterOp::Max => same!(it.clone().take(lim).last().map(conv), v.last().cloned(), "{}", ctx),
            IterOp::Count | IterOp::Len | IterOp::SizeHint => {
                ensure!(it.clone().take(lim).count() == v.len(), "{}: count", ctx);
                same!(it.clone().count(), v.len(), "{}", ctx);
                same!(it.clone().last().map(conv), v.last().cloned(), "{}: last", ctx);
            }
            IterOp::Fold | IterOp::Rfold => {
                ensure!(it.clone().take(lim).count() == v.len(), "{}: count", ctx);
                let mut g = vec![];
                it.clone().for_each(|x| g.push(conv(x)));
                same!(g, v, "{}", ctx);
            }
            IterOp::TakeRev(k) | IterOp::ByRef(k) | IterOp::ZipRev(k) => {
                let g: Vec<M> = it.by_ref().take(*k).map(conv).collect();
                same!(g, &v[..(*k).min(v.len())], "{}", ctx);
                at += *k;
            }
            IterOp::TryFold(k) | IterOp::Find(k) | IterOp::RFind(k) => {
                let mut got = vec![];
                let r = it.try_fold((), |_, x| {
                    got.push(conv(x));
                    if got.len() > (*k).min(lim) { Err(()) } else { Ok(()) }
                });
                same!(r.is_err(), *k < v.len(), "{}", ctx);
                same!(got, &v[..(*k).min(lim).saturating_add(1).min(v.len())], "{}", ctx);
                at += (*k).min(lim) + 1;
            }
            IterOp::CloneMove(k) => {
                let mut c = it.clone();
                for _ in 0..*k {
                    c.next();
                }
            }
            IterOp::Exhaust => {
                for i in 0..lim {
                    same!(it.next().map(conv), v.get(i).cloned(), "{}: call {}", ctx, i);
                }
                at = model.len();
            }
            _ => same!(it.clone().take(lim).map(conv).collect::<Vec<_>>(), v, "{}", ctx),
        }
        at = at.min(model.len());
    }
    let v = &model[at..];
    same!(it.take(v.len() + 3).map(conv).collect::<Vec<_>>(), v, "{}: rest", who);
    Ok(())
}

/// One end of a range, relative to the length at hand.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Pos {
    Frac(u16),
    FromEnd(u8),
    Past(u8),
    Max(u8),
    /// Close to a multiple of 2^64 / element size, so that a byte offset wraps around.
    Wrap(u8, u8),
}
impl Pos {
    pub fn at(self, len: usize, size: usize) -> usize {
        match self {
            Pos::Frac(f) => (f as usize * (len + 1)) >> 16,
            Pos::FromEnd(k) => len.saturating_sub(k as usize),
            Pos::Past(k) => len + 1 + k as usize,
            Pos::Max(k) => usize::max_value() - k as usize,
            Pos::Wrap(m, k) => {
                let m = 1 + m as u128 % size as u128;
                let whole = (m << 64) / size as u128; // smallest index whose offset wraps m times is whole or whole + 1
                (whole + k as u128) as usize
            }
        }
    }
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum End {
    Inc(Pos),
    Exc(Pos),
    Unb,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Range {
    pub start: End,
    pub end: End,
}
impl End {
    pub fn bound(self, len: usize, size: usize) -> Bound<usize> {
        match self {
            End::Inc(p) => Bound::Included(p.at(len, size)),
            End::Exc(p) => Bound::Excluded(p.at(len, size)),
            End::Unb => Bound::Unbounded,
        }
    }
}
/// What the range selects from a list of this length; None if it is out of bounds.
pub fn resolve(start: Bound<usize>, end: Bound<usize>, len: usize) -> Option<(usize, usize)> {
    let s = match start {
        Bound::Included(k) => Some(k),
        Bound::Excluded(k) => k.checked_add(1),
        Bound::Unbounded => Some(0),
    }?;
    let e = match end {
        Bound::Included(k) => k.checked_add(1),
        Bound::Excluded(k) => Some(k),
        Bound::Unbounded => Some(len),
    }?;
    if s <= e && e <= len {
        Some((s, e))
    } else {
        None
    }
}
pub fn pos_strategy(wild: u32) -> BoxedStrategy<Pos> {
    prop_oneof![
        6 => any::<u16>().prop_map(Pos::Frac),
        3 => (0u8..3).prop_map(Pos::FromEnd),
        wild => (0u8..4).prop_map(Pos::Past),
        wild => (0u8..3).prop_map(Pos::Max),
        wild => (any::<u8>(), 0u8..4).prop_map(|(a, b)| Pos::Wrap(a, b)),
    ]
    .boxed()
}
/// Ranges; `wild` is the weight of far out-of-bounds ends. Mostly well-ordered ones.
pub fn range_strategy(wild: u32) -> BoxedStrategy<Range> {
    let end = move || {
        prop_oneof![3 => pos_strategy(wild).prop_map(End::Inc), 3 => pos_strategy(wild).prop_map(End::Exc), 1 => Just(End::Unb)]
    };
    prop_oneof![
        1 => (end(), end()).prop_map(|(start, end)| Range { start, end }),
        4 => (any::<u16>(), any::<u16>(), 0u8..6).prop_map(|(a, b, k)| {
            let (a, b) = (Pos::Frac(a.min(b)), Pos::Frac(a.max(b)));
            let start = match k % 3 { 0 => End::Inc(a), 1 => End::Inc(a), _ => End::Unb };
            let end = match k / 2 { 0 => End::Exc(b), 1 => End::Unb, _ => End::Inc(b) };
            Range { start, end }
        }),
    ]
    .boxed()
}
