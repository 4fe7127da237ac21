//! C03: a struct is a record of independent, zero-initialised fields.
#[macro_use]
extern crate flatcheck;
use flatcheck::model::*;
use flatcheck::runner::{self, Obs, Prop, Sub};
use flatcheck::util::*;
use flatdata::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// Set a field of one of two structs; through a fresh or a kept handle.
    Set { who: bool, field: usize, value: u64 },
    SetMany { who: bool, fields: Vec<(usize, u64)> },
    /// who.fill_from(other)
    Fill { who: bool },
    FillFrom { who: bool, rec: Rec },
    /// Make them equal but for one field.
    AlmostEqual { field: usize, value: u64 },
    IntoRef { who: bool },
    Debug { who: bool },
    Renew { who: bool },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    s: usize,
    ops: Vec<Op>,
}
fn value(s: usize, field: usize) -> BoxedStrategy<u64> {
    let f = &STRUCTS[s].fields[field];
    if f.variants.is_empty() {
        prop_oneof![4 => field_strategy(f), 1 => any::<u64>(), 1 => Just(!0u64)].boxed()
    } else {
        field_strategy(f)
    }
}
fn case(s: usize) -> BoxedStrategy<Case> {
    let n = STRUCTS[s].fields.len();
    let fv = move || (0..n).prop_flat_map(move |f| value(s, f).prop_map(move |v| (f, v)));
    let op = prop_oneof![
        8 => (any::<bool>(), fv()).prop_map(|(who, (field, value))| Op::Set { who, field, value }),
        3 => (any::<bool>(), prop::collection::vec(fv(), 0..6)).prop_map(|(who, fields)| Op::SetMany { who, fields }),
        2 => any::<bool>().prop_map(|who| Op::Fill { who }),
        2 => (any::<bool>(), rec_strategy(s)).prop_map(|(who, rec)| Op::FillFrom { who, rec }),
        3 => fv().prop_map(|(field, value)| Op::AlmostEqual { field, value }),
        1 => any::<bool>().prop_map(|who| Op::IntoRef { who }),
        1 => any::<bool>().prop_map(|who| Op::Debug { who }),
        1 => any::<bool>().prop_map(|who| Op::Renew { who }),
    ];
    prop::collection::vec(op, 1..25).prop_map(move |ops| Case { s, ops }).boxed()
}
/// Layout of the text does not matter, its parts and their order do.
fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
struct Run<'a>(&'a Case);
impl<'a> StructVisitor for Run<'a> {
    type Out = Result<(), String>;
    fn visit<S: ModelStruct>(self) -> Self::Out {
        let spec = S::spec();
        let mut b = [StructBuf::<S>::new(), StructBuf::<S>::default()];
        let mut m: [Rec; 2] = [spec.zero(), spec.zero()];
        let norm = |f: usize, v: u64| spec.fields[f].norm(v);
        for (n, op) in std::iter::once(None).chain(self.0.ops.iter().map(Some)).enumerate() {
            let ctx = format!("step {} {:?}", n, op);
            match op {
                None => {}
                Some(Op::Set { who, field, value }) => {
                    let w = *who as usize;
                    let mut h = b[w].get_mut();
                    S::set(&mut h, *field, *value);
                    m[w][*field] = norm(*field, *value);
                    same!(rec_of_m::<S>(&h), m[w], "{}: fields through the mutable handle", ctx);
                }
                Some(Op::SetMany { who, fields }) => {
                    let w = *who as usize;
                    let mut h = b[w].get_mut();
                    for (f, v) in fields {
                        S::set(&mut h, *f, *v);
                        m[w][*f] = norm(*f, *v);
                        same!(S::get_m(&h, *f), m[w][*f], "{}: field {}", ctx, f);
                    }
                    same!(rec_of_m::<S>(&h), m[w], "{}: fields through the mutable handle", ctx);
                }
                Some(Op::Fill { who }) => {
                    let w = *who as usize;
                    let (x, y) = b.split_at_mut(1);
                    let (dst, src) = if w == 0 { (&mut x[0], &y[0]) } else { (&mut y[0], &x[0]) };
                    S::fill(&mut dst.get_mut(), &src.get());
                    m[w] = m[1 - w].clone();
                    ensure!(S::eq(&dst.get(), &src.get()), "{}: copy not equal", ctx);
                }
                Some(Op::FillFrom { who, rec }) => {
                    let w = *who as usize;
                    let src = spec.encode(rec); // bytes of the reference encoder
                    let mut bytes = src.clone();
                    bytes.extend_from_slice(&[0x3c; 8]);
                    let mut h = b[w].get_mut();
                    S::fill(&mut h, &S::create(&bytes[..spec.size]));
                    m[w] = rec.clone();
                    same!(rec_of_m::<S>(&h), m[w], "{}: fields through the mutable handle", ctx);
                }
                Some(Op::AlmostEqual { field, value }) => {
                    let (x, y) = b.split_at_mut(1);
                    S::fill(&mut x[0].get_mut(), &y[0].get());
                    m[0] = m[1].clone();
                    ensure!(S::eq(&x[0].get(), &y[0].get()), "{}: copy not equal", ctx);
                    S::set(&mut x[0].get_mut(), *field, *value);
                    m[0][*field] = norm(*field, *value);
                }
                Some(Op::IntoRef { who }) => {
                    let w = *who as usize;
                    let r = S::into_item(b[w].get_mut());
                    same!(rec_of::<S>(&r), m[w], "{}: fields through into_ref", ctx);
                }
                Some(Op::Debug { who }) => {
                    let w = *who as usize;
                    let want = squeeze(&spec.show(&m[w]));
                    same!(squeeze(&format!("{:?}", b[w].get())), want, "{}: debug of the read-only handle", ctx);
                    same!(squeeze(&format!("{:?}", b[w].get_mut())), want, "{}: debug of the mutable handle", ctx);
                    let all = squeeze(&format!("{:?}", b[w]));
                    ensure!(all.contains(&want), "{}: debug of the buffer is {}, should show {}", ctx, all, want);
                }
                Some(Op::Renew { who }) => {
                    let w = *who as usize;
                    b[w] = StructBuf::new();
                    m[w] = spec.zero();
                }
            }
            for w in 0..2 {
                same!(rec_of::<S>(&b[w].get()), m[w], "{}: fields of struct {}", ctx, w);
                same!(rec_of_m::<S>(&b[w].get_mut()), m[w], "{}: fields of struct {} through a new mutable handle", ctx, w);
                same!(b[w].as_bytes().len(), spec.size, "{}: size", ctx);
                same!(b[w].as_ref(), b[w].as_bytes(), "{}: as_ref", ctx);
            }
            same!(S::eq(&b[0].get(), &b[1].get()), m[0] == m[1], "{}: equality of {:?} and {:?}", ctx, m[0], m[1]);
            let r = b[0].get();
            ensure!(S::eq(&r, &r), "{}: not equal to itself", ctx);
        }
        Ok(())
    }
}
fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    for op in &c.ops {
        match op {
            Op::Set { .. } | Op::SetMany { .. } => o.class("set"),
            Op::Fill { .. } | Op::FillFrom { .. } => o.class("fill"),
            Op::AlmostEqual { .. } => o.class("almost equal"),
            Op::Debug { .. } => o.class("debug"),
            _ => {}
        }
    }
    let sets = c.ops.iter().filter(|o| matches!(o, Op::Set { .. } | Op::SetMany { .. } | Op::FillFrom { .. } | Op::AlmostEqual { .. })).count();
    o.nontrivial_if(sets >= 2 && STRUCTS[c.s].fields.len() > 1);
    with_struct(c.s, Run(c))
}

/// Equality looks at the fields only: same fields with other bits in the gaps are equal, one flipped field bit is not.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct EqCase {
    s: usize,
    seed: u64,
    flip: Option<u64>,
}
struct RunEq<'a>(&'a [u8], &'a [u8]);
impl<'a> StructVisitor for RunEq<'a> {
    type Out = (bool, bool);
    fn visit<S: ModelStruct>(self) -> Self::Out {
        (S::eq(&S::create(self.0), &S::create(self.1)), S::eq(&S::create(self.1), &S::create(self.0)))
    }
}
fn check_eq(c: &EqCase, o: &mut Obs) -> Result<(), String> {
    let spec = &STRUCTS[c.s];
    let a = filler(c.seed, spec.size + 8);
    let mut b = filler(c.seed ^ 0xdead_beef, spec.size + 8);
    for f in spec.fields {
        let v = ref_get(&a, f.offset, f.width);
        ref_set(&mut b, f.offset, f.width, v);
    }
    if let Some(k) = c.flip {
        let total: usize = spec.fields.iter().map(|f| f.width).sum();
        let mut bit = k as usize % total;
        for f in spec.fields {
            if bit < f.width {
                let v = ref_get(&b, f.offset, f.width) ^ (1 << bit);
                ref_set(&mut b, f.offset, f.width, v);
                break;
            }
            bit -= f.width;
        }
    }
    let want = spec.decode(&a) == spec.decode(&b);
    let got = with_struct(c.s, RunEq(&a[..spec.size], &b[..spec.size]));
    same!(got, (want, want), "equality of {:?} and {:?}", spec.decode(&a), spec.decode(&b));
    o.nontrivial();
    o.class(if want { "equal" } else { "different" });
    Ok(())
}

fn main() {
    let ns = NUM_STRUCTS as u64;
    runner::main(Prop {
        id: "C03",
        level: "exploration",
        rule: "programs of set / copy / compare / debug steps on two structs of every generated schema against arrays of \
               field values (values that do not fit a field included); all fields of both structs compared after every step; \
               non-trivial = at least two writing steps on a schema of two or more fields, or an equality case",
        assumptions: &["setter arguments of enum type are declared variants", "struct schemas have at least one field"],
        subs: vec![
            Sub::sweep("programs", ns, 5_000, 60_000, |s| case(s as usize), check),
            Sub::sweep(
                "equality",
                ns,
                2_000,
                30_000,
                |s| {
                    (any::<u64>(), prop::option::of(any::<u64>()))
                        .prop_map(move |(seed, flip)| EqCase { s: s as usize, seed, flip })
                        .boxed()
                },
                check_eq,
            ),
        ],
    })
}
