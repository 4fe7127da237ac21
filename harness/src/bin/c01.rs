//! C01: bit-field codec against a naive bit loop.
#[macro_use]
extern crate flatdata;
#[macro_use]
extern crate flatcheck;
use flatcheck::model::*;
use flatcheck::runner::{self, Obs, Prop, Sub};
use flatcheck::util::{filler, Space};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

fn wr(ty: Ty, v: u64, buf: &mut [u8], off: usize, w: usize) {
    match ty {
        Ty::Bool => write_bytes!(bool; v & 1 != 0, buf, off, w),
        Ty::U8 => write_bytes!(u8; v as u8, buf, off, w),
        Ty::I8 => write_bytes!(i8; v as i8, buf, off, w),
        Ty::U16 => write_bytes!(u16; v as u16, buf, off, w),
        Ty::I16 => write_bytes!(i16; v as i16, buf, off, w),
        Ty::U32 => write_bytes!(u32; v as u32, buf, off, w),
        Ty::I32 => write_bytes!(i32; v as i32, buf, off, w),
        Ty::U64 => write_bytes!(u64; v, buf, off, w),
        Ty::I64 => write_bytes!(i64; v as i64, buf, off, w),
    }
}
fn rd(ty: Ty, buf: *const u8, off: usize, w: usize) -> u64 {
    match ty {
        Ty::Bool => read_bytes!(bool, buf, off, w) as u64,
        Ty::U8 => read_bytes!(u8, buf, off, w) as u64,
        Ty::I8 => read_bytes!(i8, buf, off, w) as u64,
        Ty::U16 => read_bytes!(u16, buf, off, w) as u64,
        Ty::I16 => read_bytes!(i16, buf, off, w) as u64,
        Ty::U32 => read_bytes!(u32, buf, off, w) as u64,
        Ty::I32 => read_bytes!(i32, buf, off, w) as u64,
        Ty::U64 => read_bytes!(u64, buf, off, w) as u64,
        Ty::I64 => read_bytes!(i64, buf, off, w) as u64,
    }
}
/// The short forms take the width of the type.
fn wr_full(ty: Ty, v: u64, buf: &mut [u8], off: usize) {
    match ty {
        Ty::Bool => write_bytes!(bool; v & 1 != 0, buf, off),
        Ty::U8 => write_bytes!(u8; v as u8, buf, off),
        Ty::I8 => write_bytes!(i8; v as i8, buf, off),
        Ty::U16 => write_bytes!(u16; v as u16, buf, off),
        Ty::I16 => write_bytes!(i16; v as i16, buf, off),
        Ty::U32 => write_bytes!(u32; v as u32, buf, off),
        Ty::I32 => write_bytes!(i32; v as i32, buf, off),
        Ty::U64 => write_bytes!(u64; v, buf, off),
        Ty::I64 => write_bytes!(i64; v as i64, buf, off),
    }
}
#[cfg(feature = "plain")]
fn wr_plain(ty: Ty, v: u64, buf: &mut [u8]) {
    match ty {
        Ty::Bool => write_bytes!(bool; v & 1 != 0, buf),
        Ty::U8 => write_bytes!(u8; v as u8, buf),
        Ty::I8 => write_bytes!(i8; v as i8, buf),
        Ty::U16 => write_bytes!(u16; v as u16, buf),
        Ty::I16 => write_bytes!(i16; v as i16, buf),
        Ty::U32 => write_bytes!(u32; v as u32, buf),
        Ty::I32 => write_bytes!(i32; v as i32, buf),
        Ty::U64 => write_bytes!(u64; v, buf),
        Ty::I64 => write_bytes!(i64; v as i64, buf),
    }
}
fn rd_full(ty: Ty, buf: *const u8, off: usize) -> u64 {
    match ty {
        Ty::Bool => unreachable!(),
        Ty::U8 => read_bytes!(u8, buf, off) as u64,
        Ty::I8 => read_bytes!(i8, buf, off) as u64,
        Ty::U16 => read_bytes!(u16, buf, off) as u64,
        Ty::I16 => read_bytes!(i16, buf, off) as u64,
        Ty::U32 => read_bytes!(u32, buf, off) as u64,
        Ty::I32 => read_bytes!(i32, buf, off) as u64,
        Ty::U64 => read_bytes!(u64, buf, off) as u64,
        Ty::I64 => read_bytes!(i64, buf, off) as u64,
    }
}
fn rd_plain(ty: Ty, buf: *const u8) -> u64 {
    match ty {
        Ty::Bool => unreachable!(),
        Ty::U8 => read_bytes!(u8, buf) as u64,
        Ty::I8 => read_bytes!(i8, buf) as u64,
        Ty::U16 => read_bytes!(u16, buf) as u64,
        Ty::I16 => read_bytes!(i16, buf) as u64,
        Ty::U32 => read_bytes!(u32, buf) as u64,
        Ty::I32 => read_bytes!(i32, buf) as u64,
        Ty::U64 => read_bytes!(u64, buf) as u64,
        Ty::I64 => read_bytes!(i64, buf) as u64,
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Point {
    ty: Ty,
    offset: usize,
    width: usize,
    value: u64,
    /// bytes behind the last one touched that belong to the slice
    tail: usize,
    before: Vec<u8>,
    other: Vec<u8>,
}

const MAXOFF: u64 = 80;
/// (type, width) pairs: every width that fits the type, 1-bit signed integers excluded.
fn pairs() -> Vec<(Ty, usize)> {
    let mut v = vec![];
    for ty in &Ty::ALL {
        for w in 1..=ty.bits() {
            if !(ty.signed() && w == 1) {
                v.push((*ty, w));
            }
        }
    }
    v
}
fn fill_strategy(n: usize) -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        1 => Just(vec![0u8; n]),
        1 => Just(vec![0xffu8; n]),
        1 => Just(vec![0xa5u8; n]),
        4 => any::<u64>().prop_map(move |s| filler(s, n)),
        1 => prop::collection::vec(any::<u8>(), n),
    ]
    .boxed()
}
fn point(slot: u64) -> BoxedStrategy<Point> {
    let p = pairs();
    let (ty, width) = p[(slot / (MAXOFF + 1)) as usize];
    let offset = (slot % (MAXOFF + 1)) as usize;
    let n = (offset + width + 7) / 8 + 16;
    (prop_oneof![2 => bits_strategy(width), 1 => any::<u64>(), 1 => Just(u64::max_value())], 0usize..=8, fill_strategy(n), fill_strategy(n))
        .prop_map(move |(value, tail, before, other)| Point { ty, offset, width, value, tail, before, other })
        .boxed()
}
fn check_point(c: &Point, o: &mut Obs) -> Result<(), String> {
    let (ty, off, w) = (c.ty, c.offset, c.width);
    let used = (off + w + 7) / 8;
    let ctx = format!("{:?} offset {} width {}", ty, off, w);
    // what the type lets through of the value
    let bits = to_bits(ty, w, c.value);
    let mut buf = c.before.clone();
    let mut want = c.before.clone();
    ref_set(&mut want, off, w, bits);
    wr(ty, c.value, &mut buf[..used + c.tail.min(15)], off, w);
    same!(buf, want, "{}: buffer after writing {:#x} over {:x?}", ctx, c.value, c.before);
    let expect = from_bits(ty, w, bits);
    same!(rd(ty, buf.as_ptr(), off, w), expect, "{}: read back of {:#x}", ctx, c.value);
    // reading what is already there
    let there = from_bits(ty, w, ref_get(&c.other, off, w));
    same!(rd(ty, c.other.as_ptr(), off, w), there, "{}: read of {:x?}", ctx, c.other);
    // with every bit outside the range flipped
    let mut inv: Vec<u8> = c.other.iter().map(|b| !b).collect();
    let keep = ref_get(&c.other, off, w);
    ref_set(&mut inv, off, w, keep);
    same!(rd(ty, inv.as_ptr(), off, w), there, "{}: read depends on outside bits of {:x?}", ctx, c.other);
    if w == ty.bits() && ty != Ty::Bool {
        let mut buf = c.before.clone();
        wr_full(ty, c.value, &mut buf[..used + c.tail.min(15)], off);
        same!(buf, want, "{}: buffer after writing the whole type {:#x} over {:x?}", ctx, c.value, c.before);
        same!(rd_full(ty, buf.as_ptr(), off), expect, "{}: read of the whole type", ctx);
        if off == 0 {
            #[allow(unused_mut)]
            let mut plain = c.before.clone();
            #[cfg(feature = "plain")]
            wr_plain(ty, c.value, &mut plain[..used + c.tail.min(15)]);
            #[cfg(not(feature = "plain"))]
            return Err(format!("write_bytes!({:?}; value, data) does not compile", ty));
            #[cfg(feature = "plain")]
            same!(plain, want, "{}: buffer after writing the whole type at 0", ctx);
            same!(rd_plain(ty, buf.as_ptr()), expect, "{}: read of the whole type at 0", ctx);
        }
        o.class("short form");
    }
    o.class_if(off % 8 + w > 64, "spans nine bytes");
    o.class_if(off % 8 != 0, "unaligned");
    o.class_if(c.value != expect, "value does not fit");
    o.nontrivial_if(bits != 0 && c.before.iter().any(|b| *b != 0));
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Program {
    fields: Vec<(Ty, usize, usize)>, // type, offset, width; disjoint
    before: Vec<u8>,
    writes: Vec<(usize, u64)>,
}
fn program() -> BoxedStrategy<Program> {
    let field = (prop::sample::select(Ty::ALL.to_vec()), 0usize..12, any::<u16>());
    prop::collection::vec(field, 1..12)
        .prop_flat_map(|fs| {
            let mut off = 0;
            let mut fields = vec![];
            for (ty, gap, w) in fs {
                let lo = if ty.signed() { 2 } else { 1 };
                let w = lo + w as usize % (ty.bits() - lo + 1);
                off += if gap < 6 { 0 } else { gap - 5 };
                fields.push((ty, off, w));
                off += w;
            }
            let n = fields.len();
            (Just(fields), fill_strategy((off + 7) / 8 + 8), prop::collection::vec((0..n, prop_oneof![any::<u64>(), Just(0), Just(!0u64)]), 1..30))
        })
        .prop_map(|(fields, before, writes)| Program { fields, before, writes })
        .boxed()
}
fn check_program(c: &Program, o: &mut Obs) -> Result<(), String> {
    let mut buf = c.before.clone();
    let mut want = c.before.clone();
    let n = buf.len() - 8;
    for (k, (i, v)) in c.writes.iter().enumerate() {
        let (ty, off, w) = c.fields[*i];
        wr(ty, *v, &mut buf[..n], off, w);
        ref_set(&mut want, off, w, to_bits(ty, w, *v));
        same!(buf, want, "write {} of {:?} {:#x} at {} width {}", k, ty, v, off, w);
        for (ty, off, w) in &c.fields {
            let e = from_bits(*ty, *w, ref_get(&want, *off, *w));
            same!(rd(*ty, buf.as_ptr(), *off, *w), e, "field {:?} at {} width {} after write {}", ty, off, w, k);
        }
    }
    o.nontrivial_if(c.fields.len() > 1 && c.writes.len() > 1);
    Ok(())
}

/// A field far from the start of its buffer.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Far {
    base: usize, // bytes
    point: Point,
}
fn far() -> BoxedStrategy<Far> {
    let n = pairs().len() as u64;
    let base = prop_oneof![
        3 => (5u32..30, -12i64..=4).prop_map(|(p, d)| ((1i64 << p) + d).max(0) as usize),
        1 => 0usize..1 << 30,
        1 => 0usize..1 << 16,
    ];
    (base, 0..n, 0..16u64)
        .prop_flat_map(|(base, pair, off)| point(pair * (MAXOFF + 1) + off).prop_map(move |point| Far { base, point }))
        .boxed()
}
fn check_far(c: &Far, o: &mut Obs) -> Result<(), String> {
    thread_local! { static SPACE: std::cell::RefCell<Space> = std::cell::RefCell::new(Space::new((1 << 30) + (1 << 20))); }
    SPACE.with(|s| check_far_in(c, o, s.borrow_mut().get_mut()))
}
fn check_far_in(c: &Far, o: &mut Obs, buf: &mut [u8]) -> Result<(), String> {
    let p = &c.point;
    let (ty, w, n) = (p.ty, p.width, p.before.len());
    let off = c.base * 8 + p.offset;
    let ctx = format!("{:?} offset {} (byte {}) width {}", ty, off, off / 8, w);
    let bits = to_bits(ty, w, p.value);
    let mut want = p.before.clone();
    ref_set(&mut want, p.offset, w, bits);
    buf[c.base..c.base + n].copy_from_slice(&p.before);
    wr(ty, p.value, &mut buf[..c.base + (p.offset + w + 7) / 8 + p.tail.min(15)], off, w);
    let got = buf[c.base..c.base + n].to_vec();
    let back = rd(ty, buf.as_ptr(), off, w);
    buf[c.base..c.base + n].copy_from_slice(&p.other);
    let there = rd(ty, buf.as_ptr(), off, w);
    for b in &mut buf[c.base..c.base + n] {
        *b = 0;
    }
    unsafe {
        // give the page back
        let page = c.base / 4096 * 4096;
        libc::madvise(buf.as_mut_ptr().add(page) as *mut _, 8192, libc::MADV_DONTNEED);
    }
    same!(got, want, "{}: buffer after writing {:#x} over {:x?}", ctx, p.value, p.before);
    same!(back, from_bits(ty, w, bits), "{}: read back of {:#x}", ctx, p.value);
    same!(there, from_bits(ty, w, ref_get(&p.other, p.offset, w)), "{}: read of {:x?}", ctx, p.other);
    o.class_if(off >= 1 << 16, "offset of 2^16 bits or more");
    o.class_if(off as u64 >= 1 << 32, "offset of 2^32 bits or more");
    o.nontrivial_if(c.base > 0);
    Ok(())
}

fn main() {
    runner::main(Prop {
        id: "C01",
        level: "exploration",
        rule: "sweep over every (type, bit offset 0..=80, width 1..=type bits; signed 1-bit fields excluded), several \
               (value, previous buffer, other buffer) each, random programs of writes to disjoint fields and fields up to 1 GB (2^33 bits) into their buffer; \
               non-trivial = previous buffer and value have bits set (sweep) / at least two fields and writes (programs) / not at the start (far)",
        assumptions: &["reference codec: naive bit loop in harness/src/model.rs", "portability: the same check run in the Miri interpreter for s390x and powerpc, where it can be set up"],
        subs: vec![
            Sub::sweep("points", pairs().len() as u64 * (MAXOFF + 1), 64, 300, point, check_point).foreign(300, 12_000),
            Sub::new("programs", 80_000, 1_500_000, program, check_program).foreign(100, 6_000),
            Sub::new("far", 150_000, 5_000_000, far, check_far),
        ],
    })
}
