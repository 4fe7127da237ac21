//! C10: resources whose size does not match their header.
#[macro_use]
extern crate flatcheck;
use flatcheck::giant::giant_size;
use flatcheck::model::*;
use flatcheck::runner::{self, Obs, Profiles, Prop, Sub};
use flatcheck::stprog::{data_strategy, Data};
use flatcheck::util::*;
use flatdata::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::Write;
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Damage {
    Cut(usize),
    Extend(Vec<u8>),
    ExtendMany(usize),
    /// xor of the header
    Flip(u64),
    /// header := length + this (wrapping)
    Add(u64),
    /// header := this
    Set(u64),
    /// cut or extended, and the header changed as well
    Both(i32, u64),
    /// bytes lost in the middle
    Lose(usize, usize),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    data: Data,
    schema: String,
    file: bool,
    /// every truncation length and every single-bit change of the header
    all: bool,
    damage: Vec<Damage>,
}
fn damage() -> BoxedStrategy<Damage> {
    let word = || {
        prop_oneof![
            3 => (0u64..40).prop_map(|d| u64::max_value() - d),
            2 => (0u64..40),
            2 => (32u32..64, 0u64..4).prop_map(|(b, d)| (1u64 << b).wrapping_sub(d)),
            2 => (1u64..64).prop_map(|k| k << 32),
            1 => (0u32..64).prop_map(|b| 1u64 << b),
            1 => (1u64..3).prop_map(|k| k << 63),
            2 => any::<u64>(),
        ]
    };
    prop_oneof![
        2 => (0usize..1_000_000).prop_map(Damage::Cut),
        2 => prop::collection::vec(any::<u8>(), 1..20).prop_map(Damage::Extend),
        1 => (1usize..9000).prop_map(Damage::ExtendMany),
        1 => (prop::sample::select(vec![4096usize, 8192, 65_536, 1 << 20]), 1usize..3).prop_map(|(a, k)| Damage::ExtendMany(a * k)),
        2 => word().prop_map(Damage::Flip),
        4 => word().prop_map(Damage::Add),
        3 => word().prop_map(Damage::Set),
        2 => (-40i32..40, word()).prop_map(|(a, b)| Damage::Both(a, b)),
        1 => (any::<usize>(), 1usize..20).prop_map(|(a, b)| Damage::Lose(a, b)),
    ]
    .boxed()
}
fn case(max: usize) -> BoxedStrategy<Case> {
    (
        data_strategy(max),
        prop_oneof![3 => "[a-z]{0,12}", 1 => any::<String>()],
        any::<bool>(),
        prop::bool::weighted(0.3),
        prop::collection::vec(damage(), 1..12),
    )
        .prop_map(|(data, schema, file, all, damage)| Case { data, schema, file, all, damage })
        .boxed()
}
fn apply(good: &[u8], d: &Damage) -> Vec<u8> {
    let mut b = good.to_vec();
    let head = (good.len() - 16) as u64;
    let set = |b: &mut Vec<u8>, v: u64| {
        let n = b.len().min(8);
        b[..n].copy_from_slice(&v.to_le_bytes()[..n]);
    };
    match d {
        Damage::Cut(n) => b.truncate(n % good.len()),
        Damage::Extend(x) => b.extend_from_slice(x),
        Damage::ExtendMany(n) => b.extend(filler(*n as u64, *n)),
        Damage::Flip(x) => set(&mut b, head ^ x),
        Damage::Add(x) => set(&mut b, head.wrapping_add(*x)),
        Damage::Set(x) => set(&mut b, *x),
        Damage::Both(a, x) => {
            let n = (b.len() as i64 + i64::from(*a)).max(0) as usize;
            b.resize(n, 0x11);
            set(&mut b, head.wrapping_add(*x));
        }
        Damage::Lose(at, n) => {
            let at = 8 + at % (good.len() - 8);
            b.drain(at..(at + n).min(good.len()));
        }
    }
    b
}
/// Little, in memory: for machines of other sizes and byte orders as well.
fn small() -> BoxedStrategy<Case> {
    (prop::collection::vec(any::<u8>(), 0..40), "[a-z]{0,4}", prop::collection::vec(damage(), 1..6))
        .prop_map(|(data, schema, damage)| Case { data: Data::Bytes(data), schema, file: false, all: false, damage })
        .prop_filter("little", |c| !c.damage.iter().any(|d| if let Damage::ExtendMany(n) = d { *n > 200 } else { false }))
        .boxed()
}
/// Does the size fit the header?
fn consistent(b: &[u8]) -> bool {
    let mut h = [0; 8];
    b.len() >= 16 && {
        h.copy_from_slice(&b[..8]);
        u128::from(u64::from_le_bytes(h)) + 16 == b.len() as u128
    }
}
fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let payload = c.data.get();
    let good = frame(&payload);
    let mut variants: Vec<(Vec<u8>, String)> = c.damage.iter().map(|d| (apply(&good, d), format!("{:?}", d))).collect();
    if c.all {
        let step = (good.len() / 48).max(1);
        for n in (0..good.len()).filter(|n| *n < 40 || good.len() - n < 40 || n % step == 0) {
            variants.push((good[..n].to_vec(), format!("cut to {}", n)));
        }
        for bit in 0..64 {
            variants.push((apply(&good, &Damage::Flip(1 << bit)), format!("header bit {} flipped", bit)));
        }
    }
    for (k, (bytes, what)) in variants.iter().enumerate() {
        // a new storage each time: nothing of an earlier attempt may matter here
        let d = if c.file { Some(TempDir::new()) } else { None };
        let st: Rc<dyn ResourceStorage> = if let Some(d) = &d {
            put_file(&d.0, "x", bytes);
            put_file(&d.0, "x.schema", c.schema.as_bytes());
            FileResourceStorage::new(d.path())
        } else {
            let st = MemoryResourceStorage::new("/mem");
            for (n, b) in &[("x", &bytes[..]), ("x.schema", c.schema.as_bytes())] {
                let s = st.create_output_stream(n).map_err(|e| format!("{:?}", e))?;
                s.borrow_mut().write_all(b).map_err(|e| format!("{:?}", e))?;
            }
            st
        };
        let ctx = format!("{} bytes stored with {} bytes of payload, {}", bytes.len(), payload.len(), what);
        for attempt in 0..2 {
            let r = no_panic(&ctx, || st.read("x", &c.schema))?;
            if consistent(bytes) {
                let want = &bytes[8..bytes.len() - 8];
                match r {
                    Ok(got) => ensure!(got == want, "{}: the frame is consistent, but another payload was read", ctx),
                    Err(e) => return Err(format!("{}: the frame is consistent: {:?}", ctx, e)),
                }
            } else {
                match r {
                    Err(ResourceStorageError::UnexpectedDataSize) | Err(ResourceStorageError::Io(..)) => {}
                    r => {
                        return Err(format!(
                            "{}: attempt {}: expected an unexpected-size error, got {:?}",
                            ctx,
                            attempt,
                            r.map(|d| format!("{} bytes", d.len()))
                        ))
                    }
                }
            }
        }
        o.exec(&[k as u64], !consistent(bytes));
        o.class_if(consistent(bytes), "still consistent");
        o.class_if(bytes.len() < 16, "shorter than a frame");
        o.class_if(bytes.len() >= 16 && bytes[..8] != good[..8], "header changed");
        o.class_if(bytes.len() > good.len(), "extended");
        if c.file {
            drop(st);
        }
    }
    Ok(())
}
/// A file of gigabytes (a hole) with all kinds of headers.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Giant {
    size: u64,
    headers: Vec<u64>,
    mark: u32,
}
fn check_giant(c: &Giant, o: &mut Obs) -> Result<(), String> {
    use std::os::unix::fs::FileExt;
    let _lim = Unlimited::new();
    let d = TempDir::new();
    let f = std::fs::File::create(d.join("x")).map_err(|e| format!("harness: {:?}", e))?;
    f.set_len(c.size + 16).map_err(|e| format!("harness: {:?}", e))?;
    put_file(&d.0, "x.schema", b"s");
    let at = u64::from(c.mark) % c.size;
    f.write_all_at(&[0xa5], 8 + at).map_err(|e| format!("harness: {:?}", e))?;
    let n = c.size;
    let mut heads = vec![n, n & 0xffff_ffff, n & 0x7fff_ffff, n + (1 << 32), n.wrapping_sub(1 << 32), n + 16, n + 8, n - 8, n | 1 << 63];
    heads.extend((28..64).map(|b| n ^ (1 << b)));
    heads.extend(c.headers.iter().map(|h| n.wrapping_add(*h)));
    for (k, h) in heads.iter().enumerate() {
        f.write_all_at(&h.to_le_bytes(), 0).map_err(|e| format!("harness: {:?}", e))?;
        let st = FileResourceStorage::new(d.path());
        let ctx = format!("{} bytes of payload, header {}", n, h);
        let r = no_panic(&ctx, || st.read("x", "s"))?;
        match r {
            Ok(b) if *h == n => {
                same!(b.len() as u64, n, "{}: length", ctx);
                same!((b[at as usize], b[n as usize - 1]), (0xa5, if at == n - 1 { 0xa5 } else { 0 }), "{}: bytes", ctx);
            }
            Err(ResourceStorageError::UnexpectedDataSize) if *h != n => {}
            r => return Err(format!("{}: got {:?}", ctx, r.map(|b| b.len()))),
        }
        o.exec(&[k as u64], *h != n);
    }
    o.class_if(n >= 1 << 32, "4 GB or more");
    Ok(())
}
fn giant() -> BoxedStrategy<Giant> {
    (giant_size(), prop::collection::vec(any::<u64>(), 0..6), any::<u32>()).prop_map(|(size, headers, mark)| Giant { size, headers, mark }).boxed()
}
fn main() {
    runner::main(Prop {
        id: "C10",
        level: "exploration",
        rule: "payloads of 0 to 70000 bytes, framed and then damaged: every truncation length (sampled in the middle of large \
               ones), every single-bit change of the header, extensions, lost bytes, header values next to 0, the true size, \
               powers of two and 2^64, alone and combined, in memory and on disk, in a release and an overflow-checked build; \
               files of 2 to 8 GB (holes) with headers that differ in each of bits 28..63, by 2^32 or anything; \
               an evaluation is one damaged resource, non-trivial = its size does not match its header",
        assumptions: &["portability: the same check run in the Miri interpreter for s390x and powerpc, where it can be set up"],
        subs: vec![
            Sub::new("damage", 8_000, 150_000, || case(2_000), check),
            Sub::new("large", 200, 8_000, || case(70_000), check),
            Sub::new("small", 8_000, 200_000, small, check).foreign(60, 4_000),
            Sub::new("giant", 1_600, 50_000, giant, check_giant).profiles(Profiles::Release).shrink(60),
        ],
    })
}
