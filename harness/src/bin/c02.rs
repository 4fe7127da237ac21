//! C02: wire layout of structs, vectors and multivectors against the reference codec.
#[macro_use]
extern crate flatcheck;
use flatcheck::model::*;
use flatcheck::runner::{self, Obs, Prop, Sub};
use flatcheck::util::*;
use flatdata::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct One {
    s: usize,
    rec: Rec,
    perm: u64,
}
struct WriteOne<'a>(&'a One);
impl<'a> StructVisitor for WriteOne<'a> {
    type Out = Vec<u8>;
    fn visit<S: ModelStruct>(self) -> Vec<u8> {
        let mut b = StructBuf::<S>::new();
        let n = self.0.rec.len();
        let mut order: Vec<usize> = (0..n).collect();
        let mut m = Mix(self.0.perm);
        for i in (1..n).rev() {
            order.swap(i, (m.next() % (i as u64 + 1)) as usize);
        }
        {
            let mut h = b.get_mut();
            for i in order {
                S::set(&mut h, i, self.0.rec[i]);
            }
        }
        b.as_bytes().to_vec()
    }
}
fn check_write(c: &One, o: &mut Obs) -> Result<(), String> {
    let got = with_struct(c.s, WriteOne(c));
    same!(got, STRUCTS[c.s].encode(&c.rec), "bytes of {} {:?}", STRUCTS[c.s].name, c.rec);
    o.nontrivial_if(c.rec.iter().any(|v| *v != 0));
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bytes {
    s: usize,
    n: usize,
    pat: u8,
    seed: u64,
}
impl Bytes {
    fn make(&self, len: usize) -> Vec<u8> {
        let mut v = match self.pat {
            0 => vec![0xff; len],
            1 => {
                let mut v = vec![0; len];
                let b = self.seed as usize % (len * 8).max(1);
                if len > 0 {
                    v[b / 8] |= 1 << (b % 8);
                }
                v
            }
            2 => {
                let mut v = vec![0xff; len];
                let b = self.seed as usize % (len * 8).max(1);
                if len > 0 {
                    v[b / 8] &= !(1 << (b % 8));
                }
                v
            }
            _ => filler(self.seed, len),
        };
        v.extend_from_slice(&filler(self.seed ^ 77, 8)); // what follows is not part of it
        v
    }
}
struct ReadAll<'a>(&'a [u8], usize);
impl<'a> StructVisitor for ReadAll<'a> {
    type Out = Vec<Rec>;
    fn visit<S: ModelStruct>(self) -> Vec<Rec> {
        recs_of::<S>(&ArrayView::<S>::new(&self.0[..self.1]))
    }
}
fn check_read(c: &Bytes, o: &mut Obs) -> Result<(), String> {
    let spec = &STRUCTS[c.s];
    let len = spec.size * c.n;
    let b = c.make(len);
    let got = with_struct(c.s, ReadAll(&b, len));
    let want: Vec<Rec> = b[..len].chunks(spec.size).map(|x| spec.decode(x)).collect();
    same!(got, want, "values of {} read from bytes", spec.name);
    o.nontrivial_if(c.n > 0);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Many {
    s: usize,
    recs: Vec<Rec>,
}
struct MakeVec<'a>(&'a [Rec]);
impl<'a> StructVisitor for MakeVec<'a> {
    type Out = (Vec<u8>, usize, usize);
    fn visit<S: ModelStruct>(self) -> Self::Out {
        let v = vec_of::<S>(self.0);
        (v.as_bytes().to_vec(), v.len(), v.size_in_bytes())
    }
}
fn check_vec(c: &Many, o: &mut Obs) -> Result<(), String> {
    let want = encode_vec(c.s, &c.recs);
    let (bytes, len, size) = with_struct(c.s, MakeVec(&c.recs));
    same!(bytes, want, "bytes of a vector");
    same!((len, size), (c.recs.len(), want.len()), "len and size");
    let st = MemoryResourceStorage::new("/c02");
    {
        let mut w = start_vector(c.s, &*st, "v", "schema").map_err(|e| format!("{:?}", e))?;
        for r in &c.recs {
            w.grow_rec(r).map_err(|e| format!("{:?}", e))?;
        }
        w.close().map_err(|e| format!("{:?}", e))?;
    }
    let got = st.read_resource("v").map_err(|e| format!("{:?}", e))?;
    same!(got, &frame(&want)[..], "stored bytes of a streamed vector");
    o.nontrivial_if(c.recs.len() > 1);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Multi {
    m: usize,
    items: Vec<Vec<(usize, Rec)>>,
    /// garbage for the bits no field covers
    noise: u64,
}
fn check_multi(c: &Multi, o: &mut Obs) -> Result<(), String> {
    let (v, i) = MULTIS[c.m];
    let (idx, data) = encode_multi(v, i, &c.items);
    let st = MemoryResourceStorage::new("/c02");
    {
        let mut w = start_multi(c.m, &*st, "v", "schema").map_err(|e| format!("{:?}", e))?;
        for it in &c.items {
            w.grow_item(it).map_err(|e| format!("{:?}", e))?;
        }
        w.close().map_err(|e| format!("{:?}", e))?;
    }
    same!(st.read_resource("v").map_err(|e| format!("{:?}", e))?, &frame(&data)[..], "stored data of a multivector");
    same!(st.read_resource("v_index").map_err(|e| format!("{:?}", e))?, &frame(&idx)[..], "stored index of a multivector");
    // reading, with noise in the bits no field covers
    let mut noisy = data.clone();
    let mut pos = 0;
    for it in &c.items {
        for (k, _) in it {
            let spec = &STRUCTS[VARIADICS[v].types[*k].1];
            let mut body = filler(c.noise ^ pos as u64, spec.size);
            for f in spec.fields {
                let b = ref_get(&data[pos + 1..], f.offset, f.width);
                ref_set(&mut body, f.offset, f.width, b);
            }
            noisy[pos + 1..pos + 1 + spec.size].copy_from_slice(&body);
            pos += 1 + spec.size;
        }
    }
    noisy.extend_from_slice(&[0x5a; 8]);
    let mut idx2 = idx.clone();
    idx2.extend_from_slice(&[0xc3; 8]);
    let got = read_multi(c.m, &idx2[..idx.len()], &noisy[..data.len()]);
    same!(got, c.items, "items read from bytes");
    o.nontrivial_if(c.items.iter().filter(|i| !i.is_empty()).count() > 1);
    o.class_if(c.items.iter().any(|i| i.is_empty()), "has empty item");
    o.class_if(idx.iter().rev().step_by(STRUCTS[i].size).any(|b| *b != 0), "uses the top byte of the index");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct IdxCase {
    bytes: usize,
    value: u64,
    at: usize,
}
/// Index types: the whole range of their width, against little-endian bytes.
fn check_index(c: &IdxCase, o: &mut Obs) -> Result<(), String> {
    macro_rules! go {
        ($T:ident) => {{
            let mut v = Vector::<$T>::with_len(c.at + 2);
            <$T as IndexStruct>::set_index(v.at_mut(c.at), c.value as usize);
            let mut want = vec![0u8; c.bytes * (c.at + 2)];
            want[c.at * c.bytes..(c.at + 1) * c.bytes].copy_from_slice(&c.value.to_le_bytes()[..c.bytes]);
            same!(v.as_bytes(), &want[..], "bytes of an index of {} bytes set to {:#x}", c.bytes, c.value);
            let got = <$T as IndexStruct>::index(v.at(c.at));
            same!(got as u64, c.value, "index of {} bytes", c.bytes);
        }};
    }
    if c.value > usize::max_value() as u64 {
        return Ok(()); // on a machine of 32 bits
    }
    match c.bytes {
        1 => go!(IndexType8),
        2 => go!(IndexType16),
        3 => go!(IndexType24),
        4 => go!(IndexType32),
        5 => go!(IndexType40),
        6 => go!(IndexType48),
        7 => go!(IndexType56),
        _ => go!(IndexType64),
    }
    o.nontrivial_if(c.value > 0);
    Ok(())
}

fn main() {
    let ns = NUM_STRUCTS as u64;
    runner::main(Prop {
        id: "C02",
        level: "exploration",
        rule: "random values for every generated struct schema (fixed edge cases and seed-dependent random ones), vectors, \
               multivectors over all index widths; bytes compared with a naive bit-level encoder, and arbitrary bytes read \
               back against the naive decoder; non-trivial = a non-zero value / more than one element or item",
        assumptions: &["reference codec: naive bit loop in harness/src/model.rs", "portability: the same check run in the Miri interpreter for s390x and powerpc, where it can be set up"],
        subs: vec![
            Sub::sweep(
                "struct_write",
                ns,
                1_600,
                20_000,
                |s| {
                    let s = s as usize;
                    (rec_strategy(s), any::<u64>()).prop_map(move |(rec, perm)| One { s, rec, perm }).boxed()
                },
                check_write,
            )
            .foreign(200, 10_000),
            Sub::sweep(
                "struct_read",
                ns,
                1_600,
                20_000,
                |s| {
                    let s = s as usize;
                    (0usize..4, 0u8..6, any::<u64>()).prop_map(move |(n, pat, seed)| Bytes { s, n, pat, seed }).boxed()
                },
                check_read,
            )
            .foreign(120, 5_000),
            Sub::sweep(
                "vector",
                ns,
                400,
                6_000,
                |s| {
                    let s = s as usize;
                    let max = if STRUCTS[s].size > 1000 { 6 } else { 30 };
                    recs_strategy(s, max).prop_map(move |recs| Many { s, recs }).boxed()
                },
                check_vec,
            )
            .foreign(12, 1_000),
            Sub::sweep(
                "multi",
                MULTIS.len() as u64,
                1_200,
                15_000,
                |m| {
                    let m = m as usize;
                    let (v, i) = MULTIS[m];
                    (items_strategy(v, i, if VARIADICS[v].name == "VBig" { 4 } else { 40 }, 6), any::<u64>())
                        .prop_map(move |(items, noise)| Multi { m, items, noise })
                        .boxed()
                },
                check_multi,
            )
            .foreign(12, 1_000),
            Sub::sweep(
                "index",
                8,
                2_000,
                40_000,
                |b| {
                    let bytes = b as usize + 1;
                    (bits_strategy(bytes * 8), 0usize..5).prop_map(move |(value, at)| IdxCase { bytes, value, at }).boxed()
                },
                check_index,
            )
            .foreign(60, 2_000),
        ],
    })
}
