//! One storage with a great many resources, all read early and kept.
use crate::model::*;
use crate::runner::Obs;
use crate::util::*;
use crate::{ensure, same};
use flatdata::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io;
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Crowd {
    /// number of resources
    pub n: u16,
    /// number of directories they are spread over and their depth
    pub dirs: u8,
    pub depth: u8,
    pub seed: u64,
    /// largest payload
    pub max: u32,
    /// storage objects on the same data (memory: handles of the same one)
    pub handles: u8,
    /// of 16: how often a resource is looked up before it is written, streamed, read at once, read again later, overwritten
    pub probe: u8,
    pub stream: u8,
    pub read: u8,
    pub again: u8,
    pub overwrite: u8,
}
/// Up to `most` resources (at least 300).
pub fn crowd(most: u16) -> BoxedStrategy<Crowd> {
    let n = prop_oneof![2 => 2u16..40, 3 => 40u16..300, 2 => 300u16..=most];
    let max = prop_oneof![3 => Just(40u32), 2 => Just(600u32), 1 => Just(9000u32)];
    (n, 0u8..12, 1u8..5, any::<u64>(), max, 1u8..5, (0u8..=16, 0u8..=16, 0u8..=16, 0u8..=16, 0u8..4))
        .prop_map(|(n, dirs, depth, seed, max, handles, (probe, stream, read, again, overwrite))| Crowd {
            n,
            dirs,
            depth,
            seed,
            max,
            handles,
            probe,
            stream,
            read,
            again,
            overwrite,
        })
        .boxed()
}
fn mix(seed: u64, a: u64, b: u64) -> u64 {
    let mut x = seed ^ a.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ b.wrapping_mul(0xC2B2_AE3D_27D4_EB4F);
    x ^= x >> 31;
    x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x ^= x >> 27;
    x = x.wrapping_mul(0x94D0_49BB_1331_11EB);
    x ^ x >> 29
}
struct Held(usize, *const u8, Vec<u8>);

pub fn run(c: &Crowd, file: bool, o: &mut Obs) -> Result<(), String> {
    let d = TempDir::new();
    let root = || -> Rc<dyn ResourceStorage> {
        if file {
            FileResourceStorage::new(d.join("store"))
        } else {
            MemoryResourceStorage::new("/store")
        }
    };
    let first = root();
    let mut handles = vec![first.clone()];
    while handles.len() < c.handles as usize {
        handles.push(if file { root() } else { first.clone() });
    }
    let n = c.n as usize;
    let dir = |i: usize| -> Vec<String> {
        let k = if c.dirs == 0 { 0 } else { mix(c.seed, i as u64, 1) % (u64::from(c.dirs) + 1) };
        if k == 0 {
            vec![]
        } else {
            (0..1 + k as u8 % c.depth).map(|l| format!("d{}", (k >> l) % 7)).collect()
        }
    };
    let keys: Vec<(Vec<String>, String)> = (0..n).map(|i| (dir(i), format!("r{}", i))).collect();
    let payload = |i: usize, v: u64| {
        let x = mix(c.seed, i as u64, 2 + v);
        filler(x, if x % 9 == 0 { 0 } else { (x >> 8) as usize % (c.max as usize + 1) })
    };
    let schema = |i: usize| format!("schema {}\n", mix(c.seed, i as u64, 3) % 5);
    let mut complete: BTreeMap<usize, Vec<u8>> = BTreeMap::new();
    let mut held: Vec<Held> = vec![];
    let yes = |i: usize, t: u64, of: u8| (mix(c.seed, i as u64, 100 + t) % 16) < u64::from(of);
    // through the root or through a handle of the directory
    let place = |i: usize, t: u64| -> (Rc<dyn ResourceStorage>, String) {
        let h = handles[mix(c.seed, i as u64, 200 + t) as usize % handles.len()].clone();
        let (dirs, leaf) = &keys[i];
        if mix(c.seed, i as u64, 300 + t) % 2 == 0 {
            let mut h = h;
            for d in dirs {
                h = h.subdir(d);
            }
            (h, leaf.clone())
        } else {
            let mut parts = dirs.clone();
            parts.push(leaf.clone());
            (h, parts.join("/"))
        }
    };
    let check_held = |held: &[Held], at: &str| -> Result<(), String> {
        for Held(i, p, want) in held {
            let got = unsafe { std::slice::from_raw_parts(*p, want.len()) };
            ensure!(got == &want[..], "{}: the {} bytes of {:?} read earlier changed", at, want.len(), keys[*i]);
        }
        Ok(())
    };
    // handles of sub-directories are kept as long as the storage they come from
    let mut kept: Vec<Rc<dyn ResourceStorage>> = vec![];
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by_key(|i| mix(c.seed, *i as u64, 4));
    for (step, &i) in order.iter().enumerate() {
        let at = format!("step {}, {:?}", step, keys[i]);
        let s = schema(i);
        if yes(i, 0, c.probe) {
            let (h, rel) = place(i, 0);
            match no_panic(&at, || h.read(&rel, &s).map(|d| d.len()))? {
                Err(ResourceStorageError::Io(ref e, _)) if e.kind() == io::ErrorKind::NotFound => (),
                x => return Err(format!("{}: never written, but {:?}", at, x)),
            }
            ensure!(!no_panic(&at, || h.exists(&rel))?, "{}: never written, but exists", at);
            o.count("looked up before written", 1);
        }
        let versions = if yes(i, 1, c.overwrite) { 2 } else { 1 };
        for v in 0..versions {
            let p = payload(i, v * 10);
            let (h, rel) = place(i, 10 + v);
            if yes(i, 2 + v, c.stream) {
                let mut w = no_panic(&at, || start_vector(0, &*h, &rel, &s))?.map_err(|e| format!("{}: {:?}", at, e))?;
                for b in &p {
                    if let Err(e) = w.grow_rec(&[u64::from(*b)]) {
                        std::mem::forget(w);
                        return Err(format!("{}: grow: {:?}", at, e));
                    }
                }
                no_panic(&at, || w.close())?.map_err(|e| format!("{}: {:?}", at, e))?;
                o.count("streamed", 1);
            } else {
                no_panic(&at, || h.write(&rel, &s, &p))?.map_err(|e| format!("{}: {:?}", at, e))?;
            }
            complete.insert(i, p);
            o.count("overwritten", v);
        }
        // read it at once, and one of those written before
        let earlier = order[mix(c.seed, i as u64, 5) as usize % (step + 1)];
        for (t, k) in [(0u64, i), (1, earlier)].iter() {
            if yes(i, 20 + t, if *t == 0 { c.read } else { c.again }) {
                let (h, rel) = place(*k, 400 + step as u64 * 2 + t);
                let sk = schema(*k);
                let got = no_panic(&at, || h.read(&rel, &sk).map(|d| (d.as_ptr(), d.to_vec())))?;
                let (p, got) = got.map_err(|e| format!("{}: reading {:?}: {:?}", at, keys[*k], e))?;
                ensure!(got == complete[k], "{}: reading {:?}: {} bytes, expected {}", at, keys[*k], got.len(), complete[k].len());
                held.push(Held(*k, p, got));
                kept.push(h);
                o.count("slices held", 1);
            }
        }
        if step % 64 == 63 {
            check_held(&held, &at)?;
        }
    }
    check_held(&held, "after writing")?;
    for round in 0..2u64 {
        for i in 0..n {
            let at = format!("round {}, {:?}", round, keys[i]);
            let (h, rel) = place(i, 10_000 + round);
            ensure!(no_panic(&at, || h.exists(&rel))?, "{}: does not exist", at);
            let got = no_panic(&at, || h.read(&rel, &schema(i)).map(|d| (d.as_ptr(), d.to_vec())))?;
            let (p, got) = got.map_err(|e| format!("{}: {:?}", at, e))?;
            ensure!(got == complete[&i], "{}: {} bytes, expected {}", at, got.len(), complete[&i].len());
            held.push(Held(i, p, got));
            kept.push(h);
        }
        check_held(&held, "after reading")?;
    }
    if file {
        let mut want = BTreeMap::new();
        for (i, p) in &complete {
            let mut parts = keys[*i].0.clone();
            parts.push(keys[*i].1.clone());
            want.insert(parts.join("/"), frame(p));
            want.insert(format!("{}.schema", parts.join("/")), schema(*i).into_bytes());
        }
        let got = tree(&d.join("store"));
        same!(got.keys().collect::<Vec<_>>(), want.keys().collect::<Vec<_>>(), "files");
        for (k, v) in &want {
            ensure!(&got[k] == v, "file {:?}: {} bytes, expected {}", k, got[k].len(), v.len());
        }
    }
    o.class_if(n >= 256, "at least 256 resources");
    o.class_if(n >= 1000, "at least 1000 resources");
    o.nontrivial_if(n >= 40 && held.len() >= 40);
    Ok(())
}
