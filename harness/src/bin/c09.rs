//! C09: a storage against a map.
#[path = "../fault.rs"]
mod fault;
use flatcheck::giant::*;
use flatcheck::runner::{self, Obs, Profiles, Prop, Sub};
use flatcheck::stprog::*;
use flatcheck::util::*;
use flatcheck::{ensure, same};
use flatdata::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::rc::Rc;

/// Payloads of tens of megabytes, written in one go or streamed in two pieces.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bulk {
    file: bool,
    first: (u64, usize),
    /// what the name held before
    before: Option<usize>,
    split: Option<u32>,
}
fn bulk() -> BoxedStrategy<Bulk> {
    let mb = 1 << 20;
    let size = prop_oneof![
        4 => (1usize..=8, -20i64..=20).prop_map(move |(k, d)| ((k * 16 * mb) as i64 + d) as usize),
        1 => (20u32..27, -20i64..=20).prop_map(|(p, d)| ((1i64 << p) + d) as usize),
        1 => mb..100 * mb,
    ];
    (any::<bool>(), (any::<u64>(), size), prop::option::weighted(0.3, 0..3 * mb), prop::option::weighted(0.3, any::<u32>()))
        .prop_map(|(file, first, before, split)| Bulk { file, first, before, split })
        .boxed()
}
fn check_bulk(c: &Bulk, o: &mut Obs) -> Result<(), String> {
    let d = TempDir::new();
    let st: Rc<dyn ResourceStorage> = if c.file { FileResourceStorage::new(d.path()) } else { MemoryResourceStorage::new("/m") };
    let data = filler(c.first.0, c.first.1);
    if let Some(n) = c.before {
        st.write("x", "before", &filler(7, n)).map_err(|e| format!("write: {:?}", e))?;
    }
    match c.split {
        None => st.write("x", "schema", &data).map_err(|e| format!("write: {:?}", e))?,
        Some(k) => {
            let k = k as usize % (data.len() + 1);
            let s = st.create_output_stream("x.schema").map_err(|e| format!("{:?}", e))?;
            s.borrow_mut().write_all(b"schema").map_err(|e| format!("{:?}", e))?;
            let s = st.create_output_stream("x").map_err(|e| format!("{:?}", e))?;
            for p in &[&(data.len() as u64).to_le_bytes()[..], &data[..k], &data[k..], &[0; 8][..]] {
                s.borrow_mut().write_all(p).map_err(|e| format!("{:?}", e))?;
            }
            o.class("streamed in two pieces");
        }
    }
    let later: Rc<dyn ResourceStorage> = if c.file { FileResourceStorage::new(d.path()) } else { st.clone() };
    for st in &[&st, &later] {
        let got = st.read("x", "schema").map_err(|e| format!("read: {:?}", e))?;
        same!(got.len(), data.len(), "length");
        if got != &data[..] {
            return Err(format!("contents differ from byte {:?} on", got.iter().zip(&data).position(|(a, b)| a != b)));
        }
        let raw = st.read_resource("x").map_err(|e| format!("{:?}", e))?;
        same!(raw.len(), data.len() + 16, "stored size");
        ensure!(raw[..8] == (data.len() as u64).to_le_bytes(), "header {:?}", &raw[..8]);
        ensure!(raw[8 + data.len()..] == [0; 8], "padding {:?}", &raw[8 + data.len()..]);
    }
    o.class_if(c.file, "file");
    o.nontrivial();
    Ok(())
}
/// Payloads of gigabytes, mostly zeros, on disk.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Giant {
    size: u64,
    marks: Vec<(At, u8)>,
    /// in pieces of this size
    pieces: Option<u32>,
}
fn giant() -> BoxedStrategy<Giant> {
    (giant_size(), prop::collection::vec((at(), any::<u8>()), 1..8), prop::option::of((1u32 << 28)..u32::max_value()))
        .prop_map(|(size, marks, pieces)| Giant { size, marks, pieces })
        .boxed()
}
fn check_giant(c: &Giant, o: &mut Obs) -> Result<(), String> {
    let n = c.size as usize;
    let mut space = Space::new(n);
    let mut set = BTreeMap::new();
    for (a, b) in &c.marks {
        let at = a.get(n, 1);
        space.put(at, &[*b]);
        set.remove(&(at as u64));
        put(&mut set, at as u64, &[*b]);
    }
    let d = TempDir::new();
    let st = FileResourceStorage::new(d.path());
    fault::sparse(true);
    let r = match c.pieces {
        None => st.write("x", "schema", space.get()).map_err(|e| format!("write: {:?}", e)),
        Some(k) => (|| {
            let s = st.create_output_stream("x.schema").map_err(|e| format!("{:?}", e))?;
            s.borrow_mut().write_all(b"schema").map_err(|e| format!("{:?}", e))?;
            let s = st.create_output_stream("x").map_err(|e| format!("{:?}", e))?;
            let mut s = s.borrow_mut();
            s.write_all(&[0xff; 8]).map_err(|e| format!("{:?}", e))?;
            for p in space.get().chunks(k as usize) {
                s.write_all(p).map_err(|e| format!("{:?}", e))?;
            }
            s.write_all(&[0; 8]).map_err(|e| format!("{:?}", e))?;
            s.seek(std::io::SeekFrom::Start(0)).map_err(|e| format!("{:?}", e))?;
            s.write_all(&c.size.to_le_bytes()).map_err(|e| format!("{:?}", e))
        })(),
    };
    fault::sparse(false);
    r?;
    stored_is(&d.join("x"), c.size, &set)?;
    let later = FileResourceStorage::new(d.path());
    let got = later.read("x", "schema").map_err(|e| format!("read: {:?}", e))?;
    same!(got.len(), n, "length");
    for (a, _) in &c.marks {
        let at = a.get(n, 1);
        same!(got[at], set.get(&(at as u64)).cloned().unwrap_or(0), "byte {}", at);
    }
    o.class_if(c.size >= 1 << 32, "4 GB or more");
    o.nontrivial_if(!set.is_empty());
    Ok(())
}

fn check_mem(c: &StCase, o: &mut Obs) -> Result<(), String> {
    run(c, false, o).map(|_| ())
}
fn check_file(c: &StCase, o: &mut Obs) -> Result<(), String> {
    run(c, true, o).map(|_| ())
}
fn main() {
    runner::main(Prop {
        id: "C09",
        level: "exploration",
        rule: "programs of up to 40 steps (write, stream through a vector or a raw output stream with interleaved partial writes, \
               read with right and wrong schemas, raw read, exists, sub-directory handles, second storage object) over up to 5 \
               names x 3 directories (nested), against a map from path to last complete contents; every name is checked through \
               every handle at the end, files byte for byte; \
               one in four storages is named by an odd path (not UTF-8, relative, a symlink ...); 'outside': files are also removed or replaced (by rename) without the storage being told; payloads of 1 to 130 MB and (on files that keep holes) of 2 to 8 GB, in one go and in pieces; non-trivial = two or more resources, or one overwritten",
        assumptions: &[
            "names are relative, without '.' and '..' components, do not end in '.schema', and no name is a resource and a directory at once",
            "slices of a resource handed out before it is overwritten are not used afterwards",
        ],
        subs: vec![
            Sub::new("memory", 12_000, 300_000, || st_case(70_000, 40), check_mem),
            Sub::new("file", 12_000, 300_000, || st_case(70_000, 40), check_file),
            Sub::new("outside", 8_000, 200_000, || st_case_in(70_000, 40, true), check_file),
            Sub::new("bulk", 48, 1_200, bulk, check_bulk).profiles(Profiles::Release).shrink(20),
            Sub::new("giant", 8, 200, giant, check_giant).profiles(Profiles::Release).shards(4).shrink(10),
            Sub::new("large", 100, 2_000, || st_case(3_000_000, 12), check_file),
        ],
    })
}
