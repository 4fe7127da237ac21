//! Sizes beyond 32 bits, on address space and files that are mostly holes.
use crate::util::*;
use proptest::prelude::*;
use std::collections::BTreeMap;
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::os::unix::io::AsRawFd;
use std::path::Path;

/// Sizes next to powers of two from 2^31 to 2^33 and in between.
pub fn giant_size() -> BoxedStrategy<u64> {
    prop_oneof![
        4 => (31u32..34, -70_000i64..=70_000).prop_map(|(p, d)| ((1i64 << p) + d) as u64),
        2 => (31u32..34, -20i64..=20).prop_map(|(p, d)| ((1i64 << p) + d) as u64),
        1 => (1u64 << 32)..(1 << 33) + 1000,
        1 => Just((1u64 << 32) + (1 << 31)),
    ]
    .boxed()
}
/// All bytes of a file that are not zero (holes are skipped).
pub fn nonzero_bytes(path: &Path) -> Result<(u64, BTreeMap<u64, u8>), String> {
    let f = File::open(path).map_err(|e| format!("{:?}", e))?;
    let len = f.metadata().map_err(|e| format!("{:?}", e))?.len();
    let mut out = BTreeMap::new();
    let mut buf = vec![0; 1 << 20];
    let mut at = 0i64;
    loop {
        let start = unsafe { libc::lseek64(f.as_raw_fd(), at, libc::SEEK_DATA) };
        if start < 0 {
            return Ok((len, out));
        }
        let end = unsafe { libc::lseek64(f.as_raw_fd(), start, libc::SEEK_HOLE) } as u64;
        let mut p = start as u64;
        while p < end {
            let n = (end - p).min(buf.len() as u64) as usize;
            f.read_exact_at(&mut buf[..n], p).map_err(|e| format!("harness: {:?}", e))?;
            for (i, chunk) in buf[..n].chunks(512).enumerate() {
                if chunk.iter().any(|b| *b != 0) {
                    for (j, b) in chunk.iter().enumerate().filter(|b| *b.1 != 0) {
                        out.insert(p + (i * 512 + j) as u64, *b);
                    }
                }
            }
            if out.len() > 2_000_000 {
                return Err("far too many bytes set".into());
            }
            p += n as u64;
        }
        at = end as i64;
    }
}
pub fn put(m: &mut BTreeMap<u64, u8>, at: u64, bytes: &[u8]) {
    for (i, b) in bytes.iter().enumerate() {
        if *b != 0 {
            m.insert(at + i as u64, *b);
        }
    }
}
/// Compares a stored file with its payload, given by its size and the bytes set.
pub fn stored_is(path: &Path, len: u64, set: &BTreeMap<u64, u8>) -> Result<(), String> {
    let (got_len, got) = nonzero_bytes(path)?;
    ensure_eq("size of the file", got_len, len + 16)?;
    let mut want = BTreeMap::new();
    put(&mut want, 0, &len.to_le_bytes());
    for (k, b) in set {
        want.insert(k + 8, *b);
    }
    if got != want {
        let missing: Vec<_> = want.iter().filter(|(k, b)| got.get(k) != Some(b)).take(5).collect();
        let extra: Vec<_> = got.iter().filter(|(k, b)| want.get(k) != Some(b)).take(5).collect();
        return Err(format!("contents of the file: missing {:?}, instead {:?} (file offset, byte)", missing, extra));
    }
    Ok(())
}
fn ensure_eq(what: &str, a: u64, b: u64) -> Result<(), String> {
    if a == b {
        Ok(())
    } else {
        Err(format!("{}: got {}, expected {}", what, a, b))
    }
}
/// Position in 0..n: a fraction, or next to one of the landmarks (multiples of 2^31 / 2^32 bytes, both ends).
#[derive(Clone, Copy, Debug, serde::Serialize, serde::Deserialize)]
pub enum At {
    Frac(u32),
    Start(u8),
    End(u8),
    /// element that contains byte k * 2^31, plus this
    Byte(u8, i8),
}
impl At {
    pub fn get(self, n: usize, size: usize) -> usize {
        if n == 0 {
            return 0;
        }
        let i = match self {
            At::Frac(f) => (f as u128 * n as u128 >> 32) as usize,
            At::Start(k) => k as usize,
            At::End(k) => (n - 1).saturating_sub(k as usize),
            At::Byte(k, d) => (((k as i128) << 31) / size as i128 + i128::from(d)).max(0) as usize,
        };
        i.min(n - 1)
    }
}
pub fn at() -> BoxedStrategy<At> {
    prop_oneof![
        2 => any::<u32>().prop_map(At::Frac),
        1 => (0u8..3).prop_map(At::Start),
        2 => (0u8..3).prop_map(At::End),
        4 => (1u8..5, -2i8..=2).prop_map(|(k, d)| At::Byte(k, d)),
    ]
    .boxed()
}
#[allow(dead_code)]
pub fn unlimited() -> Unlimited {
    Unlimited::new()
}
