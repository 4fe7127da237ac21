use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};

thread_local! { static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }

pub fn install_quiet_hook() {
    std::panic::set_hook(Box::new(|i| {
        let s = format!("{}", i);
        LAST_PANIC.with(|l| {
            if let Ok(mut l) = l.try_borrow_mut() {
                *l = s
            }
        });
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|l| l.borrow().clone())
}
/// Runs f; a panic becomes Err(message).
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}
/// Runs code of the library for which the property promises not to panic.
pub fn no_panic<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, String> {
    catch(f).map_err(|m| format!("{}: panicked: {}", what, m))
}
pub fn must_panic<R: std::fmt::Debug>(what: &str, f: impl FnOnce() -> R) -> Result<(), String> {
    match catch(f) {
        Ok(r) => Err(format!("{}: expected a panic, got {:?}", what, r)),
        Err(_) => Ok(()),
    }
}
/// Drops x the way an unwinding thread does.
pub fn drop_unwinding<T>(x: T) {
    if std::thread::panicking() {
        return drop(x);
    }
    let _ = catch_unwind(AssertUnwindSafe(move || {
        let _x = x;
        std::panic::resume_unwind(Box::new(()))
    }));
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! same {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            let s = |x: String| if x.len() > 1500 { let mut k = 1500; while !x.is_char_boundary(k) { k -= 1 } format!("{}...", &x[..k]) } else { x };
            return Err(format!("{}: got {}, expected {}", format!($($m)*), s(format!("{:?}", a)), s(format!("{:?}", b))));
        }
    }};
}

pub fn scratch_root() -> PathBuf {
    match std::env::var("FC_SCRATCH") {
        Ok(p) => PathBuf::from(p),
        Err(_) => {
            let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
            PathBuf::from(base).join(format!("fc-{}", std::process::id()))
        }
    }
}
static DIRS: AtomicUsize = AtomicUsize::new(0);
/// A directory removed on drop.
pub struct TempDir(pub PathBuf);
impl TempDir {
    pub fn new() -> TempDir {
        let n = DIRS.fetch_add(1, Ordering::SeqCst);
        let p = scratch_root().join(format!("w{}-{}", std::process::id(), n));
        std::fs::create_dir_all(&p).expect("harness: scratch directory");
        TempDir(p)
    }
    pub fn path(&self) -> PathBuf {
        self.0.clone()
    }
    pub fn join(&self, s: &str) -> PathBuf {
        self.0.join(s)
    }
}
impl Drop for TempDir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// All regular files below dir: relative path -> bytes.
pub fn tree(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    fn walk(base: &Path, d: &Path, out: &mut BTreeMap<String, Vec<u8>>) {
        if let Ok(rd) = std::fs::read_dir(d) {
            for e in rd {
                let p = e.expect("harness: readdir").path();
                if p.is_dir() {
                    walk(base, &p, out);
                } else {
                    let rel = p.strip_prefix(base).unwrap().to_string_lossy().into_owned();
                    out.insert(rel, std::fs::read(&p).expect("harness: read file"));
                }
            }
        }
    }
    let mut out = BTreeMap::new();
    walk(dir, dir, &mut out);
    out
}
pub fn put_file(dir: &Path, name: &str, bytes: &[u8]) {
    let p = dir.join(name);
    if let Some(d) = p.parent() {
        std::fs::create_dir_all(d).expect("harness: mkdir");
    }
    std::fs::write(&p, bytes).expect("harness: write file");
}

/// The interpreter knows by itself what is accessible.
#[cfg(miri)]
pub struct GuardBuf {
    data: Vec<u8>,
    len: usize,
}
#[cfg(miri)]
impl GuardBuf {
    pub fn new(bytes: &[u8], tail: &[u8]) -> GuardBuf {
        GuardBuf { data: [bytes, tail].concat(), len: bytes.len() }
    }
    pub fn bytes(&self) -> &[u8] {
        &self.data[..self.len]
    }
}
/// Bytes placed so that `tail` bytes after their end an inaccessible page begins.
#[cfg(not(miri))]
pub struct GuardBuf {
    base: *mut u8,
    total: usize,
    start: usize,
    len: usize,
}
#[cfg(not(miri))]
impl GuardBuf {
    pub fn new(bytes: &[u8], tail: &[u8]) -> GuardBuf {
        let page = 4096;
        let need = bytes.len() + tail.len();
        let body = (need + page - 1) / page * page;
        let total = body + 2 * page;
        unsafe {
            let base = libc::mmap(
                std::ptr::null_mut(),
                total,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            ) as *mut u8;
            assert!(base as isize != -1, "harness: mmap");
            if body > 0 {
                assert_eq!(
                    libc::mprotect(base.add(page) as *mut _, body, libc::PROT_READ | libc::PROT_WRITE),
                    0,
                    "harness: mprotect"
                );
            }
            let start = page + body - need;
            std::ptr::copy_nonoverlapping(bytes.as_ptr(), base.add(start), bytes.len());
            std::ptr::copy_nonoverlapping(tail.as_ptr(), base.add(start + bytes.len()), tail.len());
            GuardBuf { base, total, start, len: bytes.len() }
        }
    }
    pub fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.base.add(self.start), self.len) }
    }
}
#[cfg(not(miri))]
impl Drop for GuardBuf {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.base as *mut _, self.total);
        }
    }
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in bytes {
        h = (h ^ u64::from(*b)).wrapping_mul(0x100_0000_01b3);
    }
    h ^ (h >> 29)
}
/// Deterministic filler bytes.
pub fn filler(seed: u64, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n + 8);
    let mut z = seed.wrapping_add(0x9e37_79b9_7f4a_7c15);
    while v.len() < n {
        z ^= z << 13;
        z ^= z >> 7;
        z ^= z << 17;
        v.extend_from_slice(&z.to_le_bytes());
    }
    v.truncate(n);
    v
}
/// Deterministic small generator for bulk values (bytes of a 40 MiB vector are derived from one seed).
pub struct Mix(pub u64);
impl Mix {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}

/// Lifts the limit on address space workers run with, as long as it lives.
pub struct Unlimited(libc::rlimit);
impl Unlimited {
    pub fn new() -> Unlimited {
        unsafe {
            let mut old: libc::rlimit = std::mem::zeroed();
            libc::getrlimit(libc::RLIMIT_AS, &mut old);
            let new = libc::rlimit { rlim_cur: old.rlim_max, rlim_max: old.rlim_max };
            assert_eq!(libc::setrlimit(libc::RLIMIT_AS, &new), 0, "harness: setrlimit");
            Unlimited(old)
        }
    }
}
impl Drop for Unlimited {
    fn drop(&mut self) {
        unsafe {
            libc::setrlimit(libc::RLIMIT_AS, &self.0);
        }
    }
}
/// Leaves only so much address space more than is in use, as long as it lives.
pub struct Scarce(libc::rlimit);
impl Scarce {
    pub fn new(more: usize) -> Scarce {
        let pages: usize = std::fs::read_to_string("/proc/self/statm").expect("harness: statm").split(' ').next().unwrap().parse().unwrap();
        unsafe {
            let mut old: libc::rlimit = std::mem::zeroed();
            libc::getrlimit(libc::RLIMIT_AS, &mut old);
            let new = libc::rlimit { rlim_cur: ((pages * 4096 + more) as libc::rlim_t).min(old.rlim_cur), rlim_max: old.rlim_max };
            assert_eq!(libc::setrlimit(libc::RLIMIT_AS, &new), 0, "harness: setrlimit");
            Scarce(old)
        }
    }
}
impl Drop for Scarce {
    fn drop(&mut self) {
        unsafe {
            libc::setrlimit(libc::RLIMIT_AS, &self.0);
        }
    }
}
/// Zero bytes that take memory only where they are written to.
pub struct Space {
    base: *mut u8,
    len: usize,
    _lim: Unlimited,
}
impl Space {
    pub fn new(len: usize) -> Space {
        let lim = Unlimited::new();
        unsafe {
            let flags = libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE;
            let base = libc::mmap(std::ptr::null_mut(), len.max(1), libc::PROT_READ | libc::PROT_WRITE, flags, -1, 0);
            assert!(base != libc::MAP_FAILED, "harness: mmap");
            libc::madvise(base, len, libc::MADV_NOHUGEPAGE);
            Space { base: base as *mut u8, len, _lim: lim }
        }
    }
    pub fn get(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.base, self.len) }
    }
    pub fn get_mut(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.base, self.len) }
    }
    pub fn put(&mut self, at: usize, b: &[u8]) {
        self.get_mut()[at..at + b.len()].copy_from_slice(b)
    }
}
impl Drop for Space {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.base as *mut _, self.len.max(1));
        }
    }
}

/// At most `most` of the entries: the first and last ones and some, evenly spread, between.
pub fn thin<T>(v: Vec<T>, most: usize, seed: u64) -> Vec<T> {
    let n = v.len();
    if n <= most {
        return v;
    }
    let ends = most / 3;
    let middle = most - 2 * ends;
    let step = (n - 2 * ends) as u64;
    let keep: std::collections::BTreeSet<usize> =
        (0..middle as u64).map(|k| ends + ((k * step + Mix(seed ^ k).next() % step) / middle as u64) as usize).collect();
    v.into_iter().enumerate().filter(|(i, _)| *i < ends || *i >= n - ends || keep.contains(i)).map(|x| x.1).collect()
}
