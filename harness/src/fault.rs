//! Interposition of the libc calls files are worked on with. Included (by #[path]) in the binaries that need it:
//! the definitions here take precedence over libc's for everything linked into the binary. Disarmed, they forward.
//!
//! A plan counts calls from arming on and, at a chosen call, kills the process, fails it, or shortens it.
#![allow(dead_code, static_mut_refs)]
use libc::{c_char, c_int, c_uint, c_void, mode_t, off64_t, off_t, size_t, ssize_t};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    /// opening for writing or creating
    OpenW,
    OpenR,
    Write,
    Seek,
    Mkdir,
    /// rename, unlink, ftruncate, fsync, link ...
    Other,
    /// stat and the like
    Stat,
    /// fstat and the like
    Meta,
    Map,
    Read,
    Close,
}
impl Op {
    pub fn mutating(self) -> bool {
        matches!(self, Op::OpenW | Op::Write | Op::Mkdir | Op::Other)
    }
}
#[derive(Clone, Copy, Debug)]
pub enum Act {
    /// dies at call `n` (counting mutating calls), after `bytes` of it if it is a write
    Die { n: usize, bytes: usize },
    /// call `n` (counting all calls) and, if persistent, all later ones of its kind fail
    Fail { n: usize, errno: c_int, persistent: bool },
    /// write number `n` and, if persistent, all later ones store nothing and say so
    Zero { n: usize, persistent: bool },
    /// writes store at most `max` bytes; every `every`-th write or open is interrupted first
    Rough { max: usize, every: usize },
    /// every call that changes something fails
    Broken { errno: c_int },
    /// nothing can be changed (opening for writing included)
    ReadOnly { errno: c_int },
    /// only records
    Record,
}
pub struct State {
    armed: bool,
    act: Act,
    calls: usize,
    mutations: usize,
    interrupted: bool,
    roughs: usize,
    pub log: Vec<(Op, usize)>,
    /// kind of the call the plan hit
    pub fired: Option<Op>,
    pub hits: usize,
}
static mut S: State =
    State { armed: false, act: Act::Record, calls: 0, mutations: 0, interrupted: false, roughs: 0, log: Vec::new(), fired: None, hits: 0 };

static mut SPARSE: bool = false;
/// While on, large writes leave holes in files where all bytes are zero.
pub fn sparse(on: bool) {
    unsafe { SPARSE = on }
}
/// Stores n bytes at the given or the current position, blocks of zeros as holes.
unsafe fn sparse_write(fd: c_int, buf: *const u8, n: usize, off: Option<off64_t>) -> ssize_t {
    const BLOCK: usize = 4096;
    static ZERO: [u8; BLOCK] = [0; BLOCK];
    let at = match off {
        Some(o) => o,
        None => libc::syscall(libc::SYS_lseek, fd, 0, libc::SEEK_CUR) as off64_t,
    };
    if at < 0 {
        return -1;
    }
    let put = |from: usize, to: usize| {
        let mut p = from;
        while p < to {
            let r = raw_pwrite(fd, buf.add(p) as *const _, to - p, at + p as off64_t);
            if r <= 0 {
                return false;
            }
            p += r as usize;
        }
        true
    };
    let b = std::slice::from_raw_parts(buf, n);
    let (mut from, mut p) = (0, 0);
    for blk in b.chunks(BLOCK) {
        if blk == &ZERO[..blk.len()] {
            if !put(from, p) {
                return -1;
            }
            from = p + blk.len();
        }
        p += blk.len();
    }
    if !put(from, n) {
        return -1;
    }
    let end = at + n as off64_t;
    if from == n {
        // what is there must be zero and long enough
        let mut st: libc::stat = std::mem::zeroed();
        if libc::syscall(libc::SYS_fstat, fd, &mut st) < 0 || st.st_size < end && libc::syscall(libc::SYS_ftruncate, fd, end) < 0 {
            return -1;
        }
    }
    if off.is_none() {
        libc::syscall(libc::SYS_lseek, fd, end, libc::SEEK_SET);
    }
    n as ssize_t
}

pub fn arm(act: Act) {
    unsafe {
        S = State { armed: true, act, calls: 0, mutations: 0, interrupted: false, roughs: 0, log: Vec::with_capacity(4096), fired: None, hits: 0 };
    }
}
/// (calls seen, kind of call hit, number of calls hit)
pub fn disarm() -> (Vec<(Op, usize)>, Option<Op>, usize) {
    unsafe {
        S.armed = false;
        (std::mem::replace(&mut S.log, vec![]), S.fired, S.hits)
    }
}
enum Do {
    Go,
    Err,
    Zero,
    Short(usize),
}
unsafe fn set_errno(e: c_int) {
    *libc::__errno_location() = e;
}
unsafe fn die() -> ! {
    libc::syscall(libc::SYS_exit_group, 77);
    loop {}
}
/// Called once per interposed call with its size (writes) before it is made.
unsafe fn step(op: Op, len: usize) -> Do {
    if !S.armed {
        return Do::Go;
    }
    if S.log.len() < S.log.capacity() {
        S.log.push((op, len));
    }
    let call = S.calls;
    S.calls += 1;
    let m = S.mutations;
    if op.mutating() {
        S.mutations += 1;
    }
    match S.act {
        Act::Record => Do::Go,
        Act::Die { n, bytes } => {
            if op.mutating() && m == n {
                if op == Op::Write && bytes > 0 {
                    S.armed = false;
                    return Do::Short(bytes);
                }
                die()
            }
            Do::Go
        }
        Act::Fail { n, errno, persistent } => {
            if call == n || persistent && call > n && S.fired == Some(op) {
                S.fired = Some(op);
                S.hits += 1;
                set_errno(errno);
                return Do::Err;
            }
            Do::Go
        }
        Act::Broken { errno } => {
            if op.mutating() || op == Op::Seek {
                S.fired = Some(op);
                S.hits += 1;
                set_errno(errno);
                return Do::Err;
            }
            Do::Go
        }
        Act::ReadOnly { errno } => {
            if op.mutating() {
                S.fired = Some(op);
                S.hits += 1;
                set_errno(errno);
                return Do::Err;
            }
            Do::Go
        }
        Act::Zero { n, persistent } => {
            if op == Op::Write && len > 0 && (call == n || persistent && call > n) {
                S.fired = Some(op);
                S.hits += 1;
                return Do::Zero;
            }
            Do::Go
        }
        Act::Rough { max, every } => {
            if !matches!(op, Op::Write | Op::OpenW | Op::OpenR) {
                return Do::Go;
            }
            S.roughs += 1;
            if every > 0 && S.roughs % every == 0 && !S.interrupted {
                S.interrupted = true;
                S.hits += 1;
                set_errno(libc::EINTR);
                return Do::Err;
            }
            S.interrupted = false;
            if op == Op::Write && len > max {
                S.hits += 1;
                return Do::Short(max);
            }
            Do::Go
        }
    }
}
unsafe fn dying() -> bool {
    matches!(S.act, Act::Die { .. }) && !S.armed && S.calls > 0
}
unsafe fn raw_write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t
}
unsafe fn raw_pwrite(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    libc::syscall(libc::SYS_pwrite64, fd, buf, n, off) as ssize_t
}
unsafe fn do_write(fd: c_int, buf: *const c_void, n: size_t, off: Option<off64_t>) -> ssize_t {
    let go = |n: size_t| match off {
        Some(o) => raw_pwrite(fd, buf, n, o),
        None => raw_write(fd, buf, n),
    };
    if fd <= 2 {
        return go(n);
    }
    if SPARSE && n >= 1024 {
        return sparse_write(fd, buf as *const u8, n.min(0x7fff_f000), off);
    }
    match step(Op::Write, n) {
        Do::Go => go(n),
        Do::Err => -1,
        Do::Zero => 0,
        Do::Short(k) => {
            let r = go(k.min(n));
            if dying() {
                die()
            }
            r
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    do_write(fd, buf, n, None)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    do_write(fd, buf, n, Some(off))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    do_write(fd, buf, n, Some(off))
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    let v = std::slice::from_raw_parts(iov, n as usize);
    let total: usize = v.iter().map(|x| x.iov_len).sum();
    if fd <= 2 {
        return libc::syscall(libc::SYS_writev, fd, iov, n) as ssize_t;
    }
    if SPARSE {
        let mut done = 0;
        for x in v.iter().filter(|x| x.iov_len > 0) {
            let r = do_write(fd, x.iov_base, x.iov_len, None);
            if r < 0 {
                return if done > 0 { done } else { r };
            }
            done += r;
            if (r as usize) < x.iov_len {
                break;
            }
        }
        return done;
    }
    match step(Op::Write, total) {
        Do::Go => libc::syscall(libc::SYS_writev, fd, iov, n) as ssize_t,
        Do::Err => -1,
        Do::Zero => 0,
        Do::Short(k) => {
            let mut left = k;
            let mut done = 0;
            for x in v {
                let w = x.iov_len.min(left);
                if w > 0 {
                    done += raw_write(fd, x.iov_base, w);
                    left -= w;
                }
            }
            if dying() {
                die()
            }
            done
        }
    }
}
unsafe fn do_open(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let w = flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC) != 0;
    match step(if w { Op::OpenW } else { Op::OpenR }, 0) {
        Do::Err => -1,
        _ => libc::syscall(libc::SYS_openat, dir, path, flags, mode) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    do_open(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    match step(Op::Seek, 0) {
        Do::Err => -1,
        _ => libc::syscall(libc::SYS_lseek, fd, off, whence) as off64_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off_t, whence: c_int) -> off_t {
    lseek64(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    match step(Op::Mkdir, 0) {
        Do::Err => -1,
        _ => libc::syscall(libc::SYS_mkdir, path, mode) as c_int,
    }
}
macro_rules! other {
    ($($name:ident, $sys:expr, ($($a:ident: $t:ty),*);)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> c_int {
            match step(Op::Other, 0) {
                Do::Err => -1,
                _ => libc::syscall($sys, $($a),*) as c_int,
            }
        } )* };
}
other! {
    rename, libc::SYS_rename, (a: *const c_char, b: *const c_char);
    unlink, libc::SYS_unlink, (a: *const c_char);
    rmdir, libc::SYS_rmdir, (a: *const c_char);
    link, libc::SYS_link, (a: *const c_char, b: *const c_char);
    symlink, libc::SYS_symlink, (a: *const c_char, b: *const c_char);
    ftruncate64, libc::SYS_ftruncate, (fd: c_int, n: off64_t);
    ftruncate, libc::SYS_ftruncate, (fd: c_int, n: off64_t);
    fsync, libc::SYS_fsync, (fd: c_int);
    fdatasync, libc::SYS_fdatasync, (fd: c_int);
    msync, libc::SYS_msync, (p: *mut c_void, n: size_t, f: c_int);
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: c_uint, buf: *mut c_void) -> c_int {
    match step(if flags & libc::AT_EMPTY_PATH != 0 { Op::Meta } else { Op::Stat }, 0) {
        Do::Err => -1,
        _ => libc::syscall(libc::SYS_statx, dir, path, flags, mask, buf) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, buf: *mut c_void) -> c_int {
    match step(Op::Stat, 0) {
        Do::Err => -1,
        _ => libc::syscall(libc::SYS_stat, path, buf) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, buf: *mut c_void) -> c_int {
    match step(Op::Meta, 0) {
        Do::Err => -1,
        _ => libc::syscall(libc::SYS_fstat, fd, buf) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(p: *mut c_void, n: size_t, prot: c_int, flags: c_int, fd: c_int, off: off64_t) -> *mut c_void {
    if fd >= 0 {
        if let Do::Err = step(Op::Map, n) {
            return libc::MAP_FAILED;
        }
    }
    libc::syscall(libc::SYS_mmap, p, n, prot, flags, fd, off) as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn mmap(p: *mut c_void, n: size_t, prot: c_int, flags: c_int, fd: c_int, off: off64_t) -> *mut c_void {
    mmap64(p, n, prot, flags, fd, off)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if fd > 2 {
        if let Do::Err = step(Op::Read, n) {
            return -1;
        }
    }
    libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t
}
