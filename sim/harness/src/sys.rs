#![allow(invalid_runtime_symbol_definitions, unsafe_op_in_unsafe_fn, static_mut_refs, clippy::all)]
//! The operating-system seam: libc entry points interposed by the harness executable.
//!
//! Inside a simulation every path below `/simws` is redirected to the run's private scratch directory,
//! directory listings are permuted, errors are injected, the clock is the simulated one, random bytes
//! come from the seed, and child processes are simulated tasks.  Outside of a simulation (and for every
//! other path) the calls go straight to the kernel.
use libc::*;
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};
use std::ffi::{CStr, CString};
use std::sync::{Arc, Mutex, OnceLock};

pub trait Arg { fn arg(self) -> usize; }
impl<T> Arg for *const T { fn arg(self) -> usize { self as usize } }
impl<T> Arg for *mut T { fn arg(self) -> usize { self as usize } }
impl Arg for c_int { fn arg(self) -> usize { self as isize as usize } }
impl Arg for c_uint { fn arg(self) -> usize { self as usize } }
impl Arg for usize { fn arg(self) -> usize { self } }
impl Arg for u64 { fn arg(self) -> usize { self as usize } }
impl Arg for i64 { fn arg(self) -> usize { self as usize } }
/// the kernel entry itself
#[inline(never)]
unsafe fn kernel(n: c_long, a: [usize; 6]) -> c_long {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5], lateout("rcx") _, lateout("r11") _, options(nostack));
    if r < 0 && r > -4096 { *__errno_location() = -r as c_int; -1 } else { r as c_long }
}
macro_rules! sc { ($n:expr $(, $a:expr)*) => {{ let v = [$(Arg::arg($a)),*]; let mut a = [0usize; 6]; a[..v.len()].copy_from_slice(&v); kernel($n, a) }} }
/// the standard library's locks, parking and one-time initialisation block through here
#[unsafe(no_mangle)]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if n == SYS_futex && simrt::in_sim() && !simrt::in_rt() {
        let op = b as c_int & !(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
        if op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET {
            let word = &*(a as *const std::sync::atomic::AtomicU32);
            let ord = std::sync::atomic::Ordering::SeqCst;
            if word.load(ord) != c as u32 { set_errno(EAGAIN); return -1; }
            let deadline = if d == 0 { None } else {
                let ts = &*(d as *const timespec);
                let t = ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64;
                Some(if op == FUTEX_WAIT { simrt::now() + t } else { t.saturating_sub(CLOCK_BASE) })
            };
            if simrt::block_until("futex", deadline, &mut || word.load(ord) != c as u32) { return 0; }
            set_errno(ETIMEDOUT);
            return -1;
        }
    }
    kernel(n, [a, b, c, d, e, f])
}
const CLOCK_BASE: u64 = 1_000_000_000_000;
pub fn real_root() -> String { REAL_ROOT.get().cloned().unwrap_or_default() }
pub const VROOT: &str = "/simws";
static REAL_ROOT: OnceLock<String> = OnceLock::new();
thread_local! { static BYPASS: Cell<u32> = const { Cell::new(0) }; }

pub fn set_root(real: &str) { let _ = REAL_ROOT.set(real.to_string()); }
/// harness-side file access: virtual paths are translated but never delayed or failed
pub struct Bypass(());
pub fn bypass() -> Bypass { BYPASS.with(|b| b.set(b.get() + 1)); Bypass(()) }
impl Drop for Bypass { fn drop(&mut self) { BYPASS.with(|b| b.set(b.get() - 1)); } }
fn bypassed() -> bool { BYPASS.with(|b| b.get() > 0) }

// ------------------------------------------------------------------------------------- faults
#[derive(Default)]
pub struct Faults {
    pub on: bool,
    pub rng: Option<simrt::Rng>,
    /// per mille
    pub open_err: u32,
    pub read_err: u32,
    pub short_read: u32,
    pub dir_err: u32,
    pub stat_err: u32,
    /// always: directory entries permuted by this generator when present
    pub dir_rng: Option<simrt::Rng>,
    pub counts: BTreeMap<&'static str, u64>,
    /// paths that always fail to open (EACCES)
    pub unreadable: Vec<String>,
    /// bytes that can still be written before the disk is full
    pub space: Option<u64>,
}
/// a change to a file below the virtual root: (call, path, content afterwards)
pub static CHANGES: Mutex<Vec<(&'static str, String, Option<Vec<u8>>)>> = Mutex::new(vec![]);
/// files written to and not yet forced to the disk
static UNSYNCED: Mutex<std::collections::BTreeSet<String>> = Mutex::new(std::collections::BTreeSet::new());
static WRITERS: Mutex<BTreeMap<c_int, String>> = Mutex::new(BTreeMap::new());
fn changed(call: &'static str, path: &str) {
    if bypassed() || !simrt::in_sim() { return; }
    let _b = bypass();
    let c = std::fs::read(format!("{}{}", real_root(), &path[VROOT.len()..])).ok();
    let mut g = CHANGES.lock().unwrap_or_else(|e| e.into_inner());
    // no run has that many fixes to apply: make it end, to be reported as endless
    if g.len() >= 3000 { faults(|f| f.space = Some(0)); count("endless"); return; }
    g.push((call, path.to_string(), c));
}
pub static FAULTS: Mutex<Option<Faults>> = Mutex::new(None);
pub fn faults<R>(f: impl FnOnce(&mut Faults) -> R) -> R { f(FAULTS.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(Faults::default)) }
fn inject(kind: &'static str, rate: impl Fn(&Faults) -> u32) -> bool {
    if !simrt::in_sim() || bypassed() { return false; }
    faults(|f| {
        if !f.on { return false; }
        let r = rate(f);
        if r == 0 { return false; }
        let Some(rng) = f.rng.as_mut() else { return false };
        let hit = rng.chance(r, 1000);
        if hit { *f.counts.entry(kind).or_insert(0) += 1; }
        hit
    })
}
fn count(kind: &'static str) { faults(|f| *f.counts.entry(kind).or_insert(0) += 1) }
fn pick_errno() -> c_int {
    faults(|f| { let r = f.rng.as_mut().map(|r| r.below(4)).unwrap_or(0); [EIO, EACCES, ENOENT, EMFILE][r] })
}
fn set_errno(e: c_int) { unsafe { *__errno_location() = e } }

// -------------------------------------------------------------------------------------- paths
fn translate(p: *const c_char) -> Option<CString> {
    if p.is_null() { return None; }
    let s = unsafe { CStr::from_ptr(p) }.to_bytes();
    if !s.starts_with(VROOT.as_bytes()) { return None; }
    let rest = &s[VROOT.len()..];
    if !rest.is_empty() && rest[0] != b'/' { return None; }
    let root = REAL_ROOT.get()?;
    let mut v = root.as_bytes().to_vec();
    v.extend_from_slice(rest);
    CString::new(v).ok()
}
fn unreadable(p: *const c_char) -> bool {
    if bypassed() || !simrt::in_sim() { return false; }
    let s = unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned();
    faults(|f| { let hit = f.unreadable.iter().any(|u| *u == s); if hit { *f.counts.entry("unreadable").or_insert(0) += 1; } hit })
}
fn fs_yield(tag: &'static str) { if simrt::in_sim() && !bypassed() { simrt::yield_point(tag); } }

/// when a file has last been opened, or a directory listed, by the file loader
pub static OPENED: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
static VIRT_FDS: Mutex<Option<HashMap<c_int, bool>>> = Mutex::new(None); // fd -> is virtual file
fn mark_fd(fd: c_int) { VIRT_FDS.lock().unwrap().get_or_insert_with(HashMap::new).insert(fd, true); }
fn is_virt_fd(fd: c_int) -> bool { VIRT_FDS.lock().unwrap().as_ref().map_or(false, |m| m.contains_key(&fd)) }

#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    match translate(path) {
        None => sc!(SYS_openat, AT_FDCWD, path, flags, mode as c_int) as c_int,
        Some(real) => {
            fs_yield("open");
            if !bypassed() { simrt::note(|| format!("open {}", CStr::from_ptr(path).to_string_lossy())); }
            if unreadable(path) { set_errno(EACCES); return -1; }
            if inject("open_error", |f| f.open_err) { set_errno(pick_errno()); return -1; }
            let fd = sc!(SYS_openat, AT_FDCWD, real.as_ptr(), flags, mode as c_int) as c_int;
            if fd >= 0 && simrt::in_sim() && !bypassed() && flags & (O_WRONLY | O_RDWR) != 0 { let v = CStr::from_ptr(path).to_string_lossy().into_owned(); changed("open", &v); WRITERS.lock().unwrap().insert(fd, v); }
            if fd >= 0 && simrt::in_sim() && !bypassed() { mark_fd(fd); if simrt::task_name() == "VfsLoader" { OPENED.lock().unwrap().insert(CStr::from_ptr(path).to_string_lossy().into_owned(), simrt::now()); } }
            fd
        }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int { open64(path, flags, mode) }

unsafe fn stat_common(path: *const c_char, buf: *mut stat64, flags: c_int) -> c_int {
    match translate(path) {
        None => sc!(SYS_newfstatat, AT_FDCWD, path, buf, flags) as c_int,
        Some(real) => {
            fs_yield("stat");
            if inject("stat_error", |f| f.stat_err) { set_errno(pick_errno()); return -1; }
            sc!(SYS_newfstatat, AT_FDCWD, real.as_ptr(), buf, flags) as c_int
        }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn stat64(path: *const c_char, buf: *mut stat64) -> c_int { stat_common(path, buf, 0) }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lstat64(path: *const c_char, buf: *mut stat64) -> c_int { stat_common(path, buf, AT_SYMLINK_NOFOLLOW) }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fstatat64(dirfd: c_int, path: *const c_char, buf: *mut stat64, flags: c_int) -> c_int {
    if translate(path).is_some() { return stat_common(path, buf, flags); }
    sc!(SYS_newfstatat, dirfd, path, buf, flags) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn statx(dirfd: c_int, path: *const c_char, flags: c_int, mask: c_uint, buf: *mut c_void) -> c_int {
    match translate(path) {
        None => sc!(SYS_statx, dirfd, path, flags, mask, buf) as c_int,
        Some(real) => {
            fs_yield("stat");
            if inject("stat_error", |f| f.stat_err) { set_errno(pick_errno()); return -1; }
            sc!(SYS_statx, AT_FDCWD, real.as_ptr(), flags, mask, buf) as c_int
        }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    let real = translate(path);
    sc!(SYS_mkdir, real.as_ref().map_or(path, |r| r.as_ptr()), mode as c_int) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    let real = translate(path);
    let r = sc!(SYS_unlink, real.as_ref().map_or(path, |r| r.as_ptr())) as c_int;
    if real.is_some() { changed("unlink", &CStr::from_ptr(path).to_string_lossy()); }
    r
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let (ra, rb) = (translate(a), translate(b));
    let r = sc!(SYS_rename, ra.as_ref().map_or(a, |r| r.as_ptr()), rb.as_ref().map_or(b, |r| r.as_ptr())) as c_int;
    if r == 0 && ra.is_some() && rb.is_some() && simrt::in_sim() && !bypassed() {
        let (a, b) = (CStr::from_ptr(a).to_string_lossy().into_owned(), CStr::from_ptr(b).to_string_lossy().into_owned());
        // the new name may reach the disk before the contents do
        let mut u = UNSYNCED.lock().unwrap();
        if u.remove(&a) { u.insert(b.clone()); CHANGES.lock().unwrap_or_else(|e| e.into_inner()).push(("rename and power loss", b, Some(vec![]))); } else { u.remove(&b); }
    }
    if ra.is_some() { changed("rename", &CStr::from_ptr(a).to_string_lossy()); }
    if rb.is_some() { changed("rename", &CStr::from_ptr(b).to_string_lossy()); }
    r
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn chmod(path: *const c_char, mode: mode_t) -> c_int {
    let real = translate(path);
    sc!(SYS_chmod, real.as_ref().map_or(path, |r| r.as_ptr()), mode as c_int) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: i64) -> c_int {
    let r = sc!(SYS_ftruncate, fd, n) as c_int;
    let w = if simrt::in_sim() { WRITERS.lock().unwrap().get(&fd).cloned() } else { None };
    if let Some(v) = w { changed("truncate", &v); }
    r
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn readlink(path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    let real = translate(path);
    sc!(SYS_readlink, real.as_ref().map_or(path, |r| r.as_ptr()), buf, n) as ssize_t
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    type F = unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char;
    static REAL: OnceLock<usize> = OnceLock::new();
    let Some(_) = translate(path) else {
        let f: F = std::mem::transmute(*REAL.get_or_init(|| dlsym(RTLD_NEXT, c"realpath".as_ptr()) as usize));
        return f(path, out);
    };
    // no symbolic links below the virtual root: lexical normalisation plus an existence check
    let mut st: stat64 = std::mem::zeroed();
    if stat_common(path, &mut st, 0) != 0 { return std::ptr::null_mut(); }
    let s = CStr::from_ptr(path).to_bytes();
    let mut comps: Vec<&[u8]> = vec![];
    for c in s.split(|b| *b == b'/') { match c { b"" | b"." => {}, b".." => { comps.pop(); } c => comps.push(c) } }
    let mut v = vec![]; for c in comps { v.push(b'/'); v.extend_from_slice(c); }
    if v.is_empty() { v.push(b'/'); }
    v.push(0);
    let dst = if out.is_null() { malloc(v.len()) as *mut c_char } else { out };
    std::ptr::copy_nonoverlapping(v.as_ptr() as *const c_char, dst, v.len());
    dst
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    if simrt::in_sim() && !buf.is_null() {
        let s = b"/simws/w\0";
        if n < s.len() { set_errno(ERANGE); return std::ptr::null_mut(); }
        std::ptr::copy_nonoverlapping(s.as_ptr() as *const c_char, buf, s.len());
        return buf;
    }
    let r = sc!(SYS_getcwd, buf, n);
    if r < 0 { std::ptr::null_mut() } else { buf }
}

// -------------------------------------------------------------------------------- directories
struct DirState { entries: Vec<Box<dirent64>>, pos: usize }
static DIRS: Mutex<Option<HashMap<usize, DirState>>> = Mutex::new(None);
macro_rules! next { ($name:literal, $ty:ty) => {{ static P: OnceLock<usize> = OnceLock::new(); let p = *P.get_or_init(|| dlsym(RTLD_NEXT, $name.as_ptr()) as usize); std::mem::transmute::<usize, $ty>(p) }} }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut DIR {
    let f = next!(c"opendir", unsafe extern "C" fn(*const c_char) -> *mut DIR);
    let Some(real) = translate(path) else { return f(path) };
    fs_yield("opendir");
    if inject("opendir_error", |f| f.dir_err) { set_errno(pick_errno()); return std::ptr::null_mut(); }
    let d = f(real.as_ptr());
    if d.is_null() || !simrt::in_sim() || bypassed() { return d; }
    let rd = next!(c"readdir64", unsafe extern "C" fn(*mut DIR) -> *mut dirent64);
    let mut entries: Vec<Box<dirent64>> = vec![];
    loop {
        let e = rd(d);
        if e.is_null() { break; }
        // copy only the record's own length
        let mut b: Box<dirent64> = Box::new(std::mem::zeroed());
        let len = ((*e).d_reclen as usize).min(std::mem::size_of::<dirent64>());
        std::ptr::copy_nonoverlapping(e as *const u8, &mut *b as *mut dirent64 as *mut u8, len);
        entries.push(b);
    }
    let key = |e: &dirent64| unsafe { CStr::from_ptr(e.d_name.as_ptr()).to_bytes().to_vec() };
    entries.sort_by_key(|e| key(e));
    faults(|f| {
        if let Some(r) = f.dir_rng.as_mut() { for i in (1..entries.len()).rev() { let j = r.below(i + 1); entries.swap(i, j); } *f.counts.entry("dir_permuted").or_insert(0) += 1; }
    });
    if simrt::task_name() == "VfsLoader" { OPENED.lock().unwrap().insert(CStr::from_ptr(path).to_string_lossy().into_owned(), simrt::now()); }
    DIRS.lock().unwrap().get_or_insert_with(HashMap::new).insert(d as usize, DirState { entries, pos: 0 });
    d
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn readdir64(d: *mut DIR) -> *mut dirent64 {
    {
        let mut g = DIRS.lock().unwrap();
        if let Some(st) = g.as_mut().and_then(|m| m.get_mut(&(d as usize))) {
            if st.pos >= st.entries.len() { return std::ptr::null_mut(); }
            st.pos += 1;
            return &mut *st.entries[st.pos - 1] as *mut dirent64;
        }
    }
    next!(c"readdir64", unsafe extern "C" fn(*mut DIR) -> *mut dirent64)(d)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn closedir(d: *mut DIR) -> c_int {
    if let Some(m) = DIRS.lock().unwrap().as_mut() { m.remove(&(d as usize)); }
    next!(c"closedir", unsafe extern "C" fn(*mut DIR) -> c_int)(d)
}

// ------------------------------------------------------------------------------ time, randomness
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(id: clockid_t, ts: *mut timespec) -> c_int {
    if simrt::in_sim() && id != CLOCK_THREAD_CPUTIME_ID && id != CLOCK_PROCESS_CPUTIME_ID {
        let n = simrt::now() + CLOCK_BASE;
        (*ts).tv_sec = (n / 1_000_000_000) as time_t;
        (*ts).tv_nsec = (n % 1_000_000_000) as c_long;
        return 0;
    }
    sc!(SYS_clock_gettime, id, ts) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_nanosleep(id: clockid_t, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if simrt::in_sim() {
        simrt::sleep(std::time::Duration::new((*req).tv_sec as u64, (*req).tv_nsec as u32));
        return 0;
    }
    let r = sc!(SYS_clock_nanosleep, id, flags, req, rem);
    if r < 0 { *__errno_location() } else { 0 }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if simrt::in_sim() {
        let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
        for c in b.chunks_mut(8) { let v = simrt::rand_u64().to_le_bytes(); c.copy_from_slice(&v[..c.len()]); }
        return n as ssize_t;
    }
    sc!(SYS_getrandom, buf, n, flags) as ssize_t
}

/// standard error of the harness process itself, also while captured
pub fn real_err(s: &str) { unsafe { sc!(SYS_write, 2, s.as_ptr(), s.len()); } }
// ------------------------------------------------------------------------------- pipes, processes
#[derive(Default)]
struct Capture { on: bool, out: Vec<u8>, err: Vec<u8> }
static CAPTURE: Mutex<Capture> = Mutex::new(Capture { on: false, out: vec![], err: vec![] });
/// redirects what simulated tasks write to descriptors 1 and 2
pub fn capture(on: bool) -> (Vec<u8>, Vec<u8>) { let mut c = CAPTURE.lock().unwrap_or_else(|e| e.into_inner()); c.on = on; (std::mem::take(&mut c.out), std::mem::take(&mut c.err)) }

static PIPES: Mutex<Option<HashMap<c_int, ()>>> = Mutex::new(None);
fn is_pipe(fd: c_int) -> bool { simrt::in_sim() && PIPES.lock().unwrap().as_ref().map_or(false, |m| m.contains_key(&fd)) }
static PIPE_CAP: Mutex<c_int> = Mutex::new(0);
pub fn set_pipe_cap(n: usize) { *PIPE_CAP.lock().unwrap() = n as c_int; }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pipe2(fds: *mut c_int, flags: c_int) -> c_int {
    let r = sc!(SYS_pipe2, fds, flags) as c_int;
    if r == 0 && simrt::in_sim() {
        let mut g = PIPES.lock().unwrap();
        let m = g.get_or_insert_with(HashMap::new);
        m.insert(*fds, ()); m.insert(*fds.add(1), ());
        let cap = *PIPE_CAP.lock().unwrap();
        if cap > 0 { sc!(SYS_fcntl, *fds, F_SETPIPE_SZ, cap); }
    }
    r
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if simrt::in_sim() {
        if let Some(m) = PIPES.lock().unwrap().as_mut() { m.remove(&fd); }
        if let Some(m) = VIRT_FDS.lock().unwrap().as_mut() { m.remove(&fd); }
        let w = WRITERS.lock().unwrap().remove(&fd);
        if let Some(v) = w { fs_yield("close"); let r = sc!(SYS_close, fd) as c_int; changed("close", &v); return r; }
    }
    sc!(SYS_close, fd) as c_int
}
unsafe fn raw_poll(fd: c_int, ev: c_short) -> c_short {
    let mut p = pollfd { fd, events: ev, revents: 0 };
    sc!(SYS_poll, &mut p as *mut pollfd, 1usize, 0usize);
    p.revents
}
unsafe fn nonblocking(fd: c_int) -> bool { (sc!(SYS_fcntl, fd, F_GETFL) as c_int) & O_NONBLOCK != 0 }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if simrt::in_sim() {
        if is_pipe(fd) {
            simrt::yield_point("pipe-read");
            if !nonblocking(fd) && raw_poll(fd, POLLIN) == 0 { simrt::block_until("pipe-read", None, &mut || raw_poll(fd, POLLIN) != 0); }
        } else if is_virt_fd(fd) && !bypassed() {
            simrt::yield_point("read");
            if inject("read_error", |f| f.read_err) { set_errno(EIO); return -1; }
            if n > 1 && inject("short_read", |f| f.short_read) { return sc!(SYS_read, fd, buf, (n / 2).max(1).min(7)) as ssize_t; }
            if inject("read_eintr", |f| f.short_read / 2) { set_errno(EINTR); return -1; }
        }
    }
    sc!(SYS_read, fd, buf, n) as ssize_t
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if simrt::in_sim() {
        if fd == 1 || fd == 2 {
            if let Ok(mut c) = CAPTURE.lock() { if c.on { let s = std::slice::from_raw_parts(buf as *const u8, n); if fd == 1 { c.out.extend_from_slice(s) } else { c.err.extend_from_slice(s) }; return n as ssize_t; } }
        } else if is_pipe(fd) {
            simrt::yield_point("pipe-write");
            if !nonblocking(fd) {
                if raw_poll(fd, POLLOUT) == 0 { simrt::block_until("pipe-write", None, &mut || raw_poll(fd, POLLOUT) != 0); }
                return sc!(SYS_write, fd, buf, n.min(4096)) as ssize_t;
            }
        }
    }
    let w = if simrt::in_sim() && !bypassed() { WRITERS.lock().unwrap().get(&fd).cloned() } else { None };
    if let Some(v) = w {
        fs_yield("write");
        let mut m = n;
        if n > 1 && inject("short_write", |f| f.short_read) { m = (n / 2).max(1); }
        let space = faults(|f| f.space);
        if let Some(s) = space { m = m.min(s as usize); if m == 0 && n > 0 { count("disk_full"); set_errno(ENOSPC); return -1; } faults(|f| f.space = Some(s - m as u64)); }
        let r = sc!(SYS_write, fd, buf, m) as ssize_t;
        UNSYNCED.lock().unwrap().insert(v.clone());
        changed("write", &v);
        return r;
    }
    sc!(SYS_write, fd, buf, n) as ssize_t
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    let w = if simrt::in_sim() && !bypassed() { WRITERS.lock().unwrap().get(&fd).cloned() } else { None };
    if let Some(v) = w {
        fs_yield("fsync");
        // space that was promised turns out to be missing
        if faults(|f| f.space == Some(0)) { count("disk_full"); set_errno(ENOSPC); return -1; }
        UNSYNCED.lock().unwrap().remove(&v);
        return 0;
    }
    sc!(SYS_fsync, fd) as c_int
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int { fsync(fd) }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn poll(fds: *mut pollfd, n: nfds_t, timeout: c_int) -> c_int {
    if simrt::in_sim() && n > 0 && timeout != 0 {
        let deadline = if timeout < 0 { None } else { Some(simrt::now() + timeout as u64 * 1_000_000) };
        simrt::block_until("poll", deadline, &mut || sc!(SYS_poll, fds, n, 0usize) != 0);
        return sc!(SYS_poll, fds, n, 0usize) as c_int;
    }
    sc!(SYS_poll, fds, n, timeout) as c_int
}

/// A simulated child process.
pub struct Child { pub stdin: c_int, pub stdout: c_int, pub stderr: c_int, pub args: Vec<String>, pub cwd: String, pub killed: Arc<std::sync::atomic::AtomicBool> }
impl Child {
    /// blocking (in simulated time) read; empty at end of input
    pub fn read(&self) -> Vec<u8> {
        if self.stdin < 0 { return vec![]; }
        unsafe {
            simrt::block_until("child-read", None, &mut || self.killed() || raw_poll(self.stdin, POLLIN) != 0);
            if self.killed() { return vec![]; }
            let mut b = vec![0u8; 1000];
            let n = sc!(SYS_read, self.stdin, b.as_mut_ptr(), b.len());
            b.truncate(n.max(0) as usize);
            b
        }
    }
    pub fn killed(&self) -> bool { self.killed.load(std::sync::atomic::Ordering::Relaxed) }
    pub fn write(&self, fd: c_int, mut s: &[u8]) {
        while !s.is_empty() && fd >= 0 {
            unsafe {
                simrt::block_until("child-write", None, &mut || self.killed() || raw_poll(fd, POLLOUT) != 0);
                if self.killed() { return; }
                let n = sc!(SYS_write, fd, s.as_ptr(), s.len().min(700));
                if n <= 0 { return; }
                s = &s[n as usize..];
            }
        }
    }
    pub fn out(&self, s: &[u8]) { self.write(self.stdout, s) }
    pub fn err(&self, s: &[u8]) { self.write(self.stderr, s) }
    pub fn close_stdin(&mut self) { if self.stdin >= 0 { unsafe { sc!(SYS_close, self.stdin); } self.stdin = -1; } }
    pub fn close_out(&mut self) { for f in [&mut self.stdout, &mut self.stderr] { if *f >= 0 { unsafe { sc!(SYS_close, *f); } *f = -1; } } }
}
impl Drop for Child { fn drop(&mut self) { self.close_stdin(); self.close_out(); } }
/// Returns the raw wait status.
pub type Program = Arc<dyn Fn(&mut Child) -> c_int + Send + Sync>;
/// virtual path -> program; a missing entry is ENOENT
pub static PROGRAMS: Mutex<BTreeMap<String, Program>> = Mutex::new(BTreeMap::new());
pub static SPAWN_ERR: Mutex<u32> = Mutex::new(0);
struct Proc { status: Option<c_int>, killed: Arc<std::sync::atomic::AtomicBool>, reaped: bool }
static PROCS: Mutex<BTreeMap<pid_t, Proc>> = Mutex::new(BTreeMap::new());
const PID0: pid_t = 900_000_000;
/// number of children started and not yet exited
pub fn running_children() -> usize { PROCS.lock().unwrap().values().filter(|p| p.status.is_none()).count() }
pub fn spawned_children() -> usize { PROCS.lock().unwrap().len() }
static ACTIONS: Mutex<BTreeMap<usize, (Vec<(c_int, c_int)>, String)>> = Mutex::new(BTreeMap::new());
#[unsafe(no_mangle)]
pub unsafe extern "C" fn posix_spawn_file_actions_adddup2(fa: *mut posix_spawn_file_actions_t, from: c_int, to: c_int) -> c_int {
    if simrt::in_sim() { ACTIONS.lock().unwrap().entry(fa as usize).or_default().0.push((from, to)); return 0; }
    next!(c"posix_spawn_file_actions_adddup2", unsafe extern "C" fn(*mut posix_spawn_file_actions_t, c_int, c_int) -> c_int)(fa, from, to)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn posix_spawn_file_actions_addchdir_np(fa: *mut posix_spawn_file_actions_t, path: *const c_char) -> c_int {
    if simrt::in_sim() { ACTIONS.lock().unwrap().entry(fa as usize).or_default().1 = CStr::from_ptr(path).to_string_lossy().into_owned(); return 0; }
    next!(c"posix_spawn_file_actions_addchdir_np", unsafe extern "C" fn(*mut posix_spawn_file_actions_t, *const c_char) -> c_int)(fa, path)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn posix_spawn_file_actions_addchdir(fa: *mut posix_spawn_file_actions_t, path: *const c_char) -> c_int { posix_spawn_file_actions_addchdir_np(fa, path) }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn posix_spawn_file_actions_destroy(fa: *mut posix_spawn_file_actions_t) -> c_int {
    if simrt::in_sim() { ACTIONS.lock().unwrap().remove(&(fa as usize)); }
    next!(c"posix_spawn_file_actions_destroy", unsafe extern "C" fn(*mut posix_spawn_file_actions_t) -> c_int)(fa)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn posix_spawnp(pid: *mut pid_t, file: *const c_char, fa: *const posix_spawn_file_actions_t, attr: *const posix_spawnattr_t, argv: *const *mut c_char, envp: *const *mut c_char) -> c_int {
    if !simrt::in_sim() {
        return next!(c"posix_spawnp", unsafe extern "C" fn(*mut pid_t, *const c_char, *const posix_spawn_file_actions_t, *const posix_spawnattr_t, *const *mut c_char, *const *mut c_char) -> c_int)(pid, file, fa, attr, argv, envp);
    }
    simrt::yield_point("spawn-process");
    let name = CStr::from_ptr(file).to_string_lossy().into_owned();
    if inject("spawn_error", |_| 1000 * (*SPAWN_ERR.lock().unwrap()).min(1)) { return EAGAIN; }
    let prog = { PROGRAMS.lock().unwrap().get(&name).cloned() };
    let Some(prog) = prog else { count("spawn_enoent"); return ENOENT };
    let mut args = vec![];
    let mut i = 0;
    while !(*argv.add(i)).is_null() { args.push(CStr::from_ptr(*argv.add(i)).to_string_lossy().into_owned()); i += 1; }
    let (dups, cwd) = ACTIONS.lock().unwrap().get(&(fa as usize)).cloned().unwrap_or_default();
    let mut fds = [-1 as c_int; 3];
    for (from, to) in dups { if (0..3).contains(&to) { fds[to as usize] = sc!(SYS_fcntl, from, F_DUPFD_CLOEXEC, 10) as c_int; } }
    let killed = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let id = { let mut p = PROCS.lock().unwrap(); let id = PID0 + p.len() as pid_t; p.insert(id, Proc { status: None, killed: killed.clone(), reaped: false }); id };
    *pid = id;
    let mut child = Child { stdin: fds[0], stdout: fds[1], stderr: fds[2], args, cwd, killed };
    simrt::spawn(format!("process-{}", id - PID0), move || {
        let st = prog(&mut child);
        let st = if child.killed() { SIGKILL } else { st };
        drop(child);
        if let Some(p) = PROCS.lock().unwrap().get_mut(&id) { p.status = Some(st); }
    });
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn waitpid(pid: pid_t, status: *mut c_int, opts: c_int) -> pid_t {
    if !simrt::in_sim() || pid < PID0 { return sc!(SYS_wait4, pid, status, opts, std::ptr::null::<c_void>()) as pid_t; }
    let done = || PROCS.lock().unwrap().get(&pid).map_or(true, |p| p.status.is_some());
    if opts & WNOHANG != 0 { if !done() { return 0; } } else { simrt::block_until("waitpid", None, &mut || done()); }
    let mut g = PROCS.lock().unwrap();
    match g.get_mut(&pid) {
        Some(p) if !p.reaped => { p.reaped = true; if !status.is_null() { *status = p.status.unwrap(); } pid }
        _ => { set_errno(ECHILD); -1 }
    }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn kill(pid: pid_t, sig: c_int) -> c_int {
    if simrt::in_sim() {
        if let Some(p) = PROCS.lock().unwrap().get(&pid) { if p.status.is_none() && sig != 0 { p.killed.store(true, std::sync::atomic::Ordering::Relaxed); } return 0; }
        set_errno(ESRCH);
        return -1;
    }
    sc!(SYS_kill, pid, sig) as c_int
}
pub fn reset() {
    PROCS.lock().unwrap().clear();
    PROGRAMS.lock().unwrap().clear();
    OPENED.lock().unwrap().clear();
    CHANGES.lock().unwrap_or_else(|e| e.into_inner()).clear();
    WRITERS.lock().unwrap().clear();
    UNSYNCED.lock().unwrap().clear();
    *FAULTS.lock().unwrap() = None;
}
