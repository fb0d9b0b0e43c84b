//! Watches what code of templito asks of the system. The functions here take the place of those of
//! libc in this program, note what was asked for while a thread is being watched, and pass it on.
//! Requests that would change something outside of the scratch folder of the worker are not passed on.
use libc::{c_char, c_int, mode_t};
use std::cell::{Cell, RefCell};
use std::ffi::{CStr, CString};
use std::path::{Component, Path, PathBuf};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::{Relaxed, SeqCst}};

#[derive(Clone, Debug, PartialEq)]
pub struct Ev {
    pub op: &'static str,
    /// absolute and without "..", for what has a path
    pub path: PathBuf,
    pub change: bool,
    pub refused: bool,
}

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static EV: RefCell<Vec<Ev>> = const { RefCell::new(Vec::new()) };
    /// where changes are let through
    static ROOT: RefCell<Option<PathBuf>> = const { RefCell::new(None) };
}

pub fn lexical(p: &Path) -> PathBuf {
    let p = if p.is_absolute() { p.to_path_buf() } else { std::env::current_dir().unwrap_or_default().join(p) };
    let mut o = PathBuf::from("/");
    for c in p.components() {
        match c {
            Component::ParentDir => {
                o.pop();
            }
            Component::Normal(n) => o.push(n),
            _ => {}
        }
    }
    o
}

/// Runs it, and gives what was asked for meanwhile
pub fn watched<T>(root: &Path, f: impl FnOnce() -> T) -> (T, Vec<Ev>) {
    EV.with(|e| e.borrow_mut().clear());
    ROOT.with(|r| *r.borrow_mut() = Some(lexical(root)));
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ON.with(|o| o.set(false))
        }
    }
    ON.with(|o| o.set(true));
    let off = Off;
    let r = f();
    drop(off);
    (r, EV.with(|e| std::mem::take(&mut *e.borrow_mut())))
}

thread_local! {
    /// may not be opened
    static DENIED: RefCell<Option<PathBuf>> = const { RefCell::new(None) };
    static REFUSALS: Cell<u64> = const { Cell::new(0) };
}

/// Runs it while this file or folder may not be opened. Gives how often it was asked for.
pub fn without<T>(p: Option<PathBuf>, run: impl FnOnce() -> T) -> (T, u64) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            DENIED.with(|d| *d.borrow_mut() = None)
        }
    }
    REFUSALS.with(|r| r.set(0));
    DENIED.with(|d| *d.borrow_mut() = p.map(|p| lexical(&p)));
    let off = Off;
    let r = run();
    drop(off);
    (r, REFUSALS.with(|r| r.get()))
}

fn denied(p: *const c_char) -> bool {
    use std::os::unix::ffi::OsStrExt;
    let yes = DENIED
        .try_with(|d| match d.try_borrow().as_deref() {
            Ok(Some(d)) if !p.is_null() => {
                let b = unsafe { CStr::from_ptr(p) };
                lexical(Path::new(std::ffi::OsStr::from_bytes(b.to_bytes()))) == *d
            }
            _ => false,
        })
        .unwrap_or(false);
    if yes {
        REFUSALS.with(|r| r.set(r.get() + 1));
        unsafe { *libc::__errno_location() = libc::EACCES };
    }
    yes
}

/// True: do not do it
fn note(op: &'static str, p: *const c_char, change: bool) -> bool {
    if !ON.try_with(|o| o.get()).unwrap_or(false) {
        return false;
    }
    ON.with(|o| o.set(false));
    let path = if p.is_null() {
        PathBuf::new()
    } else {
        use std::os::unix::ffi::OsStrExt;
        let b = unsafe { CStr::from_ptr(p) };
        let s = Path::new(std::ffi::OsStr::from_bytes(b.to_bytes()));
        if matches!(op, "getenv" | "spawn" | "exec") {
            s.to_path_buf()
        } else {
            lexical(s)
        }
    };
    // (settings of the runtime itself, for errors)
    if op == "getenv" && path.to_string_lossy().starts_with("RUST_") {
        ON.with(|o| o.set(true));
        return false;
    }
    // (making a folder that is there changes nothing)
    let change = change && !(op == "mkdir" && path.is_dir());
    let refused = change && !ROOT.with(|r| r.borrow().as_ref().map_or(false, |r| path.starts_with(r)));
    EV.with(|e| e.borrow_mut().push(Ev { op, path, change, refused }));
    ON.with(|o| o.set(true));
    if refused {
        unsafe { *libc::__errno_location() = libc::EACCES };
    }
    refused
}

/// What may go wrong with reading and writing: a request that does less than was asked for, which is no
/// failure, and one that fails from some byte on
#[derive(Clone, Copy, Debug)]
pub struct Faults {
    pub seed: u64,
    pub short: bool,
    /// in every thread of this process
    pub all: bool,
    pub limit: Option<u64>,
}

static FAULTS: AtomicUsize = AtomicUsize::new(0);
static RANDOM: AtomicU64 = AtomicU64::new(0);
static LEFT: AtomicU64 = AtomicU64::new(u64::MAX);
static SHORT: AtomicU64 = AtomicU64::new(0);
static FAILED: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static HERE: Cell<bool> = const { Cell::new(false) };
}

/// Runs it with these. Gives how many requests did less than asked for, and how many failed.
pub fn faulty<T>(f: Option<Faults>, run: impl FnOnce() -> T) -> (T, u64, u64) {
    let f = match f {
        Some(f) => f,
        None => return (run(), 0, 0),
    };
    RANDOM.store(f.seed, Relaxed);
    LEFT.store(f.limit.unwrap_or(u64::MAX), Relaxed);
    SHORT.store(0, Relaxed);
    FAILED.store(0, Relaxed);
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            FAULTS.store(0, SeqCst);
            HERE.with(|h| h.set(false));
        }
    }
    HERE.with(|h| h.set(true));
    FAULTS.store(1 + usize::from(f.short) + 2 * usize::from(f.all), SeqCst);
    let off = Off;
    let r = run();
    drop(off);
    (r, SHORT.load(SeqCst), FAILED.load(SeqCst))
}

/// How much of a request is to be done. None: it fails.
fn allowed(fd: c_int, n: usize) -> Option<usize> {
    let how = FAULTS.load(Relaxed);
    // (what the runtime itself tells a new process in a few bytes is left alone)
    if how == 0 || fd < 3 || n == 0 || (how > 2 && n < 16) {
        return Some(n);
    }
    if how < 3 && !HERE.try_with(|h| h.get()).unwrap_or(false) {
        return Some(n);
    }
    let left = LEFT.load(SeqCst);
    if left == 0 {
        FAILED.fetch_add(1, SeqCst);
        return None;
    }
    let mut m = n.min(left.min(usize::MAX as u64) as usize);
    if how == 2 || how == 4 {
        let mut x = RANDOM.fetch_add(0x9e3779b97f4a7c15, SeqCst);
        x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        x ^= x >> 27;
        let less = match x % 4 {
            0 => m,
            1 => 1 + (x >> 8) as usize % m.min(16),
            _ => 1 + (x >> 8) as usize % m,
        };
        // (large ones in not too many steps)
        m = less.max((m / 40).min(m));
    }
    if m < n {
        SHORT.fetch_add(1, SeqCst);
    }
    Some(m)
}

fn done(n: libc::ssize_t) -> libc::ssize_t {
    if n > 0 && FAULTS.load(Relaxed) != 0 && LEFT.load(Relaxed) != u64::MAX {
        LEFT.fetch_sub(n as u64, SeqCst);
    }
    n
}

macro_rules! next {
    ($name:expr, $t:ty) => {{
        static P: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let mut p = P.load(std::sync::atomic::Ordering::Relaxed);
        if p == 0 {
            p = libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr() as *const c_char) as usize;
            if p == 0 {
                libc::abort();
            }
            P.store(p, std::sync::atomic::Ordering::Relaxed);
        }
        std::mem::transmute::<usize, $t>(p)
    }};
}

fn writes(flags: c_int) -> bool {
    flags & libc::O_ACCMODE != libc::O_RDONLY || flags & (libc::O_CREAT | libc::O_TRUNC) != 0
}

type Open = unsafe extern "C" fn(*const c_char, c_int, mode_t) -> c_int;
type OpenAt = unsafe extern "C" fn(c_int, *const c_char, c_int, mode_t) -> c_int;
type P1 = unsafe extern "C" fn(*const c_char) -> c_int;
type P2 = unsafe extern "C" fn(*const c_char, *const c_char) -> c_int;
type PM = unsafe extern "C" fn(*const c_char, mode_t) -> c_int;

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut libc::c_void, n: libc::size_t) -> libc::ssize_t {
    match allowed(fd, n) {
        Some(n) => done(next!("read", unsafe extern "C" fn(c_int, *mut libc::c_void, libc::size_t) -> libc::ssize_t)(fd, b, n)),
        None => {
            *libc::__errno_location() = libc::EIO;
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const libc::c_void, n: libc::size_t) -> libc::ssize_t {
    match allowed(fd, n) {
        Some(n) => done(next!("write", unsafe extern "C" fn(c_int, *const libc::c_void, libc::size_t) -> libc::ssize_t)(fd, b, n)),
        None => {
            *libc::__errno_location() = libc::ENOSPC;
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if note("open", p, writes(flags)) || denied(p) {
        return -1;
    }
    next!("open64", Open)(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if note("open", p, writes(flags)) || denied(p) {
        return -1;
    }
    next!("openat64", OpenAt)(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut libc::DIR {
    note("opendir", p, false);
    if denied(p) {
        return std::ptr::null_mut();
    }
    next!("opendir", unsafe extern "C" fn(*const c_char) -> *mut libc::DIR)(p)
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, m: mode_t) -> c_int {
    if note("mkdir", p, true) {
        return -1;
    }
    next!("mkdir", PM)(p, m)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    if note("rmdir", p, true) {
        return -1;
    }
    next!("rmdir", P1)(p)
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if note("unlink", p, true) {
        return -1;
    }
    next!("unlink", P1)(p)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, f: c_int) -> c_int {
    if note("unlink", p, true) {
        return -1;
    }
    next!("unlinkat", unsafe extern "C" fn(c_int, *const c_char, c_int) -> c_int)(d, p, f)
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let x = note("rename", a, true);
    if note("rename", b, true) || x {
        return -1;
    }
    next!("rename", P2)(a, b)
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, m: mode_t) -> c_int {
    if note("chmod", p, true) {
        return -1;
    }
    next!("chmod", PM)(p, m)
}
#[no_mangle]
pub unsafe extern "C" fn getenv(p: *const c_char) -> *mut c_char {
    note("getenv", p, false);
    next!("getenv", unsafe extern "C" fn(*const c_char) -> *mut c_char)(p)
}
#[no_mangle]
pub unsafe extern "C" fn fork() -> libc::pid_t {
    note("fork", std::ptr::null(), false);
    next!("fork", unsafe extern "C" fn() -> libc::pid_t)()
}
#[no_mangle]
pub unsafe extern "C" fn execvp(p: *const c_char, a: *const *const c_char) -> c_int {
    note("exec", p, false);
    next!("execvp", unsafe extern "C" fn(*const c_char, *const *const c_char) -> c_int)(p, a)
}
type Spawn = unsafe extern "C" fn(
    *mut libc::pid_t,
    *const c_char,
    *const libc::posix_spawn_file_actions_t,
    *const libc::posix_spawnattr_t,
    *const *mut c_char,
    *const *mut c_char,
) -> c_int;
#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(
    pid: *mut libc::pid_t,
    p: *const c_char,
    fa: *const libc::posix_spawn_file_actions_t,
    at: *const libc::posix_spawnattr_t,
    argv: *const *mut c_char,
    env: *const *mut c_char,
) -> c_int {
    note("spawn", p, false);
    next!("posix_spawnp", Spawn)(pid, p, fa, at, argv, env)
}
#[no_mangle]
pub unsafe extern "C" fn pidfd_spawnp(
    pid: *mut libc::pid_t,
    p: *const c_char,
    fa: *const libc::posix_spawn_file_actions_t,
    at: *const libc::posix_spawnattr_t,
    argv: *const *mut c_char,
    env: *const *mut c_char,
) -> c_int {
    note("spawn", p, false);
    let f = libc::dlsym(libc::RTLD_NEXT, b"pidfd_spawnp\0".as_ptr() as *const c_char);
    if f.is_null() {
        return libc::ENOSYS;
    }
    std::mem::transmute::<*mut libc::c_void, Spawn>(f)(pid, p, fa, at, argv, env)
}
#[no_mangle]
pub unsafe extern "C" fn socket(a: c_int, b: c_int, c: c_int) -> c_int {
    note("socket", std::ptr::null(), false);
    next!("socket", unsafe extern "C" fn(c_int, c_int, c_int) -> c_int)(a, b, c)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, b: *mut libc::stat64) -> c_int {
    note("stat", p, false);
    next!("stat64", unsafe extern "C" fn(*const c_char, *mut libc::stat64) -> c_int)(p, b)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, b: *mut libc::stat64) -> c_int {
    note("stat", p, false);
    next!("lstat64", unsafe extern "C" fn(*const c_char, *mut libc::stat64) -> c_int)(p, b)
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, b: *mut c_char) -> *mut c_char {
    note("stat", p, false);
    next!("realpath", unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char)(p, b)
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, b: *mut c_char, n: libc::size_t) -> libc::ssize_t {
    note("stat", p, false);
    next!("readlink", unsafe extern "C" fn(*const c_char, *mut c_char, libc::size_t) -> libc::ssize_t)(p, b, n)
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    note("stat", p, false);
    next!("access", unsafe extern "C" fn(*const c_char, c_int) -> c_int)(p, m)
}
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    if note("symlink", b, true) {
        return -1;
    }
    next!("symlink", P2)(a, b)
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d: c_int, a: *const c_char, e: c_int, b: *const c_char, f: c_int) -> c_int {
    if note("link", b, true) {
        return -1;
    }
    next!("linkat", unsafe extern "C" fn(c_int, *const c_char, c_int, *const c_char, c_int) -> c_int)(d, a, e, b, f)
}
#[no_mangle]
pub unsafe extern "C" fn chdir(p: *const c_char) -> c_int {
    note("chdir", p, false);
    next!("chdir", P1)(p)
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut c_char, n: libc::size_t) -> *mut c_char {
    note("getcwd", std::ptr::null(), false);
    next!("getcwd", unsafe extern "C" fn(*mut c_char, libc::size_t) -> *mut c_char)(b, n)
}
#[no_mangle]
pub unsafe extern "C" fn setenv(a: *const c_char, b: *const c_char, o: c_int) -> c_int {
    note("setenv", std::ptr::null(), false);
    next!("setenv", unsafe extern "C" fn(*const c_char, *const c_char, c_int) -> c_int)(a, b, o)
}
/// only what is asked for by a path
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, f: c_int, m: libc::c_uint, b: *mut libc::statx) -> c_int {
    if !p.is_null() && *p != 0 {
        note("stat", p, false);
    }
    next!(
        "statx",
        unsafe extern "C" fn(c_int, *const c_char, c_int, libc::c_uint, *mut libc::statx) -> c_int
    )(d, p, f, m, b)
}

/// Does it see what it is to see? The checks depend on it.
pub fn works(dir: &Path) -> Result<(), String> {
    let f = dir.join("watch-test");
    let has = |ev: &[Ev], op: &str| ev.iter().any(|e| e.op == op);
    let (_, ev) = watched(dir, || std::fs::write(&f, "x"));
    if !has(&ev, "open") || !ev[0].change {
        return Err(format!("opening a file was not seen: {:?}", ev));
    }
    let (_, ev) = watched(dir, || std::fs::metadata(&f).is_ok());
    if !has(&ev, "stat") {
        return Err(format!("asking for metadata was not seen: {:?}", ev));
    }
    let (_, ev) = watched(dir, || std::fs::read_dir(dir).is_ok());
    if !has(&ev, "opendir") {
        return Err(format!("opening a folder was not seen: {:?}", ev));
    }
    let (_, ev) = watched(dir, || std::env::var("HOME").is_ok());
    if !has(&ev, "getenv") {
        return Err(format!("reading the environment was not seen: {:?}", ev));
    }
    let (_, ev) = watched(dir, || std::fs::canonicalize(&f).is_ok());
    if !has(&ev, "stat") {
        return Err(format!("asking for the real path was not seen: {:?}", ev));
    }
    let (r, ev) = watched(dir, || std::fs::create_dir("/tmp/mon-should-not-be-there"));
    if r.is_ok() || !ev.iter().any(|e| e.refused) {
        return Err(format!("a change outside was not refused: {:?}", ev));
    }
    let (r, ev) = watched(dir, || std::process::Command::new("true").status());
    if r.is_ok() && !has(&ev, "spawn") && !has(&ev, "fork") {
        return Err(format!("starting a process was not seen: {:?}", ev));
    }
    let _ = std::fs::write(&f, "some text of some length");
    let fs = Faults { seed: 1, short: true, all: false, limit: None };
    let (r, n, _) = faulty(Some(fs), || std::fs::read(&f));
    if n == 0 || r.ok().as_deref() != Some(b"some text of some length") {
        return Err("reading did not take several steps".into());
    }
    let fs = Faults { seed: 1, short: false, all: false, limit: Some(5) };
    let (r, _, n) = faulty(Some(fs), || std::fs::write(&f, "some other text"));
    if n == 0 || r.is_ok() || std::fs::read(&f).ok().as_deref() != Some(b"some ") {
        return Err("writing did not fail on the way".into());
    }
    let (r, n) = without(Some(f.clone()), || std::fs::read(&f));
    if n == 0 || r.is_ok() || std::fs::read(&f).is_err() {
        return Err("a file that may not be opened was".into());
    }
    let (r, n) = without(Some(dir.to_path_buf()), || std::fs::read_dir(dir).is_ok());
    if n == 0 || r {
        return Err("a folder that may not be opened was".into());
    }
    let (_, ev) = watched(dir, || std::fs::remove_file(&f));
    if !has(&ev, "unlink") {
        return Err(format!("removing a file was not seen: {:?}", ev));
    }
    let _ = CString::new("");
    Ok(())
}
