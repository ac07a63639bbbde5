//! The process ends in the middle of an operation: from a chosen change of the
//! files below one directory on, nothing reaches the disk any more.
//!
//! The C library's functions that change files are replaced, for the whole
//! process, by ones that ask here first. A write may go through in part. What is
//! refused fails with EIO, so that the code under test comes to an end.
use std::cell::Cell;
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_long, c_uint, c_void};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

struct Plan {
    /// a directory name, with slashes
    key: String,
    left: u64,
    /// how much of the write in question goes through, of 1000
    part: usize,
    fired: Option<String>,
}

static ARMED: AtomicUsize = AtomicUsize::new(0);
static PLANS: Mutex<Vec<Plan>> = Mutex::new(Vec::new());
thread_local!(static FREE: Cell<bool> = const { Cell::new(false) });

/// The `left`th change from now on does not happen any more, nor what follows.
pub fn arm(owner: &str, left: u64, part: usize) {
    let mut p = PLANS.lock().unwrap_or_else(|e| e.into_inner());
    p.push(Plan { key: format!("/{owner}/"), left, part, fired: None });
    ARMED.store(p.len(), Ordering::SeqCst);
}

/// Everything works again.
pub fn thaw(owner: &str) {
    let key = format!("/{owner}/");
    let mut p = PLANS.lock().unwrap_or_else(|e| e.into_inner());
    p.retain(|x| x.key != key);
    ARMED.store(p.len(), Ordering::SeqCst);
}

/// The first change that did not happen.
fn first(owner: &str) -> Option<String> {
    if ARMED.load(Ordering::SeqCst) == 0 {
        return None;
    }
    let key = format!("/{owner}/");
    PLANS.lock().unwrap_or_else(|e| e.into_inner()).iter().find(|p| p.key == key)?.fired.clone()
}
pub fn fired(owner: &str) -> bool {
    first(owner).is_some()
}
pub fn what(owner: &str) -> String {
    first(owner).unwrap_or_default()
}

/// What the harness itself does is not affected.
pub fn free<T>(f: impl FnOnce() -> T) -> T {
    FREE.with(|x| x.set(true));
    let r = f();
    FREE.with(|x| x.set(false));
    r
}

enum Verdict {
    Go,
    /// this many bytes, then no more
    Part(usize),
}

fn armed() -> bool {
    ARMED.load(Ordering::Relaxed) != 0 && !FREE.try_with(|x| x.get()).unwrap_or(true)
}

fn ask(path: &str, what: &str, len: usize) -> Verdict {
    let mut plans = PLANS.lock().unwrap_or_else(|e| e.into_inner());
    for p in plans.iter_mut() {
        if !path.contains(&p.key) {
            continue;
        }
        if p.fired.is_some() {
            return Verdict::Part(0);
        }
        if p.left > 0 {
            p.left -= 1;
            return Verdict::Go;
        }
        // the stand-in of heed commits as a whole, as the original does
        let n = if path.ends_with("data.mdb") { 0 } else { len * p.part / 1000 };
        p.fired = Some(format!("{what} {}{}", path.split(&p.key).last().unwrap_or(path), if len > 0 { format!(" ({n} of {len} bytes)") } else { String::new() }));
        return Verdict::Part(n);
    }
    Verdict::Go
}

fn name(p: *const c_char) -> String {
    unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned()
}

fn of_fd(fd: c_int) -> String {
    std::fs::read_link(format!("/proc/self/fd/{fd}")).map(|p| p.to_string_lossy().into_owned()).unwrap_or_default()
}

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn __errno_location() -> *mut c_int;
}
const WRITE: c_long = 1;
const OPEN: c_long = 2;
const PWRITE: c_long = 18;
const FTRUNCATE: c_long = 77;
const RENAME: c_long = 82;
const MKDIR: c_long = 83;
const RMDIR: c_long = 84;
const UNLINK: c_long = 87;
const UNLINKAT: c_long = 263;

fn eio() -> c_long {
    unsafe { *__errno_location() = 5 };
    -1
}

fn change(path: impl FnOnce() -> String, what: &str, go: impl FnOnce() -> c_long) -> c_long {
    if armed() {
        if let Verdict::Part(_) = ask(&path(), what, 0) {
            return eio();
        }
    }
    go()
}

fn write_at(fd: c_int, buf: *const c_void, len: usize, at: Option<i64>) -> isize {
    let go = |n: usize| unsafe {
        match at {
            Some(at) => syscall(PWRITE, fd as c_long, buf, n, at),
            None => syscall(WRITE, fd as c_long, buf, n),
        }
    };
    if len > 0 && armed() {
        if let Verdict::Part(n) = ask(&of_fd(fd), "write", len) {
            if n > 0 {
                go(n);
            }
            return eio() as isize;
        }
    }
    go(len) as isize
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: usize) -> isize {
    write_at(fd, buf, len, None)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, len: usize, at: i64) -> isize {
    write_at(fd, buf, len, Some(at))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, len: usize, at: i64) -> isize {
    write_at(fd, buf, len, Some(at))
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: i64) -> c_int {
    change(|| of_fd(fd), "truncate", || syscall(FTRUNCATE, fd as c_long, len)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    ftruncate(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    change(|| name(a), "rename", || syscall(RENAME, a, b)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    change(|| name(a), "remove", || syscall(UNLINK, a)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(fd: c_int, a: *const c_char, flags: c_int) -> c_int {
    let path = || {
        let a = name(a);
        if fd < 0 || a.starts_with('/') { a } else { format!("{}/{a}", of_fd(fd)) }
    };
    change(path, "remove", || syscall(UNLINKAT, fd as c_long, a, flags as c_long)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(a: *const c_char) -> c_int {
    change(|| format!("{}/", name(a)), "remove directory", || syscall(RMDIR, a)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, mode: c_uint) -> c_int {
    change(|| format!("{}/", name(a)), "make directory", || syscall(MKDIR, a, mode as c_long)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(a: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    const CREAT: c_int = 0o100;
    const TRUNC: c_int = 0o1000;
    let go = || syscall(OPEN, a, flags as c_long, mode as c_long) as c_int;
    if flags & (CREAT | TRUNC) != 0 && armed() {
        let path = name(a);
        let old = std::fs::metadata(&path).ok();
        // it makes no difference if the file is there and kept
        if old.map_or(true, |m| flags & TRUNC != 0 && m.len() > 0) {
            if let Verdict::Part(_) = ask(&path, "create", 0) {
                return eio() as c_int;
            }
        }
    }
    go()
}
#[no_mangle]
pub unsafe extern "C" fn open64(a: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    open(a, flags, mode)
}
