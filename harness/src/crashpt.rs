//! File operations of this process, counted and cut short.
//!
//! The mutating calls of libc are defined here and so replace those of libc for the whole program, the code
//! under test and sled included. While counting is on, an operation on a path below a chosen directory (or on
//! a file opened there) may be the point at which the process ends, as if it had been killed.
use libc::{c_char, c_int, c_void, iovec, mode_t, off64_t, size_t, ssize_t};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicU8, Ordering::SeqCst};
use std::sync::Mutex;

static ON: AtomicBool = AtomicBool::new(false);
static DIR: Mutex<Vec<u8>> = Mutex::new(Vec::new());
static COUNT: AtomicU64 = AtomicU64::new(0);
static TOTAL: AtomicU64 = AtomicU64::new(0);
/// operations left until the end; negative: none
static LEFT: AtomicI64 = AtomicI64::new(-1);
static KIND: AtomicU8 = AtomicU8::new(0);
const FDS: usize = 1 << 14;
static TRACKED: [AtomicBool; FDS] = [const { AtomicBool::new(false) }; FDS];

/// exit status of a process that ended at a chosen point
pub const STATUS: c_int = 77;

pub fn track(dir: &std::path::Path) {
    use std::os::unix::ffi::OsStrExt;
    *DIR.lock().unwrap() = dir.as_os_str().as_bytes().to_vec();
    ON.store(true, SeqCst);
}
/// End at the nth operation from now: 0 before it, 1 after it, 2 or more in the middle of a long write.
pub fn arm(nth: u64, kind: u8) {
    KIND.store(kind, SeqCst);
    LEFT.store(nth as i64, SeqCst);
}
pub fn disarm() {
    LEFT.store(-1, SeqCst);
}
/// Was the operation that just took effect to be the last?
pub fn armed_after() -> bool {
    KIND.load(SeqCst) == 9 && LEFT.load(SeqCst) == 0
}
pub fn take_count() -> u64 {
    COUNT.swap(0, SeqCst)
}
pub fn die() -> ! {
    unsafe {
        libc::syscall(libc::SYS_exit_group, STATUS as libc::c_long);
    }
    loop {}
}

/// Is this the operation? Some(kind) if it is.
pub fn due() -> Option<u8> {
    COUNT.fetch_add(1, SeqCst);
    TOTAL.fetch_add(1, SeqCst);
    if LEFT.load(SeqCst) < 0 {
        return None;
    }
    if LEFT.fetch_sub(1, SeqCst) == 0 {
        Some(KIND.load(SeqCst))
    } else {
        None
    }
}

/// One operation: end before it, or do it and perhaps end after it.
unsafe fn op<T>(tracked: bool, f: impl FnOnce() -> T) -> T {
    if !tracked {
        return f();
    }
    match due() {
        None => f(),
        Some(0) => die(),
        Some(_) => {
            f();
            die()
        }
    }
}

unsafe fn below(path: *const c_char) -> bool {
    if !ON.load(SeqCst) {
        return false;
    }
    let p = std::ffi::CStr::from_ptr(path).to_bytes();
    DIR.lock().map_or(false, |d| p.starts_with(&d[..]))
}
fn is_tracked(fd: c_int) -> bool {
    ON.load(SeqCst) && fd >= 0 && (fd as usize) < FDS && TRACKED[fd as usize].load(SeqCst)
}

// ---------------------------------------------------------------------------------------------
// operations that fail

/// From the `at`-th of the database's own file operations on, `n` fail.
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct DiskFault {
    pub at: u16,
    pub n: u16,
    pub errno: i32,
    /// a write that fails has taken the first half
    pub part: bool,
    /// opening a key-value store of a chunk is one of the operations
    #[serde(default)]
    pub stores: bool,
}

static FAULT: Mutex<Option<(DiskFault, u32)>> = Mutex::new(None);
/// opening the key-value stores may fail as well
static STORES: AtomicBool = AtomicBool::new(false);
static FAULTY: AtomicBool = AtomicBool::new(false);
static STRUCK: AtomicU64 = AtomicU64::new(0);
static OWN: [AtomicBool; FDS] = [const { AtomicBool::new(false) }; FDS];
static OWN_DIRS: Mutex<Vec<usize>> = Mutex::new(Vec::new());

pub fn fault(dir: &std::path::Path, f: &DiskFault) {
    use std::os::unix::ffi::OsStrExt;
    *DIR.lock().unwrap() = dir.as_os_str().as_bytes().to_vec();
    *FAULT.lock().unwrap() = Some((f.clone(), 0));
    STRUCK.store(0, SeqCst);
    OWN.iter().for_each(|x| x.store(false, SeqCst));
    STORES.store(f.stores, SeqCst);
    FAULTY.store(true, SeqCst);
}
/// How many operations have failed?
pub fn no_fault() -> u64 {
    FAULTY.store(false, SeqCst);
    STRUCK.swap(0, SeqCst)
}
/// Is this a file of the database itself, and not of a key-value store in it?
unsafe fn own(path: *const c_char) -> bool {
    if !FAULTY.load(SeqCst) {
        return false;
    }
    let p = std::ffi::CStr::from_ptr(path).to_bytes();
    DIR.lock().map_or(false, |d| {
        p.strip_prefix(&d[..]).map_or(false, |rest| !rest.split(|b| *b == b'/').any(|x| x == b"storage" || x == b"indexer"))
    })
}
/// Is this one of the two files with which a key-value store is opened?
unsafe fn of_store(path: *const c_char) -> bool {
    if !FAULTY.load(SeqCst) || !STORES.load(SeqCst) {
        return false;
    }
    let p = std::ffi::CStr::from_ptr(path).to_bytes();
    DIR.lock().map_or(false, |d| {
        p.strip_prefix(&d[..]).map_or(false, |rest| {
            let mut c = rest.rsplit(|b| *b == b'/');
            matches!(c.next(), Some(b"conf") | Some(b"db")) && matches!(c.next(), Some(b"storage") | Some(b"indexer"))
        })
    })
}
fn is_own(fd: c_int) -> bool {
    FAULTY.load(SeqCst) && fd >= 0 && (fd as usize) < FDS && OWN[fd as usize].load(SeqCst)
}
/// Does this operation fail?
fn fails(own: bool) -> Option<DiskFault> {
    if !own {
        return None;
    }
    let mut f = FAULT.lock().unwrap();
    let (f, k) = f.as_mut()?;
    let i = *k;
    *k += 1;
    if i >= f.at as u32 && i - (f.at as u32) < f.n as u32 {
        STRUCK.fetch_add(1, SeqCst);
        unsafe { *libc::__errno_location() = f.errno };
        return Some(f.clone());
    }
    None
}

unsafe fn next<F: Copy>(name: &'static [u8]) -> F {
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const c_char);
    assert!(!p.is_null());
    std::mem::transmute_copy(&p)
}
#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut libc::DIR {
    let own = own(path);
    if fails(own).is_some() {
        return std::ptr::null_mut();
    }
    let f: unsafe extern "C" fn(*const c_char) -> *mut libc::DIR = next(b"opendir\0");
    let d = f(path);
    if let Ok(mut v) = OWN_DIRS.lock() {
        v.retain(|x| *x != d as usize);
        if own && !d.is_null() {
            v.push(d as usize);
        }
    }
    d
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
    let own = FAULTY.load(SeqCst) && OWN_DIRS.lock().map_or(false, |v| v.contains(&(d as usize)));
    if fails(own).is_some() {
        return std::ptr::null_mut();
    }
    static F: AtomicU64 = AtomicU64::new(0);
    let mut p = F.load(SeqCst);
    if p == 0 {
        p = next::<usize>(b"readdir64\0") as u64;
        F.store(p, SeqCst);
    }
    let f: unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64 = std::mem::transmute(p as usize);
    f(d)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if fails(is_own(fd)).is_some() {
        return -1;
    }
    libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t
}

unsafe fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if FAULTY.load(SeqCst) {
        let own = own(path);
        if fails(own || of_store(path)).is_some() {
            return -1;
        }
        let fd = libc::syscall(libc::SYS_openat, dirfd, path, flags, mode) as c_int;
        if fd >= 0 && (fd as usize) < FDS {
            OWN[fd as usize].store(own, SeqCst);
        }
        return fd;
    }
    if !ON.load(SeqCst) {
        return libc::syscall(libc::SYS_openat, dirfd, path, flags, mode) as c_int;
    }
    let b = below(path);
    // an operation if it may change something
    let fd = op(b && flags & (libc::O_CREAT | libc::O_TRUNC) != 0, || libc::syscall(libc::SYS_openat, dirfd, path, flags, mode) as c_int);
    if fd >= 0 && (fd as usize) < FDS {
        TRACKED[fd as usize].store(b, SeqCst);
    }
    fd
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
unsafe fn do_pwrite(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    libc::syscall(libc::SYS_pwrite64, fd, buf, n, off) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    if !is_tracked(fd) {
        return do_pwrite(fd, buf, n, off);
    }
    match due() {
        None => do_pwrite(fd, buf, n, off),
        Some(0) => die(),
        Some(1) => {
            do_pwrite(fd, buf, n, off);
            die()
        }
        Some(k) => {
            // a write in progress ends at a page
            let part = (n * (k as usize - 1) / 8) & !4095;
            if part > 0 {
                do_pwrite(fd, buf, part, off);
            }
            die()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if let Some(f) = fails(is_own(fd)) {
        if f.part && n > 1 {
            // the next one gets the error, if the fault lasts
            return libc::syscall(libc::SYS_write, fd, buf, n / 2) as ssize_t;
        }
        return -1;
    }
    op(is_tracked(fd), || libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    op(is_tracked(fd), || libc::syscall(libc::SYS_writev, fd, iov, n) as ssize_t)
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if fails(own(a) || own(b)).is_some() {
        return -1;
    }
    op(below(a) || below(b), || libc::syscall(libc::SYS_rename, a, b) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, mode: mode_t) -> c_int {
    if fails(own(a)).is_some() {
        return -1;
    }
    op(below(a), || libc::syscall(libc::SYS_mkdir, a, mode) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    if fails(own(a)).is_some() {
        return -1;
    }
    op(below(a), || libc::syscall(libc::SYS_unlink, a) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(a: *const c_char) -> c_int {
    op(below(a), || libc::syscall(libc::SYS_rmdir, a) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off64_t) -> c_int {
    op(is_tracked(fd), || libc::syscall(libc::SYS_ftruncate, fd, n) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if fails(is_own(fd)).is_some() {
        return -1;
    }
    op(is_tracked(fd), || libc::syscall(libc::SYS_fsync, fd) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    op(is_tracked(fd), || libc::syscall(libc::SYS_fdatasync, fd) as c_int)
}
