//! The wall clock and long sleeps of this process, in the harness's hands.
//!
//! `clock_gettime` and the sleeping calls are defined here and so replace those of libc for the whole
//! program, the code under test included. CLOCK_REALTIME stands still at a chosen value while one is set.
//! Sleeps of at least `VIRTUAL_FROM` become sleeps on a virtual timeline that only `advance` moves.
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::Duration;

static FROZEN_MS: AtomicU64 = AtomicU64::new(0);
static VIRTUAL_SLEEP: AtomicBool = AtomicBool::new(false);
const VIRTUAL_FROM: u64 = 60_000; // ms

/// Set the wall clock (milliseconds); 0 gives the real one back.
pub fn set(ms: u64) {
    FROZEN_MS.store(ms, Ordering::SeqCst);
}
pub fn now() -> u64 {
    let ms = FROZEN_MS.load(Ordering::SeqCst);
    if ms != 0 {
        ms
    } else {
        std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
    }
}

struct Line {
    now: u64,
    // (wake time, ticket) of the sleepers
    sleepers: Vec<(u64, u64)>,
    ticket: u64,
    // those of earlier epochs never wake up
    epoch: u64,
}
static LINE: Mutex<Line> = Mutex::new(Line { now: 0, sleepers: vec![], ticket: 0, epoch: 0 });
static MOVED: Condvar = Condvar::new();

pub fn virtual_sleep(on: bool) {
    VIRTUAL_SLEEP.store(on, Ordering::SeqCst);
}

/// Forget the sleepers there are; they sleep on for ever.
pub fn new_epoch() {
    let mut l = LINE.lock().unwrap();
    l.epoch += 1;
    l.sleepers.clear();
}

/// Wake times of the virtual sleepers, relative to now.
pub fn sleepers() -> Vec<u64> {
    let l = LINE.lock().unwrap();
    let mut v: Vec<u64> = l.sleepers.iter().map(|s| s.0 - l.now.min(s.0)).collect();
    v.sort();
    v
}

/// Move virtual time (and the frozen wall clock) forward.
pub fn advance(ms: u64) {
    let mut l = LINE.lock().unwrap();
    l.now += ms;
    if FROZEN_MS.load(Ordering::SeqCst) != 0 {
        FROZEN_MS.fetch_add(ms, Ordering::SeqCst);
    }
    MOVED.notify_all();
}

fn sleep_virtually(ms: u64) {
    let mut l = LINE.lock().unwrap();
    let t = l.ticket;
    l.ticket += 1;
    let wake = l.now + ms;
    let epoch = l.epoch;
    l.sleepers.push((wake, t));
    while l.now < wake || l.epoch != epoch {
        l = MOVED.wait(l).unwrap();
    }
    l.sleepers.retain(|s| s.1 != t);
}

unsafe fn real_clock_nanosleep(id: libc::clockid_t, flags: libc::c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    let r = libc::syscall(libc::SYS_clock_nanosleep, id as libc::c_long, flags as libc::c_long, req, rem);
    if r == 0 {
        0
    } else {
        *libc::__errno_location()
    }
}

pub fn real_sleep(d: Duration) {
    let req = libc::timespec { tv_sec: d.as_secs() as _, tv_nsec: d.subsec_nanos() as _ };
    unsafe {
        real_clock_nanosleep(libc::CLOCK_MONOTONIC, 0, &req, std::ptr::null_mut());
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if id == libc::CLOCK_REALTIME {
        let ms = FROZEN_MS.load(Ordering::Relaxed);
        if ms != 0 {
            (*ts).tv_sec = (ms / 1000) as _;
            (*ts).tv_nsec = ((ms % 1000) * 1_000_000) as _;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, id as libc::c_long, ts) as libc::c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: libc::clockid_t, flags: libc::c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    if VIRTUAL_SLEEP.load(Ordering::SeqCst) {
        let ask = |t: &libc::timespec| t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000;
        let ms = if flags & libc::TIMER_ABSTIME != 0 {
            let mut n: libc::timespec = std::mem::zeroed();
            libc::syscall(libc::SYS_clock_gettime, id as libc::c_long, &mut n as *mut _);
            ask(&*req).saturating_sub(ask(&n))
        } else {
            ask(&*req)
        };
        if ms + 50 >= VIRTUAL_FROM {
            // what is asked for is a round number of milliseconds unless time passed in between
            let ms = if flags & libc::TIMER_ABSTIME != 0 { (ms + 500) / 1000 * 1000 } else { ms };
            sleep_virtually(ms);
            return 0;
        }
    }
    real_clock_nanosleep(id, flags, req, rem)
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    let r = clock_nanosleep(libc::CLOCK_MONOTONIC, 0, req, rem);
    if r == 0 {
        0
    } else {
        *libc::__errno_location() = r;
        -1
    }
}
