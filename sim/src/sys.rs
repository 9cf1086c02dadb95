//! System calls put behind a seam: randomness (which seeds `HashMap`s) and the
//! clock. During a simulated run both come from the case, otherwise from Linux.
use crate::rng::mix;
use std::sync::atomic::{AtomicU64, Ordering::*};

/// 0: real. Otherwise the seed of simulated randomness and time.
static ENV: AtomicU64 = AtomicU64::new(0);
static DRAWS: AtomicU64 = AtomicU64::new(0);
static CLOCK: AtomicU64 = AtomicU64::new(0);

pub fn simulate(seed: u64) {
    ENV.store(seed, SeqCst);
    CLOCK.store(0, SeqCst);
}
/// Number of times somebody asked for randomness or the time.
pub fn draws() -> (u64, u64) {
    (DRAWS.load(SeqCst), READS.load(SeqCst))
}
static READS: AtomicU64 = AtomicU64::new(0);

/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    let e = ENV.load(SeqCst);
    if e == 0 {
        return libc::syscall(libc::SYS_getrandom, buf, len, flags) as isize;
    }
    DRAWS.fetch_add(1, SeqCst);
    for i in 0..len {
        // The same for every thread of a run: no draw order to depend on.
        *buf.add(i) = mix(e ^ (i as u64)) as u8;
    }
    len as isize
}

/// # Safety
/// As the C function.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let e = ENV.load(SeqCst);
    if e == 0 || id == libc::CLOCK_THREAD_CPUTIME_ID {
        return libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int;
    }
    READS.fetch_add(1, SeqCst);
    let n = CLOCK.fetch_add(1, SeqCst);
    // Skewed, and jumping both ways for the wall clock.
    let jump = if id == libc::CLOCK_REALTIME { mix(e ^ n) % 1_000_000 } else { n };
    (*ts).tv_sec = (1_000_000_000 + e % 1_000_000 + jump) as _;
    (*ts).tv_nsec = (mix(n) % 1_000_000_000) as _;
    0
}
