//! Global allocator of the simulator. Memory asked for by library code (between
//! `api` and the next callback) is charged to the current caller, filled with
//! junk when handed out, always moved on growth, filled with other junk when
//! freed, and kept in quarantine for a while to notice later writes to it.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::*};

pub const CALLERS: usize = 8;
const FREE: u64 = 0xDEAD_F4EE_DEAD_F4EE;
const LIB: u64 = 0x11B0_A110_11B0_A110;
const HARNESS: u64 = 0x5AFE_5AFE_5AFE_5AFE;
const CAP: i64 = 3 << 29;
const QN: usize = 512;

thread_local! {
    /// Caller whose API call is in progress, or `usize::MAX`.
    pub static OWNER: Cell<usize> = const { Cell::new(usize::MAX) };
}

#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicI64 = AtomicI64::new(0);
pub static LIVE_BLOCKS: [AtomicI64; CALLERS] = [Z; CALLERS];
static TOTAL: AtomicI64 = AtomicI64::new(0);
pub static LIB_ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static LIB_MOVES: AtomicU64 = AtomicU64::new(0);
/// Kind of heap corruption noticed: 0 none, 1 write after free, 2 bad free.
pub static CORRUPT: AtomicUsize = AtomicUsize::new(0);

struct Quarantine {
    lock: AtomicBool,
    pos: Cell<usize>,
    ring: Cell<[(usize, usize, usize); QN]>,
}
unsafe impl Sync for Quarantine {}
static QUAR: Quarantine = Quarantine {
    lock: AtomicBool::new(false),
    pos: Cell::new(0),
    ring: Cell::new([(0, 0, 0); QN]),
};

#[repr(C)]
struct Header {
    magic: u64,
    owner: u32,
    off: u32,
}

pub struct SimAlloc;

fn pad(l: &Layout) -> usize {
    l.align().max(16)
}

unsafe fn release(base: usize, size: usize, align: usize, user_off: usize) {
    // Write-after-free check: the junk must still be there.
    let user = (base + user_off) as *const u8;
    let n = size - user_off;
    for k in 0..n {
        if *user.add(k) != 0xDD {
            CORRUPT.store(1, Relaxed);
            break;
        }
    }
    System.dealloc(base as *mut u8, Layout::from_size_align_unchecked(size, align));
    TOTAL.fetch_sub(size as i64, Relaxed);
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = pad(&l);
        let size = match l.size().checked_add(p) {
            Some(s) => s,
            None => return std::ptr::null_mut(),
        };
        if TOTAL.fetch_add(size as i64, Relaxed) + size as i64 > CAP {
            TOTAL.fetch_sub(size as i64, Relaxed);
            return std::ptr::null_mut();
        }
        let base = System.alloc(Layout::from_size_align_unchecked(size, p));
        if base.is_null() {
            return base;
        }
        let user = base.add(p);
        let owner = OWNER.try_with(|o| o.get()).unwrap_or(usize::MAX);
        let lib = owner < CALLERS;
        let h = user.sub(16) as *mut Header;
        (*h).magic = if lib { LIB } else { HARNESS };
        (*h).owner = owner as u32;
        (*h).off = p as u32;
        if lib {
            LIVE_BLOCKS[owner].fetch_add(1, Relaxed);
            LIB_ALLOCS.fetch_add(1, Relaxed);
            std::ptr::write_bytes(user, 0xA5, l.size().min(1 << 16));
        }
        user
    }
    unsafe fn dealloc(&self, user: *mut u8, l: Layout) {
        let h = user.sub(16) as *mut Header;
        let p = (*h).off as usize;
        let size = l.size() + pad(&l);
        match (*h).magic {
            HARNESS => {
                (*h).magic = FREE;
                TOTAL.fetch_sub(size as i64, Relaxed);
                System.dealloc(user.sub(p), Layout::from_size_align_unchecked(size, p));
            }
            LIB if p == pad(&l) => {
                (*h).magic = FREE;
                LIVE_BLOCKS[(*h).owner as usize].fetch_sub(1, Relaxed);
                if l.size() > 1 << 16 {
                    std::ptr::write_bytes(user, 0xDD, 256);
                    TOTAL.fetch_sub(size as i64, Relaxed);
                    System.dealloc(user.sub(p), Layout::from_size_align_unchecked(size, p));
                    return;
                }
                std::ptr::write_bytes(user, 0xDD, l.size());
                while QUAR.lock.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {
                    std::hint::spin_loop();
                }
                let i = QUAR.pos.get();
                QUAR.pos.set((i + 1) % QN);
                let slot = (QUAR.ring.as_ptr() as *mut (usize, usize, usize)).add(i);
                let old = std::ptr::replace(slot, (user.sub(p) as usize, size, p));
                QUAR.lock.store(false, Release);
                if old.0 != 0 {
                    release(old.0, old.1, old.2, old.2);
                }
            }
            _ => {
                // Freed twice, or never allocated: do not touch it.
                CORRUPT.store(2, Relaxed);
            }
        }
    }
    unsafe fn realloc(&self, ptr: *mut u8, l: Layout, new_size: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(new_size, l.align());
        let lib = (*(ptr.sub(16) as *mut Header)).magic == LIB;
        let new = self.alloc(nl);
        if !new.is_null() {
            std::ptr::copy_nonoverlapping(ptr, new, l.size().min(new_size));
            self.dealloc(ptr, l);
            if lib {
                LIB_MOVES.fetch_add(1, Relaxed);
            }
        }
        new
    }
}

/// Empties the quarantine, verifying every block in it.
pub fn flush() {
    unsafe {
        for i in 0..QN {
            let slot = (QUAR.ring.as_ptr() as *mut (usize, usize, usize)).add(i);
            let old = std::ptr::replace(slot, (0, 0, 0));
            if old.0 != 0 {
                release(old.0, old.1, old.2, old.2);
            }
        }
    }
}

/// Takes the corruption flag.
pub fn corruption() -> Option<&'static str> {
    match CORRUPT.swap(0, Relaxed) {
        0 => None,
        1 => Some("memory written after it was freed"),
        _ => Some("memory freed twice or never allocated"),
    }
}
