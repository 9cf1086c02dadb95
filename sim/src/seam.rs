//! The seams: places inside library calls where user-supplied code runs (scalar
//! operations, geometry accessors, clones, comparators, formatters, log sinks).
//! At each the simulator may switch to another caller, or unwind the call.
use crate::alloc::OWNER;
use crate::rng::fold;
use std::cell::{Cell, RefCell};
use std::panic::resume_unwind;
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::thread::Thread;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Scalar = 0,
    Line = 1,
    Clone = 2,
    Drop = 3,
    Cmp = 4,
    Debug = 5,
    Input = 6,
    Step = 7,
    /// A lookup made by a comparator of a lookup in the same map.
    Reenter = 8,
    /// A comparator that contradicts itself.
    Lie = 9,
}
pub const KINDS: usize = 10;
pub const KIND_NAMES: [&str; KINDS] = [
    "scalar_op", "line_accessor", "clone", "drop", "comparator", "debug_format", "input_iterator", "step_boundary",
    "reentrant_lookup", "inconsistent_comparator",
];

/// Payload of an injected panic.
pub struct Interrupt(pub Kind);
/// Payload raised when a call does not finish within its budget of seams.
pub struct Stuck;

pub const BUDGET: u64 = 30_000_000;

thread_local! {
    static SEAMS: Cell<u64> = const { Cell::new(0) };
    static NEXT: Cell<u64> = const { Cell::new(u64::MAX) };
    static FAULT: Cell<u64> = const { Cell::new(u64::MAX) };
    /// Drops of user values by the library until one panics (0: it did).
    static DROPS: Cell<u64> = const { Cell::new(u64::MAX) };
    static PRINTING: Cell<bool> = const { Cell::new(false) };
    static YIELD: Cell<u64> = const { Cell::new(u64::MAX) };
    static LOGGING: Cell<bool> = const { Cell::new(false) };
    static BATON: RefCell<Option<(Arc<Baton>, usize)>> = const { RefCell::new(None) };
    static COUNTS: Cell<[u64; KINDS]> = const { Cell::new([0; KINDS]) };
}

/// Runs library code on behalf of caller `who`.
pub fn api<R>(who: usize, f: impl FnOnce() -> R) -> R {
    struct Reset(usize);
    impl Drop for Reset {
        fn drop(&mut self) {
            OWNER.with(|o| o.set(self.0));
        }
    }
    let _r = Reset(OWNER.with(|o| o.replace(who)));
    f()
}

/// Runs library code that prints: to lock the output while other callers run, who
/// may print too, would only show that the output is locked.
pub fn printing<R>(f: impl FnOnce() -> R) -> R {
    struct Reset(bool);
    impl Drop for Reset {
        fn drop(&mut self) {
            PRINTING.with(|p| p.set(self.0));
        }
    }
    let _r = Reset(PRINTING.with(|p| p.replace(true)));
    f()
}

/// Runs simulator code from within a callback.
pub fn harness<R>(f: impl FnOnce() -> R) -> R {
    api(usize::MAX, f)
}

fn renext() {
    let n = FAULT.with(|c| c.get()).min(YIELD.with(|c| c.get())).min(NESTAT.with(|c| c.get())).min(BUDGET);
    NEXT.with(|c| c.set(n));
}

#[inline]
pub fn seam(kind: Kind) {
    let n = SEAMS.with(|c| {
        let n = c.get() + 1;
        c.set(n);
        n
    });
    if n >= NEXT.with(|c| c.get()) {
        slow(kind, n);
    }
}

#[cold]
fn slow(kind: Kind, n: u64) {
    if OWNER.with(|o| o.get()) == usize::MAX && kind != Kind::Step {
        return;
    }
    let hold = kind == Kind::Debug && PRINTING.with(|p| p.get());
    if !hold && n >= YIELD.with(|c| c.get()) {
        YIELD.with(|c| c.set(u64::MAX));
        harness(|| {
            let b = BATON.with(|b| b.borrow().clone());
            if let Some((b, me)) = b {
                let q = b.switch(me, kind, n);
                YIELD.with(|c| c.set(n.saturating_add(q)));
            }
        });
        renext();
    }
    if !hold && n >= NESTAT.with(|c| c.get()) {
        harness(nested);
    }
    if std::thread::panicking() || kind == Kind::Drop || kind == Kind::Step {
        return;
    }
    if n >= FAULT.with(|c| c.get()) {
        FAULT.with(|c| c.set(u64::MAX));
        renext();
        COUNTS.with(|c| {
            let mut a = c.get();
            a[kind as usize] += 1;
            c.set(a);
        });
        harness(|| FIRED.with(|f| f.borrow_mut().push((n, kind))));
        let p = harness(|| Box::new(Interrupt(kind)));
        OWNER.with(|o| o.set(usize::MAX));
        resume_unwind(p);
    }
    if n >= BUDGET {
        // Raise it again at every seam until the call gives in.
        let p = harness(|| Box::new(Stuck));
        OWNER.with(|o| o.set(usize::MAX));
        resume_unwind(p);
    }
}

/// A user value was dropped; perhaps its destructor panics.
pub fn dropped() {
    if OWNER.with(|o| o.get()) == usize::MAX || matches!(DROPS.with(|d| d.get()), 0 | u64::MAX) || std::thread::panicking() {
        return;
    }
    let d = DROPS.with(|d| d.get());
    if d > 1 {
        DROPS.with(|c| c.set(d - 1));
        return;
    }
    DROPS.with(|c| c.set(0));
    COUNTS.with(|c| {
        let mut a = c.get();
        a[Kind::Drop as usize] += 1;
        c.set(a);
    });
    let p = harness(|| Box::new(Interrupt(Kind::Drop)));
    OWNER.with(|o| o.set(usize::MAX));
    resume_unwind(p);
}
/// Did a destructor panic?
pub fn drop_fired() -> bool {
    DROPS.with(|c| c.get()) == 0
}
pub fn set_drop(at: Option<u64>) {
    DROPS.with(|c| c.set(at.unwrap_or(u64::MAX)));
}

/// Counts a fault that is no panic.
pub fn count(kind: Kind) {
    COUNTS.with(|c| {
        let mut a = c.get();
        a[kind as usize] += 1;
        c.set(a);
    });
}

type Hook = Box<dyn FnMut()>;
thread_local! {
    /// Next seam at which the nested caller advances; further ones, last first.
    static NESTAT: Cell<u64> = const { Cell::new(u64::MAX) };
    static NEST: RefCell<(Vec<u64>, Option<Hook>)> = const { RefCell::new((Vec::new(), None)) };
}
/// Runs the hook at these distances (in seams) from each other, last first.
pub fn set_nest(mut at: Vec<u64>, hook: Hook) {
    let first = at.pop().unwrap_or(u64::MAX);
    NEST.with(|n| *n.borrow_mut() = (at, Some(hook)));
    NESTAT.with(|c| c.set(first.max(1)));
    renext();
}
pub fn clear_nest() {
    let h = NEST.with(|n| std::mem::take(&mut *n.borrow_mut()));
    NESTAT.with(|c| c.set(u64::MAX));
    renext();
    drop(h);
}
/// Goes on as the nested caller.
pub fn leave_nest() {
    restore(INNER.with(|i| i.get()));
}
fn nested() {
    let Some((mut rest, Some(mut hook))) = NEST.with(|n| n.try_borrow_mut().ok().map(|mut n| (std::mem::take(&mut n.0), n.1.take()))) else {
        NESTAT.with(|c| c.set(u64::MAX));
        return;
    };
    NESTAT.with(|c| c.set(u64::MAX));
    let outer = save();
    restore(INNER.with(|i| i.get()));
    hook();
    INNER.with(|i| i.set(save()));
    restore(outer);
    let next = rest.pop().map_or(u64::MAX, |d| outer.seams + d.max(1));
    NEST.with(|n| *n.borrow_mut() = (rest, Some(hook)));
    NESTAT.with(|c| c.set(next));
    renext();
}
thread_local! {
    static INNER: Cell<Saved> = const { Cell::new(Saved { seams: 0, fault: u64::MAX, drops: u64::MAX }) };
    static FIRED: RefCell<Vec<(u64, Kind)>> = const { RefCell::new(Vec::new()) };
}

/// Starts counting seams anew.
pub fn reset(quantum: u64) {
    SEAMS.with(|c| c.set(0));
    FAULT.with(|c| c.set(u64::MAX));
    DROPS.with(|c| c.set(u64::MAX));
    YIELD.with(|c| c.set(quantum));
    renext();
}
/// Per-caller state swapped in and out in step mode.
#[derive(Clone, Copy)]
pub struct Saved {
    pub seams: u64,
    pub fault: u64,
    pub drops: u64,
}
pub fn save() -> Saved {
    Saved { seams: SEAMS.with(|c| c.get()), fault: FAULT.with(|c| c.get()), drops: DROPS.with(|c| c.get()) }
}
pub fn restore(s: Saved) {
    SEAMS.with(|c| c.set(s.seams));
    FAULT.with(|c| c.set(s.fault));
    DROPS.with(|c| c.set(s.drops));
    renext();
}
/// Restarts the seam count (keeping the distance to the next switch).
pub fn restart() {
    let n = SEAMS.with(|c| c.replace(0));
    for d in [&YIELD, &NESTAT] {
        d.with(|c| {
            if c.get() != u64::MAX {
                c.set(c.get().saturating_sub(n).max(1))
            }
        });
    }
    renext();
}
pub fn set_fault(at: Option<u64>) {
    FAULT.with(|c| c.set(at.unwrap_or(u64::MAX)));
    renext();
}
pub fn seams() -> u64 {
    SEAMS.with(|c| c.get())
}
pub fn take_fired() -> Vec<(u64, Kind)> {
    FIRED.with(|f| std::mem::take(&mut *f.borrow_mut()))
}
pub fn take_counts() -> [u64; KINDS] {
    COUNTS.with(|c| c.replace([0; KINDS]))
}
pub fn set_logging(on: bool) {
    LOGGING.with(|l| l.set(on));
}

/// Hands the right to run from thread to thread, as the case's schedule says.
pub struct Baton {
    current: AtomicUsize,
    inner: Mutex<Inner>,
}
struct Inner {
    threads: Vec<Option<Thread>>,
    done: Vec<bool>,
    sched: Vec<(usize, u64)>,
    pos: usize,
    quantum: u64,
    hash: u64,
    switches: u64,
}

impl Baton {
    pub fn new(n: usize, sched: Vec<(usize, u64)>) -> Arc<Self> {
        Arc::new(Baton {
            current: AtomicUsize::new(usize::MAX),
            inner: Mutex::new(Inner { threads: vec![None; n], done: vec![false; n], sched, pos: 0, quantum: u64::MAX, hash: 0, switches: 0 }),
        })
    }
    fn next(inner: &mut Inner) -> Option<(usize, u64)> {
        while inner.pos < inner.sched.len() {
            let (w, q) = inner.sched[inner.pos];
            inner.pos += 1;
            if w < inner.done.len() && !inner.done[w] {
                return Some((w, q.max(1)));
            }
        }
        inner.done.iter().position(|d| !d).map(|w| (w, u64::MAX))
    }
    fn hand(&self, to: usize, q: u64, inner: &mut Inner) {
        inner.quantum = q;
        self.current.store(to, SeqCst);
        if let Some(t) = inner.threads.get(to).and_then(|t| t.as_ref()) {
            t.unpark();
        }
    }
    /// Waits for the turn of `me`; returns its quantum.
    fn wait(&self, me: usize) -> u64 {
        let mut spins = 0;
        while self.current.load(SeqCst) != me {
            spins += 1;
            if spins < 200 {
                std::hint::spin_loop();
            } else {
                std::thread::park();
            }
        }
        self.inner.lock().unwrap().quantum
    }
    /// Called once by every thread; returns when it is first scheduled.
    pub fn enter(self: &Arc<Self>, me: usize) {
        BATON.with(|b| *b.borrow_mut() = Some((self.clone(), me)));
        {
            let mut inner = self.inner.lock().unwrap();
            inner.threads[me] = Some(std::thread::current());
            if inner.threads.iter().all(|t| t.is_some()) {
                if let Some((w, q)) = Self::next(&mut inner) {
                    self.hand(w, q, &mut inner);
                }
            }
        }
        let q = self.wait(me);
        reset(q);
    }
    fn switch(&self, me: usize, kind: Kind, n: u64) -> u64 {
        {
            let mut inner = self.inner.lock().unwrap();
            inner.hash = fold(inner.hash, (me as u64) << 56 ^ (kind as u64) << 48 ^ n);
            match Self::next(&mut inner) {
                Some((w, q)) if w == me => return q,
                Some((w, q)) => {
                    inner.switches += 1;
                    self.hand(w, q, &mut inner);
                }
                None => return u64::MAX,
            }
        }
        self.wait(me)
    }
    pub fn leave(&self, me: usize) {
        let mut inner = self.inner.lock().unwrap();
        inner.done[me] = true;
        inner.hash = fold(inner.hash, 0xE000 + me as u64);
        if let Some((w, q)) = Self::next(&mut inner) {
            self.hand(w, q, &mut inner);
        }
        drop(inner);
        BATON.with(|b| *b.borrow_mut() = None);
    }
    /// Hash of the interleaving, and number of switches.
    pub fn trace(&self) -> (u64, u64) {
        let i = self.inner.lock().unwrap();
        (i.hash, i.switches)
    }
}

/// Log sink: formatting runs user-visible `Debug` code inside library calls.
pub struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        LOGGING.with(|l| l.get())
    }
    fn log(&self, r: &log::Record) {
        if LOGGING.with(|l| l.get()) {
            struct Null(u64);
            impl std::fmt::Write for Null {
                fn write_str(&mut self, s: &str) -> std::fmt::Result {
                    self.0 += s.len() as u64;
                    Ok(())
                }
            }
            let mut n = Null(0);
            let _ = std::fmt::write(&mut n, *r.args());
            LOGGED.with(|l| l.set(l.get() + 1));
            seam(Kind::Debug);
        }
    }
    fn flush(&self) {}
}
thread_local! {
    static LOGGED: Cell<u64> = const { Cell::new(0) };
}
pub fn take_logged() -> u64 {
    LOGGED.with(|l| l.replace(0))
}
