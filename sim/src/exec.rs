//! Deterministic execution of a case.
use crate::alloc::{self, CALLERS, LIVE_BLOCKS, OWNER};
use crate::jobs::{self, int, ints, message, Cx, Job, Task};
use crate::rng::fold;
use crate::seam::{self, Baton, Interrupt, Kind, Stuck, KINDS};
use crate::{sys, token};
use serde_json::Value;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::*;
use std::sync::Arc;

thread_local! {
    /// Where the last panic on this thread was raised.
    static LOC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install() {
    std::panic::set_hook(Box::new(|i| {
        seam::harness(|| {
            let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let _ = LOC.try_with(|c| *c.borrow_mut() = l);
        })
    }));
    static SINK: seam::Sink = seam::Sink;
    let _ = log::set_logger(&SINK);
    log::set_max_level(log::LevelFilter::Trace);
}

#[derive(Clone)]
pub struct Attempt {
    faults: Vec<u64>,
    stop: Option<u64>,
    /// The destructor call that panics.
    drop: Option<u64>,
}
pub struct Caller {
    job: Value,
    attempts: Vec<Attempt>,
}
/// What one attempt observed.
#[derive(Clone, PartialEq, Debug)]
pub struct Seen {
    pub steps: Vec<u64>,
    pub interrupted: bool,
    pub stopped: bool,
}
#[derive(Default)]
pub struct Stats {
    pub fired: [u64; KINDS],
    pub abandoned: u64,
    pub seams: u64,
    pub steps: u64,
    pub checks: u64,
    pub switches: u64,
    pub attempts: u64,
    pub logged: u64,
    pub runs: u64,
    pub interleavings: Vec<u64>,
}
#[derive(Default)]
pub struct Outcome {
    pub bad: Vec<(String, String)>,
    pub known: Vec<(String, String)>,
    pub nontrivial: bool,
    pub stats: Stats,
    pub digest: u64,
}

/// Steps one caller through its attempts.
struct Runner {
    who: usize,
    job: Box<dyn Job>,
    attempts: Vec<Attempt>,
    k: usize,
    task: Option<Box<dyn Task>>,
    cx: Cx,
    saved: seam::Saved,
    faults: Vec<u64>,
    seen: Vec<Seen>,
    cur: Vec<u64>,
    steps: u64,
    seams: u64,
    abandoned: u64,
    leaks: Vec<i64>,
}
impl Runner {
    fn new(who: usize, c: &Caller) -> Result<Runner, String> {
        let job = jobs::make(&c.job)?;
        if !job.valid() {
            return Err("invalid".into());
        }
        Ok(Runner {
            who,
            job,
            attempts: c.attempts.clone(),
            k: 0,
            task: None,
            cx: Cx::new(who),
            saved: seam::Saved { seams: 0, fault: u64::MAX, drops: u64::MAX },
            faults: vec![],
            seen: vec![],
            cur: vec![],
            steps: 0,
            seams: 0,
            abandoned: 0,
            leaks: vec![],
        })
    }
    fn done(&self) -> bool {
        self.k >= self.attempts.len()
    }
    fn arm(&mut self) {
        while self.faults.first().is_some_and(|f| *f <= seam::seams()) {
            self.faults.remove(0);
        }
        seam::set_fault(self.faults.first().copied());
    }
    /// One step; false when there is nothing left to do.
    fn advance(&mut self) -> bool {
        if self.done() {
            return false;
        }
        if self.task.is_none() {
            token::reset(self.who as u32);
            LIVE_BLOCKS[self.who].store(0, Relaxed);
            seam::restart();
            seam::set_drop(self.attempts[self.k].drop);
            self.faults = self.attempts[self.k].faults.clone();
            self.task = Some(self.job.start(self.who));
            self.cur.clear();
            self.steps = 0;
        }
        self.arm();
        self.cx.acc = 0;
        let mut task = self.task.take().unwrap();
        let cx = &mut self.cx;
        let r = catch_unwind(AssertUnwindSafe(|| task.step(cx)));
        OWNER.with(|o| o.set(usize::MAX));
        seam::set_fault(None);
        seam::seam(Kind::Step);
        self.steps += 1;
        let mut over = None;
        match r {
            Ok(more) => {
                self.cur.push(self.cx.acc);
                if !more {
                    over = Some((false, false));
                } else if self.attempts[self.k].stop.is_some_and(|s| self.steps >= s) {
                    self.abandoned += 1;
                    over = Some((false, true));
                }
            }
            Err(p) => {
                over = Some((true, false));
                if p.is::<Stuck>() {
                    for q in self.job.props() {
                        self.cx.bad(q, "no progress: call not finished after its budget of steps");
                    }
                } else if !p.is::<Interrupt>() {
                    let at = LOC.with(|l| l.borrow().clone());
                    let at = at.rsplit("/src/").next().unwrap_or("").to_string();
                    let m = format!("panicked: {} ({at})", message(&*p).lines().next().unwrap_or(""));
                    for q in self.job.props() {
                        self.cx.bad(q, m.clone());
                    }
                }
            }
        }
        match over {
            None => {
                self.task = Some(task);
                true
            }
            Some((interrupted, stopped)) => {
                let who = self.who;
                if !self.cx.bad.is_empty() {
                    // Never run library destructors after a failure.
                    std::mem::forget(task);
                    self.seen.push(Seen { steps: std::mem::take(&mut self.cur), interrupted, stopped });
                    self.k = self.attempts.len();
                    return false;
                }
                let r = catch_unwind(AssertUnwindSafe(|| seam::api(who, || drop(task))));
                OWNER.with(|o| o.set(usize::MAX));
                let fired = seam::drop_fired();
                seam::set_drop(None);
                if let Err(p) = r {
                    if !p.is::<Interrupt>() {
                        let rp = self.job.release_prop();
                        self.cx.bad(rp, format!("panicked while being dropped: {}", message(&*p)));
                    }
                }
                self.finish(interrupted, stopped, fired);
                !self.done()
            }
        }
    }
    fn finish(&mut self, interrupted: bool, stopped: bool, drop_fired: bool) {
        let rp = self.job.release_prop();
        let a = self.who as u32;
        if let Some(e) = token::error(a).or_else(token::garbage) {
            self.cx.bad(rp, e);
        }
        let l = token::live(a);
        // rustc forgets a value about to be returned when a destructor panics.
        if l > drop_fired as usize {
            self.cx.bad(rp, format!("{l} of {} copies of values were never dropped", token::copies(a)));
        }
        // A forgotten value keeps its memory: report that once.
        self.leaks.push(if l == 0 { LIVE_BLOCKS[self.who].load(Relaxed) } else { 0 });
        self.seen.push(Seen { steps: std::mem::take(&mut self.cur), interrupted, stopped });
        self.seams += seam::seams();
        self.k += 1;
        if !self.cx.bad.is_empty() {
            self.k = self.attempts.len();
        }
    }
}
impl Drop for Runner {
    fn drop(&mut self) {
        // Never run library destructors after a failure.
        if let Some(t) = self.task.take() {
            std::mem::forget(t);
        }
    }
}

/// Result of one execution of callers.
struct Done {
    seen: Vec<Vec<Seen>>,
    bad: Vec<(usize, &'static str, String)>,
    known: Vec<(&'static str, String)>,
    nontrivial: bool,
    leaks: Vec<Vec<i64>>,
    stats: Stats,
}
fn collect(d: &mut Done, i: usize, r: &mut Runner) {
    d.seen[i] = std::mem::take(&mut r.seen);
    d.leaks[i] = std::mem::take(&mut r.leaks);
    d.bad.extend(r.cx.bad.drain(..).map(|b| (i, b.0, b.1)));
    d.known.append(&mut r.cx.known);
    d.nontrivial |= r.cx.nontrivial;
    d.stats.checks += r.cx.checks;
    d.stats.abandoned += r.abandoned;
    d.stats.seams += r.seams;
    d.stats.steps += d.seen[i].iter().map(|s| s.steps.len() as u64).sum::<u64>();
    d.stats.attempts += d.seen[i].len() as u64;
}
fn thread_stats(d: &mut Done) {
    for (a, b) in d.stats.fired.iter_mut().zip(seam::take_counts()) {
        *a += b;
    }
    seam::take_fired();
    d.stats.logged += seam::take_logged();
}
fn merge(d: &mut Done, o: Done) {
    for (i, s) in o.seen.into_iter().enumerate() {
        if !s.is_empty() {
            d.seen[i] = s;
        }
    }
    for (i, l) in o.leaks.into_iter().enumerate() {
        if !l.is_empty() {
            d.leaks[i] = l;
        }
    }
    d.bad.extend(o.bad);
    d.known.extend(o.known);
    d.nontrivial |= o.nontrivial;
    add(&mut d.stats, &o.stats);
}
pub fn add(a: &mut Stats, b: &Stats) {
    for (x, y) in a.fired.iter_mut().zip(b.fired) {
        *x += y;
    }
    a.abandoned += b.abandoned;
    a.seams += b.seams;
    a.steps += b.steps;
    a.checks += b.checks;
    a.switches += b.switches;
    a.attempts += b.attempts;
    a.logged += b.logged;
    a.runs += b.runs;
    a.interleavings.extend(&b.interleavings);
}
fn empty(n: usize) -> Done {
    Done { seen: vec![vec![]; n], bad: vec![], known: vec![], nontrivial: false, leaks: vec![vec![]; n], stats: Stats::default() }
}
const STACK: usize = 8 << 20;
fn on_thread<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, f).unwrap().join().unwrap_or_else(|p| std::panic::resume_unwind(p))
    })
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    /// Callers alternate between calls, on one thread.
    Step,
    /// Each on its own thread, switched inside calls.
    Thread,
    /// The second caller runs inside a call of the first.
    Nest,
}
/// Runs some callers (by index) as one simulation.
fn simulate(cs: &[Caller], which: &[usize], mode: Mode, sched: &[(usize, u64)], logging: bool) -> Result<Done, String> {
    let n = cs.len();
    match mode {
        Mode::Thread => {
            let baton = Baton::new(which.len(), sched.to_vec());
            let parts: Vec<Result<Done, String>> = std::thread::scope(|s| {
                let hs: Vec<_> = which
                    .iter()
                    .enumerate()
                    .map(|(slot, &i)| {
                        let b: Arc<Baton> = baton.clone();
                        let c = &cs[i];
                        std::thread::Builder::new()
                            .stack_size(STACK)
                            .spawn_scoped(s, move || {
                                let r = Runner::new(i, c);
                                b.enter(slot);
                                seam::set_logging(logging);
                                let mut d = empty(n);
                                let r = r.map(|mut r| {
                                    while r.advance() {}
                                    collect(&mut d, i, &mut r);
                                    thread_stats(&mut d);
                                });
                                b.leave(slot);
                                r.map(|_| d)
                            })
                            .unwrap()
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("harness thread died".into()))).collect()
            });
            let mut d = empty(n);
            for p in parts {
                merge(&mut d, p?);
            }
            let (h, sw) = baton.trace();
            d.stats.switches += sw;
            d.stats.interleavings.push(h);
            Ok(d)
        }
        Mode::Step => on_thread(|| {
            seam::reset(u64::MAX);
            seam::set_logging(logging);
            let mut rs = vec![];
            for &i in which {
                rs.push(Runner::new(i, &cs[i])?);
            }
            let mut d = empty(n);
            let mut hash = 0;
            let mut last = usize::MAX;
            let mut pos = 0;
            loop {
                let (mut w, mut q) = if pos < sched.len() { sched[pos] } else { (usize::MAX, u64::MAX) };
                pos += 1;
                if w >= rs.len() || rs[w].done() {
                    if pos <= sched.len() {
                        continue;
                    }
                    match rs.iter().position(|r| !r.done()) {
                        Some(i) => (w, q) = (i, u64::MAX),
                        None => break,
                    }
                }
                if last != w {
                    d.stats.switches += (last != usize::MAX) as u64;
                    last = w;
                }
                let r = &mut rs[w];
                seam::restore(r.saved);
                let mut ran = 0;
                while ran < q.max(1) {
                    ran += 1;
                    if !r.advance() {
                        break;
                    }
                }
                r.saved = seam::save();
                hash = fold(hash, (w as u64) << 32 | ran);
            }
            d.stats.interleavings.push(hash);
            for (slot, &i) in which.iter().enumerate() {
                collect(&mut d, i, &mut rs[slot]);
            }
            thread_stats(&mut d);
            Ok(d)
        }),
        Mode::Nest => on_thread(|| {
            seam::reset(u64::MAX);
            seam::set_logging(logging);
            let mut outer = Runner::new(which[0], &cs[which[0]])?;
            let inner = std::rc::Rc::new(RefCell::new(Runner::new(which[1], &cs[which[1]])?));
            let mut d = empty(n);
            let mut at: Vec<u64> = sched.iter().map(|s| s.1).collect();
            at.reverse();
            let ran = std::rc::Rc::new(std::cell::Cell::new(0u64));
            let (i2, ran2) = (inner.clone(), ran.clone());
            // Each time: the inner caller advances one step inside the call.
            seam::set_nest(
                at,
                Box::new(move || {
                    if let Ok(mut r) = i2.try_borrow_mut() {
                        ran2.set(ran2.get() + 1);
                        r.advance();
                    }
                }),
            );
            while outer.advance() {}
            seam::clear_nest();
            d.stats.switches += ran.get();
            let mut inner = inner.borrow_mut();
            seam::leave_nest();
            while inner.advance() {}
            d.stats.interleavings.push(fold(0x4e57, sched.iter().fold(0, |h, s| fold(h, s.1))));
            collect(&mut d, which[0], &mut outer);
            collect(&mut d, which[1], &mut inner);
            thread_stats(&mut d);
            Ok(d)
        }),
    }
}

fn parse(case: &Value) -> Result<(Vec<Caller>, Mode, Vec<(usize, u64)>), String> {
    let mut cs = vec![];
    for c in case["callers"].as_array().ok_or("no callers")? {
        let attempts = c["attempts"]
            .as_array()
            .map(|a| {
                a.iter()
                    .map(|a| {
                        let mut faults: Vec<u64> = ints(&a["faults"]).into_iter().filter(|f| *f > 0).map(|f| f as u64).collect();
                        faults.sort();
                        Attempt { faults, stop: a["stop"].as_u64(), drop: a["drop"].as_u64().filter(|d| *d > 0) }
                    })
                    .collect()
            })
            .unwrap_or_default();
        cs.push(Caller { job: c["job"].clone(), attempts });
    }
    if cs.is_empty() || cs.len() > CALLERS {
        return Err("bad number of callers".into());
    }
    let mode = match case["mode"].as_str() {
        Some("thread") => Mode::Thread,
        Some("nest") if cs.len() >= 2 => Mode::Nest,
        _ => Mode::Step,
    };
    let sched = case["sched"]
        .as_array()
        .map(|a| a.iter().map(|s| (int(&s[0]) as usize, int(&s[1]) as u64)).collect())
        .unwrap_or_default();
    Ok((cs, mode, sched))
}

/// Executes a case and judges it.
pub fn run(case: &Value) -> Result<Outcome, String> {
    let (cs, mode, sched) = parse(case)?;
    let n = cs.len();
    let logging = case["log"].as_bool().unwrap_or(false);
    let entropy = case["entropy"].as_u64().unwrap_or(1) | 1;
    let which: Vec<usize> = match mode {
        Mode::Nest => vec![0, 1],
        _ => (0..n).collect(),
    };
    sys::simulate(entropy);
    let r = simulate(&cs, &which, mode, &sched, logging);
    let mut d = match r {
        Ok(d) => d,
        Err(e) => {
            sys::simulate(0);
            return Err(e);
        }
    };
    d.stats.runs += 1;
    let mut out = Outcome { nontrivial: d.nontrivial, ..Default::default() };
    for (i, p, m) in &d.bad {
        out.bad.push((p.to_string(), format!("caller {i}: {m}")));
    }
    // Memory left over: allowed if it does not grow (a cache), or it is a leak.
    if out.bad.is_empty() {
        for i in 0..n {
            if d.leaks[i].iter().any(|l| *l > 0) {
                // What does one more execution on the same thread leave behind?
                let k = cs[i].attempts.len();
                let rep: Vec<Attempt> = (0..3 * k).map(|j| cs[i].attempts[j % k].clone()).collect();
                let again = Caller { job: cs[i].job.clone(), attempts: rep };
                let mut cs2: Vec<Caller> = cs.iter().map(|c| Caller { job: c.job.clone(), attempts: vec![] }).collect();
                cs2[i] = again;
                if let Ok(e) = simulate(&cs2, &[i], Mode::Step, &[], logging) {
                    let more = e.leaks[i].iter().skip(2 * k).copied().max().unwrap_or(0);
                    if more > 0 {
                        let rp = jobs::make(&cs[i].job)?.release_prop();
                        out.bad.push((rp.to_string(), format!("caller {i}: {more} blocks of memory never released")));
                    }
                }
            }
        }
    }
    // What fails among others but not alone (in a fresh process) is interference.
    if case["compare"].as_bool().unwrap_or(false) && !out.bad.is_empty() && n > 1 {
        let exe = std::env::current_exe().map(|e| e.display().to_string()).unwrap_or_default();
        let failed: Vec<(usize, &'static str, String)> = d.bad.iter().filter(|b| b.1 != "X01").cloned().collect();
        for (i, p, m) in failed.into_iter().take(2) {
            let alone = serde_json::json!({
                "property": p, "mode": "step", "sched": [], "log": logging, "entropy": entropy, "callers": [case["callers"][i]],
            });
            let r = crate::proc::run(&exe, &[alone], std::time::Duration::from_secs(20));
            let fine = r.died.is_none() && !r.hung && r.out.first().is_some_and(|o| o["bad"].as_array().is_some_and(|b| b.is_empty()));
            if fine {
                out.bad.push(("X01".into(), format!("caller {i} only fails among others: {m}")));
            }
        }
    }
    // The same callers alone, in another environment.
    if case["compare"].as_bool().unwrap_or(false) && out.bad.is_empty() {
        let other = case["other"].as_object();
        let log2 = other.and_then(|o| o.get("log")).and_then(|v| v.as_bool()).unwrap_or(logging);
        sys::simulate(crate::rng::mix(entropy) | 1);
        let _skew: Vec<Vec<u8>> = (0..case["skew"].as_u64().unwrap_or(0) % 64).map(|i| vec![1; 16 + 24 * i as usize]).collect();
        for &i in &which {
            let e = match simulate(&cs, &[i], Mode::Step, &[], log2) {
                Ok(e) => e,
                Err(_) => continue,
            };
            add(&mut d.stats, &e.stats);
            d.stats.runs += 1;
            let sticky = jobs::make(&cs[i].job)?.sticky();
            if let Some(m) = differ(&d.seen[i], &e.seen[i], &cs[i].attempts, logging == log2, sticky) {
                let how = match (mode, n) {
                    (Mode::Nest, _) => "inside / around a call of another caller",
                    (_, 1) => "",
                    (Mode::Thread, _) => "among threads",
                    _ => "interleaved with others",
                };
                let env = if logging != log2 { ", logging the other way" } else { "" };
                out.bad.push(("X01".into(), format!("caller {i} observes something else {how}{} than alone{env}: {m}", if n == 1 { "the first time" } else { "" })));
            }
            for (_, p, m) in e.bad {
                out.bad.push((p.into(), format!("caller {i} alone: {m}")));
                out.bad.push(("X01".into(), format!("caller {i} alone: {m}")));
            }
        }
    }
    sys::simulate(0);
    if let Some(c) = alloc::corruption() {
        let who: BTreeMap<&str, ()> = cs.iter().filter_map(|c| jobs::make(&c.job).ok()).map(|j| (j.release_prop(), ())).collect();
        for p in who.keys() {
            out.bad.push((p.to_string(), c.to_string()));
        }
    }
    out.known = d.known.iter().map(|k| (k.0.to_string(), k.1.clone())).collect();
    let mut h = 0;
    for s in d.seen.iter().flatten() {
        h = fold(h, s.interrupted as u64 * 2 + s.stopped as u64);
        for v in &s.steps {
            h = fold(h, *v);
        }
    }
    for (p, m) in &out.bad {
        for b in p.bytes().chain(m.bytes()) {
            h = fold(h, b as u64);
        }
    }
    out.digest = h;
    out.stats = d.stats;
    Ok(out)
}

/// First difference between two observations of the same attempts.
fn differ(a: &[Seen], b: &[Seen], at: &[Attempt], same_log: bool, sticky: bool) -> Option<String> {
    for (k, (x, y)) in a.iter().zip(b).enumerate() {
        // Logging adds seams: faults absorbed midway hit somewhere else.
        if !same_log && sticky && at.get(k).is_some_and(|a| !a.faults.is_empty()) {
            continue;
        }
        let cut = x.interrupted || y.interrupted || x.stopped || y.stopped;
        if let Some(i) = x.steps.iter().zip(&y.steps).position(|(p, q)| p != q) {
            return Some(format!("attempt {k}, step {i}"));
        }
        let exact = same_log || !cut;
        if exact && (x.steps.len() != y.steps.len() || x.interrupted != y.interrupted) {
            return Some(format!("attempt {k} takes {} steps instead of {}", x.steps.len(), y.steps.len()));
        }
    }
    if a.len() != b.len() {
        return Some("different number of attempts".into());
    }
    None
}
