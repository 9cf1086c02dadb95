//! Jobs: what one caller does with one part of the library, and what it checks.
use crate::alloc::OWNER;
use crate::rng::fold;
use crate::scalar::Coord;
use crate::seam;
use geo::Coordinate;
use serde_json::Value;

pub mod big;
pub mod bop;
pub mod cost;
pub mod cross;
pub mod deep;
pub mod mono;
pub mod piece;
pub mod scan;
pub mod splay;
pub mod wild;

/// What a caller has seen so far.
pub struct Cx {
    pub who: usize,
    /// Digest of what the current step observed.
    pub acc: u64,
    /// Violations: property and message.
    pub bad: Vec<(&'static str, String)>,
    /// Oracle comparisons made.
    pub checks: u64,
    /// Did the job do something worth counting?
    pub nontrivial: bool,
    /// Accepted deviations listed as known findings.
    pub known: Vec<(&'static str, String)>,
    /// Internal faults already handled by the task.
    pub absorbed: u64,
}
impl Cx {
    pub fn new(who: usize) -> Cx {
        Cx { who, acc: 0, bad: vec![], checks: 0, nontrivial: false, known: vec![], absorbed: 0 }
    }
    /// Calls into the library.
    pub fn api<R>(&self, f: impl FnOnce() -> R) -> R {
        seam::api(self.who, f)
    }
    pub fn see(&mut self, v: u64) {
        self.acc = fold(self.acc, v);
    }
    pub fn seef(&mut self, v: f64) {
        self.see(v.to_bits());
    }
    pub fn sees(&mut self, s: &str) {
        for b in s.as_bytes().chunks(8) {
            let mut a = [0; 8];
            a[..b.len()].copy_from_slice(b);
            self.see(u64::from_le_bytes(a));
        }
    }
    pub fn bad(&mut self, p: &'static str, m: impl Into<String>) {
        if self.bad.len() < 20 {
            self.bad.push((p, m.into()));
        }
    }
    pub fn check(&mut self, p: &'static str, ok: bool, m: impl FnOnce() -> String) -> bool {
        self.checks += 1;
        if !ok {
            self.bad(p, m());
        }
        ok
    }
    /// Runs `f`, reporting what it finds against `p`.
    pub fn verdict(&mut self, p: &'static str, r: Result<(), String>) {
        self.checks += 1;
        if let Err(e) = r {
            self.bad(p, e);
        }
    }
}

/// One attempt at a job; stepped until it returns false, or dropped before.
pub trait Task {
    fn step(&mut self, cx: &mut Cx) -> bool;
}
pub trait Job {
    fn start(&self, who: usize) -> Box<dyn Task>;
    /// Properties broken by a panic of, or an endless loop in, the library.
    fn props(&self) -> &'static [&'static str];
    /// Property broken by memory or values that are never, or twice, released.
    fn release_prop(&self) -> &'static str;
    /// Does the final state after a fault depend on where it hit?
    fn sticky(&self) -> bool {
        false
    }
    /// Simulator's own precondition on the case.
    fn valid(&self) -> bool {
        true
    }
}

pub fn make(v: &Value) -> Result<Box<dyn Job>, String> {
    let k = v["kind"].as_str().ok_or("job without kind")?;
    Ok(match k {
        "cross" | "inter" => Box::new(cross::CrossJob::parse(v)),
        "bop" => Box::new(bop::BopJob::parse(v)),
        "bops" => Box::new(bop::HistoryJob::parse(v)),
        "mono" => Box::new(mono::MonoJob::parse(v)),
        "msweep" => Box::new(mono::SweepJob::parse(v)),
        "scan" => Box::new(scan::ScanJob::parse(v)),
        "raster" => Box::new(scan::RasterJob::parse(v)),
        "piece" => Box::new(piece::PieceJob::parse(v)),
        "splay" => Box::new(splay::SplayJob::parse(v)),
        "scost" => Box::new(cost::SplayCost::parse(v)),
        "xcost" => Box::new(cost::SweepCost::parse(v)),
        "wild" => Box::new(wild::WildJob::parse(v)),
        "deep" => Box::new(deep::DeepJob::parse(v)),
        "big" => Box::new(big::BigJob::parse(v)),
        _ => return Err(format!("unknown job {k}")),
    })
}

pub fn int(v: &Value) -> i64 {
    v.as_i64().unwrap_or(0)
}
pub fn ints(v: &Value) -> Vec<i64> {
    v.as_array().map(|a| a.iter().map(int).collect()).unwrap_or_default()
}
pub fn rows(v: &Value) -> Vec<Vec<i64>> {
    v.as_array().map(|a| a.iter().map(ints).collect()).unwrap_or_default()
}
/// `[x, y, x, y, ...]` as points.
pub fn pts(v: &[i64]) -> Vec<(i64, i64)> {
    v.chunks(2).filter(|c| c.len() == 2).map(|c| (c[0], c[1])).collect()
}
pub fn flat(v: &[(i64, i64)]) -> Vec<i64> {
    v.iter().flat_map(|p| [p.0, p.1]).collect()
}
pub fn rings(v: &Value) -> Vec<Vec<(i64, i64)>> {
    rows(v).iter().map(|r| pts(r)).collect()
}
/// Scales by a power of two, which is exact.
pub fn pow2(e: i64) -> f64 {
    2f64.powi(e as i32)
}
pub fn co<S: Coord>(p: (i64, i64), k: f64) -> Coordinate<S> {
    Coordinate { x: S::of(p.0 as f64 * k), y: S::of(p.1 as f64 * k) }
}
/// The same, with zeros of either sign: `z` (if not 0) chooses.
pub fn coz<S: Coord>(p: (i64, i64), k: f64, z: u64, i: usize) -> Coordinate<S> {
    let c = co(p, k);
    if z == 0 {
        return c;
    }
    let h = crate::rng::mix(z.wrapping_mul(2 * i as u64 + 1));
    let f = |v: S, neg: bool| if neg && v.raw() == 0. { S::of(-0.0) } else { v };
    Coordinate { x: f(c.x, h & 1 != 0), y: f(c.y, h & 2 != 0) }
}
/// Back to integer units (not rounded).
pub fn un<S: Coord>(c: Coordinate<S>, k: f64) -> (f64, f64) {
    (c.x.raw() / k, c.y.raw() / k)
}
pub fn ip(p: (f64, f64)) -> Option<(i64, i64)> {
    if p.0.fract() == 0. && p.1.fract() == 0. && p.0.abs() < 1e15 && p.1.abs() < 1e15 {
        Some((p.0 as i64, p.1 as i64))
    } else {
        None
    }
}
pub fn in_library() -> bool {
    OWNER.with(|o| o.get()) != usize::MAX
}

/// Message of a panic payload.
pub fn message(p: &(dyn std::any::Any + Send)) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
}
