//! Shapes nobody should hand in, or that cannot be computed exactly: whatever
//! the answer, there is one, or a panic.
use super::*;
use crate::scalar::{Coord, FCoord, Sim};
use crate::seam::{Interrupt, Stuck};
use geo::{LineString, MultiPolygon, Polygon};
use geo_crossings::{bops::OpType, monotone_chains, BooleanOp, MonotoneSweep};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Coordinate `v` (in units) as a number the sweep has a hard time with.
pub fn odd(v: i64, wild: u64) -> f64 {
    let h = crate::rng::mix(wild ^ (v as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15));
    let f = v as f64;
    let t = (h >> 8) % 16;
    match wild % 8 {
        // Crossings that are not representable.
        0 | 1 => f,
        // A few units in the last place away.
        2 => f64::from_bits(f.to_bits().wrapping_add(t & 3)),
        3 => f / 3. + 1e9,
        // Very near each other.
        4 => 1. + f * f64::EPSILON,
        5 => f / 7.,
        // Tiny, or huge.
        6 => f * [1., 1e-9, 1e9, 1e-60, 1e60, 1e-18][(t % 6) as usize],
        _ if t == 0 => [1e90, -1e90, 1e-90, -1e-90][(h % 4) as usize],
        _ => f,
    }
}
/// Runs `f`; a panic of the library is an answer too.
pub fn dare<R>(cx: &mut Cx, f: impl FnOnce(&mut Cx) -> R) -> Option<R> {
    match catch_unwind(AssertUnwindSafe(|| f(cx))) {
        Ok(r) => Some(r),
        Err(p) => {
            if p.is::<Stuck>() {
                std::panic::resume_unwind(p);
            }
            cx.absorbed += p.is::<Interrupt>() as u64;
            None
        }
    }
}

pub struct WildJob {
    what: i64,
    a: Vec<Vec<Vec<i64>>>,
    b: Vec<Vec<Vec<i64>>>,
    op: i64,
    exp: i64,
    wild: u64,
    scalar: String,
}
fn shape(v: &Value) -> Vec<Vec<Vec<i64>>> {
    v.as_array().map(|a| a.iter().map(rows).collect()).unwrap_or_default()
}
impl WildJob {
    pub fn parse(v: &Value) -> Self {
        WildJob {
            what: int(&v["what"]),
            a: shape(&v["a"]),
            b: shape(&v["b"]),
            op: int(&v["op"]),
            exp: int(&v["exp"]),
            wild: v["wild"].as_u64().unwrap_or(0),
            scalar: v["scalar"].as_str().unwrap_or("f64").into(),
        }
    }
    fn multi<S: Coord>(&self, m: &[Vec<Vec<i64>>]) -> MultiPolygon<S> {
        let k = pow2(self.exp);
        let ls = |r: &Vec<i64>| {
            let w = |v: i64| S::of(odd(v, self.wild) * k);
            LineString(pts(r).into_iter().map(|p| geo::Coordinate { x: w(p.0), y: w(p.1) }).collect())
        };
        MultiPolygon::new(
            m.iter()
                .map(|p| match p.first() {
                    Some(e) => Polygon::new(ls(e), p[1..].iter().map(ls).collect()),
                    None => Polygon::new(LineString(vec![]), vec![]),
                })
                .collect(),
        )
    }
    fn go<S: FCoord>(&self) -> Box<dyn Task> {
        Box::new(WildTask::<S> { what: self.what, op: self.op, a: self.multi(&self.a), b: self.multi(&self.b), n: 0 })
    }
}
impl Job for WildJob {
    fn start(&self, _: usize) -> Box<dyn Task> {
        match self.scalar.as_str() {
            "sim" => self.go::<Sim>(),
            _ => self.go::<f64>(),
        }
    }
    fn props(&self) -> &'static [&'static str] {
        &["C05"]
    }
    fn release_prop(&self) -> &'static str {
        "C05"
    }
    fn sticky(&self) -> bool {
        true
    }
}
struct WildTask<S: FCoord> {
    what: i64,
    op: i64,
    a: MultiPolygon<S>,
    b: MultiPolygon<S>,
    n: usize,
}
impl<S: FCoord> Task for WildTask<S> {
    fn step(&mut self, cx: &mut Cx) -> bool {
        let op = [OpType::Intersection, OpType::Union, OpType::Difference, OpType::Xor][self.op.rem_euclid(4) as usize];
        let (a, b) = (&self.a, &self.b);
        let see = |cx: &mut Cx, c: &geo::Coordinate<S>| {
            cx.seef(c.x.raw());
            cx.seef(c.y.raw());
        };
        match self.what {
            0 => {
                let r = dare(cx, |cx| cx.api(|| a.boolean_op(b, op)));
                cx.see(r.is_some() as u64);
                for c in r.iter().flat_map(|m| &m.0).flat_map(|p| &p.exterior().0) {
                    see(cx, c);
                }
                cx.nontrivial |= r.is_some_and(|m| !m.0.is_empty());
                false
            }
            1 => {
                let Some(p) = a.0.get(self.n) else { return false };
                self.n += 1;
                let r = dare(cx, |cx| cx.api(|| monotone_chains(p)));
                cx.see(r.as_ref().map_or(0, |v| 1 + v.len() as u64));
                cx.nontrivial |= r.is_some_and(|v| v.len() > 1);
                true
            }
            _ => {
                // Events of a sweep: each vertex once, as a rule.
                let Some(p) = a.0.get(self.n) else { return false };
                self.n += 1;
                let most = 20 * p.exterior().0.len().max(4).pow(2) + 20 * p.interiors().iter().map(|r| r.0.len().max(4)).sum::<usize>().pow(2);
                let r = dare(cx, |cx| {
                    let mut it = cx.api(|| Box::pin(MonotoneSweep::from_polygon(p)));
                    let mut k = 0;
                    while k < most && cx.api(|| it.as_mut().process_event()).is_some() {
                        k += 1;
                    }
                    let r = k;
                    cx.api(|| drop(it));
                    r
                });
                let k = r.unwrap_or(0);
                cx.see(k as u64);
                cx.check("C05", k < most, || format!("no end after {most} vertices"));
                cx.nontrivial |= k > 4;
                true
            }
        }
    }
}
