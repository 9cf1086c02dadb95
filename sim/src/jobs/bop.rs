//! Boolean operations on polygons.
use super::*;
use crate::geom::*;
use crate::scalar::{FCoord, Sim};
use crate::seam::harness;
use geo::{LineString, MultiPolygon, Polygon};
use geo_crossings::{bops::OpType, BooleanOp};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

type F = (f64, f64);
type Multi = Vec<Vec<Ring>>;

pub struct BopJob {
    a: Rc<Multi>,
    b: Rc<Multi>,
    op: i64,
    /// 0 multi-polygons, 1 single polygons where possible.
    single: bool,
    method: bool,
    exp: i64,
    nz: u64,
    general: bool,
    scalar: String,
}
fn multi(v: &Value) -> Multi {
    v.as_array().map(|a| a.iter().map(rings).collect()).unwrap_or_default()
}
/// As the library takes them.
fn hand_in<S: FCoord>(m: &Multi, k: f64, z: u64) -> MultiPolygon<S> {
    let n = std::cell::Cell::new(0);
    let at = |p: &P| coz::<S>(*p, k, z, n.replace(n.get() + 1));
    let ls = |r: &Ring| LineString(r.iter().chain(r.first()).map(&at).collect::<Vec<_>>());
    MultiPolygon::new(
        m.iter()
            .map(|p| match p.first() {
                Some(e) => Polygon::new(ls(e), p[1..].iter().map(ls).collect()),
                None => Polygon::new(LineString(vec![]), vec![]),
            })
            .collect(),
    )
}
impl BopJob {
    pub fn parse(v: &Value) -> Self {
        BopJob {
            a: Rc::new(multi(&v["a"])),
            b: Rc::new(multi(&v["b"])),
            op: int(&v["op"]),
            single: v["single"].as_bool().unwrap_or(false),
            method: v["method"].as_bool().unwrap_or(false),
            exp: int(&v["exp"]),
            nz: v["nz"].as_u64().unwrap_or(0),
            general: v["general"].as_bool().unwrap_or(false),
            scalar: v["scalar"].as_str().unwrap_or("f64").into(),
        }
    }
    fn go<S: FCoord>(&self) -> Box<dyn Task> {
        let k = pow2(self.exp);
        Box::new(BopTask::<S> {
            ma: hand_in(&self.a, k, self.nz),
            mb: hand_in(&self.b, k, self.nz.wrapping_mul(3)),
            single: self.single && self.a.len() == 1 && self.b.len() == 1,
            method: self.method,
            op: self.op,
            a: self.a.clone(),
            b: self.b.clone(),
            k,
            general: self.general,
        })
    }
}
impl Job for BopJob {
    fn start(&self, _: usize) -> Box<dyn Task> {
        match self.scalar.as_str() {
            "f32" => self.go::<f32>(),
            "sim" => self.go::<Sim>(),
            _ => self.go::<f64>(),
        }
    }
    fn props(&self) -> &'static [&'static str] {
        &["B01", "B02"]
    }
    fn release_prop(&self) -> &'static str {
        "B01"
    }
    fn valid(&self) -> bool {
        let a: Vec<Ring> = self.a.iter().flatten().cloned().collect();
        let b: Vec<Ring> = self.b.iter().flatten().cloned().collect();
        if self.general {
            let all: Vec<&Ring> = a.iter().chain(&b).collect();
            all.iter().all(|r| simple(r)) && crate::gen::general_rings(&all)
        } else {
            crate::gen::all_exact(&a, &b)
        }
    }
}
struct BopTask<S: FCoord> {
    ma: MultiPolygon<S>,
    mb: MultiPolygon<S>,
    single: bool,
    method: bool,
    op: i64,
    a: Rc<Multi>,
    b: Rc<Multi>,
    k: f64,
    general: bool,
}
fn call<B: BooleanOp>(a: &B, b: &B, op: i64, method: bool) -> MultiPolygon<B::Scalar> {
    match (op, method) {
        (0, true) => a.intersection(b),
        (1, true) => a.union(b),
        (2, true) => a.difference(b),
        (_, true) => a.xor(b),
        (0, false) => a.boolean_op(b, OpType::Intersection),
        (1, false) => a.boolean_op(b, OpType::Union),
        (2, false) => a.boolean_op(b, OpType::Difference),
        (_, false) => a.boolean_op(b, OpType::Xor),
    }
}
pub fn want(op: i64, a: bool, b: bool) -> bool {
    match op {
        0 => a && b,
        1 => a || b,
        2 => a && !b,
        _ => a ^ b,
    }
}
const OPS: [&str; 4] = ["intersection", "union", "difference", "xor"];

impl<S: FCoord> Task for BopTask<S> {
    fn step(&mut self, cx: &mut Cx) -> bool {
        let (op, m) = (self.op, self.method);
        let out = if self.single {
            cx.api(|| call(&self.ma.0[0], &self.mb.0[0], op, m))
        } else {
            cx.api(|| call(&self.ma, &self.mb, op, m))
        };
        harness(|| {
            let k = self.k;
            let out: Vec<Vec<Vec<F>>> = out
                .0
                .iter()
                .map(|p| std::iter::once(p.exterior()).chain(p.interiors()).map(|r| r.0.iter().map(|c| un(*c, k)).collect()).collect())
                .collect();
            cx.see(out.len() as u64);
            for p in &out {
                cx.see(p.len() as u64);
                for r in p {
                    for q in r {
                        cx.seef(q.0);
                        cx.seef(q.1);
                    }
                }
            }
            cx.nontrivial = !out.is_empty();
            let formed = shape(&out);
            cx.verdict("B02", formed);
            if self.general {
                let r = self.general(&out);
                cx.verdict("B01", r.0);
                cx.verdict("B02", r.1);
            } else {
                let (a, b): (Vec<Ring>, Vec<Ring>) = (self.a.iter().flatten().cloned().collect(), self.b.iter().flatten().cloned().collect());
                let r = exact(&a, &b, self.op, &out);
                cx.verdict("B01", r.0);
                cx.verdict("B02", r.1);
            }
        });
        false
    }
}

/// Closed rings with at least three distinct corners and no repeated vertex.
fn shape(out: &[Vec<Vec<F>>]) -> Result<(), String> {
    for r in out.iter().flatten() {
        if r.len() < 4 || r.first() != r.last() {
            return Err(format!("ring {r:?} is not a closed ring of three corners"));
        }
        let mut v = r[1..].to_vec();
        if v.iter().any(|p| !p.0.is_finite() || !p.1.is_finite()) {
            return Err(format!("ring {r:?} is not finite"));
        }
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        if v.windows(2).any(|w| w[0] == w[1]) {
            return Err(format!("ring {r:?} visits a vertex twice"));
        }
        let a: f64 = r.windows(2).map(|w| (w[0].0 - r[0].0) * (w[1].1 - r[0].1) - (w[1].0 - r[0].0) * (w[0].1 - r[0].1)).sum();
        if a == 0. {
            return Err(format!("ring {r:?} encloses nothing"));
        }
    }
    Ok(())
}

/// Parity per ring of a slab, and what it says about the polygons.
struct Cover {
    par: BTreeMap<(usize, usize), bool>,
}
impl Cover {
    /// Number of polygons covering the current gap; nesting errors.
    fn state(&self) -> Result<i32, String> {
        let mut n = 0;
        let mut holes: BTreeMap<usize, u32> = BTreeMap::new();
        for (&(p, j), &v) in &self.par {
            if !v {
                continue;
            }
            if j == 0 {
                n += 1;
            } else {
                n -= 1;
                let h = holes.entry(p).or_default();
                *h += 1;
                if *h > 1 {
                    return Err(format!("two holes of polygon {p} overlap"));
                }
                if !self.par.get(&(p, 0)).copied().unwrap_or(false) {
                    return Err(format!("a hole of polygon {p} is outside its exterior"));
                }
            }
        }
        if n > 1 {
            return Err("two polygons overlap".into());
        }
        Ok(n)
    }
    fn covered(&self) -> bool {
        let mut v = false;
        let mut polys: BTreeMap<usize, (bool, bool)> = BTreeMap::new();
        for (&(p, j), &x) in &self.par {
            let e = polys.entry(p).or_default();
            if j == 0 {
                e.0 = x
            } else {
                e.1 |= x
            }
        }
        for (e, h) in polys.values() {
            v |= *e && !*h;
        }
        v
    }
}

/// Exact comparison with the wanted region.
fn exact(a: &[Ring], b: &[Ring], op: i64, out: &[Vec<Vec<F>>]) -> (Result<(), String>, Result<(), String>) {
    let mut es: Vec<(Seg, u32)> = vec![];
    for (m, t) in [(a, 0), (b, 1)] {
        for r in m {
            es.extend(ring_edges(r).map(|e| (e, t)));
        }
    }
    let mut tags = vec![];
    for (i, p) in out.iter().enumerate() {
        for (j, r) in p.iter().enumerate() {
            let mut v = vec![];
            for q in r {
                match ip(*q) {
                    Some(q) => v.push(q),
                    None => return (Err(format!("{}: vertex {q:?} lies on no input edge or crossing", OPS[op as usize & 3])), Ok(())),
                }
            }
            let t = 2 + tags.len() as u32;
            tags.push((i, j));
            es.extend(v.windows(2).filter(|w| w[0] != w[1]).map(|w| (seg(w[0], w[1]), t)));
        }
    }
    let sl = match slabs(&es) {
        Ok(s) => s,
        Err(e) => return (Err(e), Ok(())),
    };
    let mut b02 = Ok(());
    for s in &sl {
        let mut inside = [false; 2];
        let mut cover = Cover { par: BTreeMap::new() };
        for (n, &(level, tag)) in s.edges.iter().enumerate() {
            if tag < 2 {
                inside[tag as usize] ^= true;
            } else {
                *cover.par.entry(tags[tag as usize - 2]).or_default() ^= true;
            }
            if s.edges.get(n + 1).is_some_and(|e| e.0 == level) {
                continue;
            }
            if b02.is_ok() {
                if let Err(e) = cover.state() {
                    b02 = Err(format!("{}, between x = {} and {}", e, s.x0, s.x1));
                }
            }
            let w = want(op, inside[0], inside[1]);
            if cover.covered() != w {
                return (
                    Err(format!(
                        "{}: region {} though it should{} be, between x = {} and {} above edge {n}",
                        OPS[op as usize & 3],
                        if w { "not covered" } else { "covered" },
                        if w { "" } else { " not" },
                        s.x0,
                        s.x1
                    )),
                    b02,
                );
            }
        }
    }
    (Ok(()), b02)
}

impl<S: FCoord> BopTask<S> {
    /// Symmetric difference with the wanted region, up to rounding.
    fn general(&self, out: &[Vec<Vec<F>>]) -> (Result<(), String>, Result<(), String>) {
        let mut es: Vec<(F, F, u32)> = vec![];
        let f = |p: P| (p.0 as f64, p.1 as f64);
        for (m, t) in [(&self.a, 0), (&self.b, 1)] {
            for r in m.iter().flatten() {
                es.extend((0..r.len()).map(|i| (f(r[i]), f(r[(i + 1) % r.len()]), t)));
            }
        }
        let mut tags = vec![];
        for (i, p) in out.iter().enumerate() {
            for (j, r) in p.iter().enumerate() {
                let t = 2 + tags.len() as u32;
                tags.push((i, j));
                es.extend(r.windows(2).map(|w| (w[0], w[1], t)));
            }
        }
        let (mut diff, mut nest) = (0., 0.);
        let mut nest_msg = BTreeSet::new();
        for (_, w, l) in fslabs(&es) {
            let mut inside = [false; 2];
            let mut cover = Cover { par: BTreeMap::new() };
            for n in 0..l.len() {
                let tag = l[n].1;
                if tag < 2 {
                    inside[tag as usize] ^= true;
                } else {
                    *cover.par.entry(tags[tag as usize - 2]).or_default() ^= true;
                }
                let h = l.get(n + 1).map_or(0., |e| e.0 - l[n].0) * w;
                if want(self.op, inside[0], inside[1]) != cover.covered() {
                    diff += h;
                }
                if let Err(e) = cover.state() {
                    nest += h;
                    nest_msg.insert(e);
                }
            }
        }
        // Coordinates go up to 2^24, rounding moves edges by far less than 0.001.
        let tol = 1e-3 * crate::gen::GEN as f64 * (1 + es.len()) as f64 * 0.05;
        let b01 = if diff > tol { Err(format!("{}: wrong on an area of {diff:.1} (allowed {tol:.1})", OPS[self.op as usize & 3])) } else { Ok(()) };
        let b02 = if nest > tol { Err(format!("{:?} on an area of {nest:.1}", nest_msg.first())) } else { Ok(()) };
        (b01, b02)
    }
}

/// A history of operations, each on the result of the previous one.
pub struct HistoryJob {
    shapes: Rc<Vec<Multi>>,
    /// [operation, other operand (or the result itself), 1: swapped, 2: as single polygons, 4: as method]
    ops: Rc<Vec<Vec<i64>>>,
    exp: i64,
    nz: u64,
    scalar: String,
}
impl HistoryJob {
    pub fn parse(v: &Value) -> Self {
        HistoryJob {
            shapes: Rc::new(v["shapes"].as_array().map(|a| a.iter().map(multi).collect()).unwrap_or_default()),
            ops: Rc::new(rows(&v["ops"]).into_iter().filter(|o| o.len() == 3).collect()),
            exp: int(&v["exp"]),
            nz: v["nz"].as_u64().unwrap_or(0),
            scalar: v["scalar"].as_str().unwrap_or("f64").into(),
        }
    }
    fn go<S: FCoord>(&self) -> Box<dyn Task> {
        let k = pow2(self.exp);
        let shapes: Vec<MultiPolygon<S>> = self.shapes.iter().map(|m| hand_in(m, k, self.nz)).collect();
        Box::new(HistoryTask::<S> {
            acc: shapes[0].clone(),
            rings: self.shapes[0].iter().flatten().cloned().collect(),
            shapes,
            from: self.shapes.clone(),
            ops: self.ops.clone(),
            at: 0,
            part: 0,
            k,
        })
    }
}
impl Job for HistoryJob {
    fn start(&self, _: usize) -> Box<dyn Task> {
        match self.scalar.as_str() {
            "f32" => self.go::<f32>(),
            "sim" => self.go::<Sim>(),
            _ => self.go::<f64>(),
        }
    }
    fn props(&self) -> &'static [&'static str] {
        &["B01", "B02", "M01"]
    }
    fn release_prop(&self) -> &'static str {
        "B01"
    }
    fn valid(&self) -> bool {
        !self.shapes.is_empty()
    }
}
struct HistoryTask<S: FCoord> {
    acc: MultiPolygon<S>,
    /// The rings of `acc`.
    rings: Vec<Ring>,
    shapes: Vec<MultiPolygon<S>>,
    from: Rc<Vec<Multi>>,
    ops: Rc<Vec<Vec<i64>>>,
    at: usize,
    part: usize,
    k: f64,
}
impl<S: FCoord> Task for HistoryTask<S> {
    fn step(&mut self, cx: &mut Cx) -> bool {
        let k = self.k;
        let Some(o) = self.ops.get(self.at) else {
            // Decompose what came out, where it is a valid polygon by itself.
            let Some(p) = self.acc.0.get(self.part) else { return false };
            self.part += 1;
            let rs: Vec<Ring> = harness(|| {
                let f = |l: &LineString<S>| l.0[1..].iter().map(|c| ip(un(*c, k)).unwrap()).collect();
                std::iter::once(p.exterior()).chain(p.interiors()).map(f).collect()
            });
            if !harness(|| super::mono::valid(&rs)) {
                return true;
            }
            let v = cx.api(|| geo_crossings::monotone_chains(p));
            super::mono::judge(cx, &v, &rs, k);
            return cx.bad.is_empty();
        };
        self.at += 1;
        let (op, with, flip) = (o[0], o[1], o[2] & 1 != 0);
        let own = with < 0;
        let other = with.max(0) as usize % self.shapes.len();
        let b: Vec<Ring> = if own { self.rings.clone() } else { self.from[other].iter().flatten().cloned().collect() };
        // Crossings that are no integer points cannot be judged.
        if self.rings.len() + b.len() > 60 || !harness(|| crate::gen::all_exact(&self.rings, &b)) {
            self.at = self.ops.len();
            return true;
        }
        let out = {
            let acc = &self.acc;
            let (p, q) = if own { (acc, acc) } else { (acc, &self.shapes[other]) };
            let (p, q) = if flip { (q, p) } else { (p, q) };
            let m = o[2] & 4 != 0;
            if p.0.len() == 1 && q.0.len() == 1 && o[2] & 2 != 0 {
                cx.api(|| call(&p.0[0], &q.0[0], op, m))
            } else {
                cx.api(|| call(p, q, op, m))
            }
        };
        let mut next = None;
        harness(|| {
            let got: Vec<Vec<Vec<F>>> = out
                .0
                .iter()
                .map(|p| std::iter::once(p.exterior()).chain(p.interiors()).map(|r| r.0.iter().map(|c| un(*c, k)).collect()).collect())
                .collect();
            for q in got.iter().flatten().flatten() {
                cx.seef(q.0);
                cx.seef(q.1);
            }
            cx.see(got.len() as u64);
            cx.nontrivial |= self.at > 1 && !got.is_empty();
            let formed = shape(&got);
            let ok = formed.is_ok();
            cx.verdict("B02", formed);
            let r = if flip { exact(&b, &self.rings, op, &got) } else { exact(&self.rings, &b, op, &got) };
            cx.verdict("B01", r.0);
            cx.verdict("B02", r.1);
            let rs: Option<Vec<Ring>> = got.iter().flatten().map(|r| r.get(1..)?.iter().map(|p| ip(*p)).collect()).collect();
            next = rs.filter(|_| ok);
        });
        let Some(rs) = next else { return false };
        self.rings = rs;
        cx.api(|| self.acc = out);
        cx.bad.is_empty()
    }
}
