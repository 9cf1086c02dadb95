//! Monotone decomposition, and the sweep below it.
use super::*;
use crate::geom::*;
use crate::scalar::Sim;
use crate::seam::harness;
use geo::{GeoNum, LineString, Polygon};
use geo_crossings::{monotone_chains, MonotoneSweep};
use std::collections::BTreeSet;
use std::pin::Pin;
use std::rc::Rc;

macro_rules! by_scalar {
    ($s:expr, $f:ident, $self:ident $(, $a:expr)*) => {
        match $s.as_str() {
            "i32" => $self.$f::<i32>($($a),*),
            "i64" => $self.$f::<i64>($($a),*),
            "i16" => $self.$f::<i16>($($a),*),
            "f32" => $self.$f::<f32>($($a),*),
            "sim" => $self.$f::<Sim>($($a),*),
            _ => $self.$f::<f64>($($a),*),
        }
    };
}
fn parse(v: &Value) -> (Vec<Ring>, i64, String) {
    let scalar: String = v["scalar"].as_str().unwrap_or("f64").into();
    let exp = if scalar.starts_with('i') { 0 } else { int(&v["exp"]) };
    (rings(&v["rings"]), exp, scalar)
}
/// Simple rings, holes inside, nothing touching.
pub fn valid(rs: &[Ring]) -> bool {
    if rs.is_empty() || rs.iter().any(|r| !simple(r)) {
        return false;
    }
    for i in 0..rs.len() {
        for j in 0..i {
            if ring_edges(&rs[i]).any(|s| ring_edges(&rs[j]).any(|t| touch(&s, &t))) {
                return false;
            }
            let d = |p: P| (2 * p.0, 2 * p.1);
            let (a, b) = (inside2(&rs[j], d(rs[i][0])), inside2(&rs[i], d(rs[j][0])));
            if b || a != (j == 0) {
                return false;
            }
        }
    }
    true
}
/// Vertices to hand in repeatedly: ring, vertex.
fn repeats(v: &Value) -> Vec<(usize, usize)> {
    v["rep"].as_array().map_or(vec![], |a| a.iter().map(|p| (int(&p[0]) as usize, int(&p[1]) as usize)).collect())
}
fn poly<S: Coord + GeoNum>(rs: &[Ring], rep: &[(usize, usize)], k: f64, z: u64) -> Polygon<S> {
    let f = |(i, r): (usize, &Ring)| {
        let mut v = vec![];
        for (j, p) in r.iter().chain(r.first()).enumerate() {
            v.push(coz::<S>(*p, k, z, 8 * i + v.len()));
            for _ in rep.iter().filter(|q| **q == (i, j)) {
                v.push(coz::<S>(*p, k, z, 8 * i + v.len()));
            }
        }
        LineString(v)
    };
    let mut all: Vec<_> = rs.iter().enumerate().map(f).collect();
    Polygon::new(all.remove(0), all)
}

pub struct MonoJob {
    rings: Rc<Vec<Ring>>,
    rep: Vec<(usize, usize)>,
    exp: i64,
    nz: u64,
    scalar: String,
}
impl MonoJob {
    pub fn parse(v: &Value) -> Self {
        let (r, exp, scalar) = parse(v);
        MonoJob { rings: Rc::new(r), rep: repeats(v), exp, nz: v["nz"].as_u64().unwrap_or(0), scalar }
    }
    fn go<S: Coord>(&self) -> Box<dyn Task> {
        let k = pow2(self.exp);
        Box::new(MonoTask::<S> { poly: poly(&self.rings, &self.rep, k, self.nz), rings: self.rings.clone(), k })
    }
}
impl Job for MonoJob {
    fn start(&self, _: usize) -> Box<dyn Task> {
        by_scalar!(self.scalar, go, self)
    }
    fn props(&self) -> &'static [&'static str] {
        &["M01"]
    }
    fn release_prop(&self) -> &'static str {
        "M01"
    }
    fn valid(&self) -> bool {
        valid(&self.rings)
    }
}
struct MonoTask<S: Coord> {
    poly: Polygon<S>,
    rings: Rc<Vec<Ring>>,
    k: f64,
}
impl<S: Coord> Task for MonoTask<S> {
    fn step(&mut self, cx: &mut Cx) -> bool {
        let out = cx.api(|| monotone_chains(&self.poly));
        judge(cx, &out, &self.rings, self.k);
        false
    }
}
/// Compares a decomposition with the polygon.
pub fn judge<S: Coord>(cx: &mut Cx, out: &[geo_crossings::monotone::MonoPoly<S>], rs: &[Ring], k: f64) {
    harness(|| {
        let mut v: Vec<(Ring, Ring)> = vec![];
        let mut off = None;
        for m in out {
            let mut get = |l: &LineString<S>| -> Ring {
                l.0.iter()
                    .map(|c| {
                        let p = un(*c, k);
                        ip(p).unwrap_or_else(|| {
                            off = Some(p);
                            (0, 0)
                        })
                    })
                    .collect()
            };
            v.push((get(m.top()), get(m.bot())));
        }
        cx.see(v.len() as u64);
        for (t, b) in &v {
            for p in t.iter().chain(b) {
                cx.see((p.0 as u64) << 32 ^ p.1 as u64);
            }
        }
        cx.nontrivial |= v.len() > 1;
        let r = match off {
            Some(p) => Err(format!("{p:?} is not a vertex of the polygon")),
            None => tiles(rs, &v),
        };
        cx.verdict("M01", r);
    });
}
/// Do the pieces tile the polygon?
fn tiles(rs: &[Ring], out: &[(Ring, Ring)]) -> Result<(), String> {
    let verts: BTreeSet<P> = rs.iter().flatten().copied().collect();
    let mut es: Vec<(Seg, u32)> = rs.iter().flat_map(|r| ring_edges(r)).map(|e| (e, 0)).collect();
    for (k, (t, b)) in out.iter().enumerate() {
        for c in [t, b] {
            if c.len() < 2 {
                return Err(format!("piece {k} has a chain of {} vertices", c.len()));
            }
            if let Some(p) = c.iter().find(|p| !verts.contains(p)) {
                return Err(format!("{p:?} is not a vertex of the polygon"));
            }
            if let Some(w) = c.windows(2).find(|w| w[0] >= w[1]) {
                return Err(format!("piece {k} is not monotone at {:?}", w[0]));
            }
        }
        if t[0] != b[0] || t.last() != b.last() {
            return Err(format!("chains of piece {k} do not share their ends"));
        }
        es.extend(t.windows(2).map(|w| (seg(w[0], w[1]), 1 + 2 * k as u32)));
        es.extend(b.windows(2).map(|w| (seg(w[0], w[1]), 2 + 2 * k as u32)));
        let mut ring = b.clone();
        ring.extend(t[1..t.len() - 1].iter().rev());
        if area2(&ring) <= 0 {
            return Err(format!("piece {k} has its top below its bottom, or no area"));
        }
    }
    for s in slabs(&es).map_err(|e| format!("pieces do not fit together: {e}"))? {
        let mut inside = false;
        // Per piece: number of bottoms minus tops below.
        let mut open: Vec<i32> = vec![0; out.len()];
        for (n, &(level, tag)) in s.edges.iter().enumerate() {
            match tag {
                0 => inside ^= true,
                t if t % 2 == 0 => open[(t as usize - 2) / 2] += 1,
                t => open[(t as usize - 1) / 2] -= 1,
            }
            if s.edges.get(n + 1).is_some_and(|e| e.0 == level) {
                continue;
            }
            let at = format!("between x = {} and {}", s.x0, s.x1);
            if let Some(k) = open.iter().position(|&o| o != 0 && o != 1) {
                return Err(format!("piece {k} has its top below its bottom {at}"));
            }
            let c: i32 = open.iter().sum();
            if c > 1 {
                return Err(format!("pieces overlap {at}"));
            }
            if (c == 1) != inside {
                return Err(format!("{} {at}", if inside { "part of the polygon is in no piece" } else { "a piece sticks out of the polygon" }));
            }
        }
    }
    Ok(())
}

pub struct SweepJob {
    rings: Rc<Vec<Ring>>,
    rep: Vec<(usize, usize)>,
    exp: i64,
    nz: u64,
    scalar: String,
}
impl SweepJob {
    pub fn parse(v: &Value) -> Self {
        let (r, exp, scalar) = parse(v);
        SweepJob { rings: Rc::new(r), rep: repeats(v), exp, nz: v["nz"].as_u64().unwrap_or(0), scalar }
    }
    fn go<S: Coord>(&self) -> Box<dyn Task> {
        let k = pow2(self.exp);
        Box::new(SweepTask::<S> { it: None, poly: poly(&self.rings, &self.rep, k, self.nz), want: classify(&self.rings), k, n: 0, done: 0 })
    }
}
/// Vertices in sweep order with their types.
fn classify(rs: &[Ring]) -> Vec<(P, &'static str)> {
    let mut out = vec![];
    for (k, r) in rs.iter().enumerate() {
        let n = r.len();
        let ccw = (area2(r) > 0) == (k == 0);
        for i in 0..n {
            let (p, v, q) = (r[(i + n - 1) % n], r[i], r[(i + 1) % n]);
            let convex = (cross(p, v, q) > 0) == ccw;
            let ty = match (p > v, q > v) {
                (true, true) => ["Split", "Start"][convex as usize],
                (false, false) => ["Merge", "End"][convex as usize],
                _ => "Continue",
            };
            out.push((v, ty));
        }
    }
    out.sort();
    out
}
impl Job for SweepJob {
    fn start(&self, _: usize) -> Box<dyn Task> {
        by_scalar!(self.scalar, go, self)
    }
    fn props(&self) -> &'static [&'static str] {
        &["M02"]
    }
    fn release_prop(&self) -> &'static str {
        "M02"
    }
    fn valid(&self) -> bool {
        valid(&self.rings)
    }
}
struct SweepTask<S: Coord> {
    it: Option<Pin<Box<MonotoneSweep<S>>>>,
    poly: Polygon<S>,
    want: Vec<(P, &'static str)>,
    k: f64,
    n: usize,
    done: u8,
}
impl<S: Coord> Task for SweepTask<S> {
    fn step(&mut self, cx: &mut Cx) -> bool {
        let Some(it) = &mut self.it else {
            let it = cx.api(|| Box::pin(MonotoneSweep::from_polygon(&self.poly)));
            self.it = Some(it);
            return true;
        };
        let n = self.n;
        // Both ways of stepping.
        let ev = if n % 3 == 2 { cx.api(|| it.as_mut().process_event()) } else { cx.api(|| it.next()) };
        let Some(ev) = ev else {
            cx.see(0);
            let want = self.want.len();
            cx.check("M02", n == want, || format!("sweep ended after {n} of {want} vertices"));
            self.done += 1;
            return self.done < 3;
        };
        let p = un(ev.pt.coord(), self.k);
        let ty = harness(|| format!("{:?}", ev.ty));
        cx.seef(p.0);
        cx.seef(p.1);
        cx.sees(&ty);
        let links = harness(|| format!("{:?}", ev.links));
        cx.sees(&links);
        let r = match self.want.get(n) {
            _ if self.done > 0 => Err(format!("vertex {p:?} yielded after the end")),
            None => Err(format!("extra vertex {p:?}")),
            Some((q, _)) if ip(p) != Some(*q) => Err(format!("vertex #{n} is {p:?} instead of {q:?}")),
            Some((q, t)) if *t != ty => Err(format!("vertex {q:?} classified as {ty} instead of {t}")),
            _ => Ok(()),
        };
        cx.nontrivial |= ty == "Split" || ty == "Merge";
        cx.verdict("M02", r);
        self.n += 1;
        cx.bad.is_empty()
    }
}
