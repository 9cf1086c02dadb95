//! Seeded generators of inputs.
pub use crate::geom::Ring;
use crate::geom::*;
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};

/// Resolution of general-position coordinates.
pub const GEN: i64 = 1 << 24;

/// Segments and points all of whose intersections are integer points.
pub fn segs_exact(r: &mut Rng, max: u64) -> Vec<[i64; 4]> {
    let n = r.logn(max) as usize;
    let big = n > 24;
    let mode = if big { [0, 5, 2][r.z(3)] } else { r.n(6) };
    let g = if big { r.r(6, 40) } else { r.r(2, 9) };
    let s = match mode {
        0 | 5 => 2,
        2 if big => 1,
        _ => 2520,
    };
    let g = if s == 2520 { g.min(8) } else { g };
    let mut v: Vec<Seg> = vec![];
    let mut tries = 0;
    let pp = r.n(10);
    let hub = (r.i(g + 1), r.i(g + 1));
    while v.len() < n && tries < 30 + 12 * n {
        tries += 1;
        let p = (r.i(g + 1), r.i(g + 1));
        let any = |r: &mut Rng| (r.i(g + 1), r.i(g + 1));
        let ext = |p: P, r: &mut Rng| {
            let d = [(1, 0), (0, 1), (1, 1), (1, -1)][r.z(4)];
            let k = r.i(g + 1);
            (p.0 + d.0 * k, p.1 + d.1 * k)
        };
        let (p, q) = if r.n(24) < pp {
            (p, p)
        } else {
            match mode {
                0 => (p, ext(p, r)),
                5 => {
                    // long horizontals and verticals
                    if r.one_in(2) {
                        ((r.i(2), p.1), (g - r.i(2), p.1))
                    } else if r.one_in(2) {
                        ((p.0, r.i(2)), (p.0, g - r.i(2)))
                    } else {
                        (p, ext(p, r))
                    }
                }
                1 if !v.is_empty() && r.one_in(2) => {
                    // along an existing one
                    let o = v[r.z(v.len())];
                    let (a, d) = ((o.a.0 / s, o.a.1 / s), ((o.b.0 - o.a.0) / s, (o.b.1 - o.a.1) / s));
                    let gg = gcd(d.0.abs(), d.1.abs()).max(1);
                    let (i, j) = (r.r(-2, 3), r.r(-2, 4));
                    let f = |k: i64| (a.0 + d.0 / gg * k, a.1 + d.1 / gg * k);
                    (f(i), f(j))
                }
                2 => {
                    // through a common point
                    let q = any(r);
                    if r.one_in(2) {
                        (hub, q)
                    } else {
                        (q, (2 * hub.0 - q.0, 2 * hub.1 - q.1))
                    }
                }
                3 if !v.is_empty() && r.one_in(2) => {
                    // chained end to end
                    let o = v[r.z(v.len())];
                    let e = if r.one_in(2) { o.a } else { o.b };
                    ((e.0 / s, e.1 / s), any(r))
                }
                _ => (p, any(r)),
            }
        };
        let sg = seg((p.0 * s, p.1 * s), (q.0 * s, q.1 * s));
        if v.iter().any(|o| matches!(ix(o, &sg), Ix::Inexact(..))) {
            continue;
        }
        v.push(sg);
        if r.one_in(12) && v.len() < n {
            v.push(sg);
        }
    }
    let off = match r.n(4) {
        0 => (0, 0),
        1 => (-g * s / 2, -g * s / 2),
        _ => (r.r(-3, 3) * s, r.r(-3, 3) * s),
    };
    v.iter()
        .map(|x| {
            let (a, b) = if r.one_in(2) { (x.a, x.b) } else { (x.b, x.a) };
            [a.0 + off.0, a.1 + off.1, b.0 + off.0, b.1 + off.1]
        })
        .collect()
}
pub fn gcd(a: i64, b: i64) -> i64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

fn dist(p: P, s: &Seg) -> f64 {
    let (px, py) = (p.0 as f64, p.1 as f64);
    let (ax, ay, bx, by) = (s.a.0 as f64, s.a.1 as f64, s.b.0 as f64, s.b.1 as f64);
    let (dx, dy) = (bx - ax, by - ay);
    let t = (((px - ax) * dx + (py - ay) * dy) / (dx * dx + dy * dy)).clamp(0., 1.);
    ((ax + t * dx - px).powi(2) + (ay + t * dy - py).powi(2)).sqrt()
}
/// Same with a floating-point point.
pub fn distf(p: (f64, f64), s: &Seg) -> f64 {
    let (ax, ay, bx, by) = (s.a.0 as f64, s.a.1 as f64, s.b.0 as f64, s.b.1 as f64);
    let (dx, dy) = (bx - ax, by - ay);
    let t = (((p.0 - ax) * dx + (p.1 - ay) * dy) / (dx * dx + dy * dy)).clamp(0., 1.);
    (ax + t * dx - p.0).hypot(ay + t * dy - p.1)
}
const FAR: f64 = 64.;

/// Are the segments far from every degeneracy?
pub fn general(v: &[Seg]) -> bool {
    let mut xs: Vec<f64> = vec![];
    for (i, s) in v.iter().enumerate() {
        if (s.b.0 - s.a.0) < 4096 {
            return false;
        }
        xs.push(s.a.0 as f64);
        xs.push(s.b.0 as f64);
        for t in &v[..i] {
            if dist(s.a, t) < FAR || dist(s.b, t) < FAR || dist(t.a, s) < FAR || dist(t.b, s) < FAR {
                return false;
            }
            match ix(s, t) {
                Ix::Inexact(x, _) => {
                    let d1 = ((s.b.0 - s.a.0) as f64, (s.b.1 - s.a.1) as f64);
                    let d2 = ((t.b.0 - t.a.0) as f64, (t.b.1 - t.a.1) as f64);
                    let den = d1.0 * d2.1 - d1.1 * d2.0;
                    if den.abs() < 1e-3 * (d1.0.hypot(d1.1) * d2.0.hypot(d2.1)) {
                        return false;
                    }
                    xs.push(x);
                }
                Ix::Pt(p) => xs.push(p.0 as f64),
                Ix::Over(..) => return false,
                Ix::None => {}
            }
        }
    }
    xs.sort_by(|a, b| a.partial_cmp(b).unwrap());
    xs.windows(2).all(|w| w[1] - w[0] > 1.)
}

/// Segments in general position.
pub fn segs_general(r: &mut Rng, max: u64) -> Vec<[i64; 4]> {
    let n = 1 + r.n(max) as usize;
    let short = r.one_in(2);
    let mut v: Vec<Seg> = vec![];
    for _ in 0..n * 2 {
        if v.len() >= n {
            break;
        }
        let p = (r.i(GEN), r.i(GEN));
        let q = if short {
            let k = GEN / 4;
            ((p.0 + r.r(-k, k)).clamp(0, GEN), (p.1 + r.r(-k, k)).clamp(0, GEN))
        } else {
            (r.i(GEN), r.i(GEN))
        };
        v.push(seg(p, q));
        if v[v.len() - 1].is_pt() || !general(&v) {
            v.pop();
        }
    }
    v.iter().map(|x| if r.one_in(2) { [x.a.0, x.a.1, x.b.0, x.b.1] } else { [x.b.0, x.b.1, x.a.0, x.a.1] }).collect()
}

/// Rings bounding a set of directed edges with the region on their left.
fn trace_rings(edges: &BTreeSet<(P, P)>, keep: bool, left: bool) -> Vec<Ring> {
    let mut e = edges.clone();
    let mut out = vec![];
    while let Some(&(s, t)) = e.iter().next() {
        e.remove(&(s, t));
        let mut ring = vec![s];
        let mut prev = s;
        let mut cur = t;
        while cur != s {
            ring.push(cur);
            let d = ((cur.0 - prev.0) as f64, (cur.1 - prev.1) as f64);
            let turn = |p: &P| {
                let v = ((p.0 - cur.0) as f64, (p.1 - cur.1) as f64);
                let a = (d.0 * v.1 - d.1 * v.0).atan2(d.0 * v.0 + d.1 * v.1);
                if left {
                    -a
                } else {
                    a
                }
            };
            let best = e
                .range((cur, (i64::MIN, i64::MIN))..)
                .take_while(|x| x.0 == cur)
                .map(|x| x.1)
                .min_by(|a, b| turn(a).partial_cmp(&turn(b)).unwrap())
                .unwrap();
            e.remove(&(cur, best));
            prev = cur;
            cur = best;
        }
        if !keep {
            let n = ring.len();
            ring = (0..n).filter(|&i| cross(ring[(i + n - 1) % n], ring[i], ring[(i + 1) % n]) != 0).map(|i| ring[i]).collect();
        }
        out.push(ring);
    }
    out
}

#[derive(Clone, Copy)]
pub struct Cells {
    pub g: i64,
    pub s: i64,
    pub diag: bool,
}
/// Multi-polygon made of cells (or half cells) of a grid.
fn cells(r: &mut Rng, c: Cells) -> Vec<Ring> {
    let (g, s) = (c.g, c.s);
    let off = match r.n(5) {
        0 | 1 => (0, 0),
        2 => (2, 2),
        3 => (r.i(3) * 2, r.i(3) * 2),
        _ => (-2, 4),
    };
    let dens = 1 + r.n(8);
    let mut edges: BTreeSet<(P, P)> = BTreeSet::new();
    let mut add = |a: P, b: P| {
        let f = |p: P| (p.0 * s + off.0, p.1 * s + off.1);
        let (a, b) = (f(a), f(b));
        if !edges.remove(&(b, a)) {
            edges.insert((a, b));
        }
    };
    let nested = r.one_in(6);
    for x in 0..g {
        for y in 0..g {
            let q = [(x, y), (x + 1, y), (x + 1, y + 1), (x, y + 1)];
            if nested {
                // concentric frames
                let d = x.min(y).min(g - 1 - x).min(g - 1 - y);
                if d % 2 == 0 && !r.one_in(12) {
                    for k in 0..4 {
                        add(q[k], q[(k + 1) % 4]);
                    }
                }
            } else if c.diag {
                let t: [[usize; 3]; 2] = if r.one_in(2) { [[0, 1, 2], [0, 2, 3]] } else { [[0, 1, 3], [1, 2, 3]] };
                for t in t {
                    if r.n(9) < dens {
                        for k in 0..3 {
                            add(q[t[k]], q[t[(k + 1) % 3]]);
                        }
                    }
                }
            } else if r.n(9) < dens {
                for k in 0..4 {
                    add(q[k], q[(k + 1) % 4]);
                }
            }
        }
    }
    let (keep, left) = (r.one_in(4), r.one_in(2));
    trace_rings(&edges, keep, left)
}
/// Directions of the spokes of a fan, by angle.
fn spokes(r: &mut Rng) -> Vec<P> {
    let n = 2 + r.logn(24) as usize;
    let side = r.n(4);
    let mut set = BTreeSet::new();
    for _ in 0..4 * n {
        let (x, y) = (r.r(-7, 7), r.r(-7, 7));
        let x = match side {
            0 => x.abs(),
            1 => -x.abs(),
            _ => x,
        };
        let g = gcd(x.abs(), y.abs());
        if g > 0 && set.len() < n {
            set.insert((x / g, y / g));
        }
    }
    let mut v: Vec<P> = set.into_iter().collect();
    v.sort_by(|a, b| ((a.1 as f64).atan2(a.0 as f64)).partial_cmp(&(b.1 as f64).atan2(b.0 as f64)).unwrap());
    v
}
/// Triangles around a hub: many edges in one vertex.
fn fan(r: &mut Rng, sp: &[P], hub: P, k: i64) -> Vec<Ring> {
    let dens = 1 + r.n(9);
    let n = sp.len();
    let at = |i: usize| (hub.0 + sp[i % n].0 * k, hub.1 + sp[i % n].1 * k);
    let rings: Vec<Ring> = (0..n).filter(|_| r.n(9) < dens).map(|i| vec![hub, at(i), at(i + 1)]).collect();
    if r.one_in(2) {
        return rings;
    }
    // the same region, without the edges inside of it
    let mut edges: BTreeSet<(P, P)> = BTreeSet::new();
    for q in &rings {
        let q: Vec<P> = if cross(q[0], q[1], q[2]) > 0 { q.clone() } else { q.iter().rev().cloned().collect() };
        for i in 0..3 {
            let (a, b) = (q[i], q[(i + 1) % 3]);
            if !edges.remove(&(b, a)) && !edges.insert((a, b)) {
                return rings;
            }
        }
    }
    let left = r.one_in(2);
    trace_rings(&edges, true, left)
}
fn random_rings(r: &mut Rng) -> Vec<Ring> {
    let k = 1 + r.n(2);
    (0..k)
        .map(|_| {
            let n = 3 + r.n(4);
            (0..n).map(|_| (r.i(5) * 2520, r.i(5) * 2520)).collect()
        })
        .collect()
}
fn rects(r: &mut Rng, s: i64) -> Vec<Ring> {
    // overlapping rectangles and diamonds, even-odd
    (0..1 + r.n(4))
        .map(|_| {
            let (x, y, w, h) = (r.i(8), r.i(8), 1 + r.i(6), 1 + r.i(6));
            let f = |p: P| (p.0 * s, p.1 * s);
            if r.one_in(3) {
                vec![f((x - w, y)), f((x, y - w)), f((x + w, y)), f((x, y + w))]
            } else {
                vec![f((x, y)), f((x + w, y)), f((x + w, y + h)), f((x, y + h))]
            }
        })
        .collect()
}
fn dirt(r: &mut Rng, rs: &mut Vec<Ring>) {
    for q in rs.iter_mut() {
        if q.is_empty() {
            continue;
        }
        let k = r.z(q.len());
        q.rotate_left(k);
        if r.one_in(2) {
            q.reverse();
        }
        if r.one_in(12) {
            let k = r.z(q.len());
            let p = q[k];
            q.insert(k, p);
        }
    }
    let n = rs.len();
    if n > 1 {
        r.shuffle(rs);
    }
}
pub fn all_exact(a: &[Ring], b: &[Ring]) -> bool {
    let es: Vec<Seg> = a.iter().chain(b).flat_map(|r| ring_edges(r)).collect();
    es.iter().enumerate().all(|(i, s)| es[..i].iter().all(|t| !matches!(ix(s, t), Ix::Inexact(..))))
}
/// Operands of a boolean operation with integer intersections.
pub fn operands_exact(r: &mut Rng, gmax: i64) -> (Vec<Ring>, Vec<Ring>) {
    for _ in 0..50 {
        let c = Cells { g: r.r(1, gmax), s: r.pick(&[2, 4, 4, 6]), diag: r.one_in(2) };
        let one = |r: &mut Rng| match r.n(10) {
            0..=6 => cells(r, c),
            7 => rects(r, 2),
            _ => rects(r, 4),
        };
        let (mut a, mut b) = match r.n(13) {
            0 => (random_rings(r), random_rings(r)),
            12 => {
                let sp = spokes(r);
                let hub = (r.i(3) * 2, r.i(3) * 2);
                let (k, l) = (r.pick(&[2, 4]), r.pick(&[2, 2, 4]));
                let a = fan(r, &sp, hub, k);
                let b = match r.n(6) {
                    0 => one(r),
                    1 => {
                        let hub = (hub.0 + r.r(-8, 8), hub.1 + r.r(-8, 8));
                        fan(r, &sp, hub, l)
                    }
                    _ => fan(r, &sp, hub, l),
                };
                (a, b)
            }
            1 => {
                let a = one(r);
                (a.clone(), a)
            }
            2 => (one(r), vec![]),
            3 => {
                // the same grid, moved
                let a = one(r);
                let d = (r.r(-2, 2) * 2, r.r(-2, 2) * 2);
                let b = a.iter().map(|q| q.iter().map(|p| (p.0 + d.0, p.1 + d.1)).collect()).collect();
                (a, b)
            }
            _ => {
                let a = one(r);
                let c2 = Cells { s: r.pick(&[c.s, 2, 4, 8]), g: r.r(1, gmax), diag: c.diag ^ r.one_in(4) };
                let b = if r.one_in(5) { one(r) } else { cells(r, c2) };
                (a, b)
            }
        };
        a.retain(|q| !q.is_empty());
        b.retain(|q| !q.is_empty());
        dirt(r, &mut a);
        dirt(r, &mut b);
        if r.one_in(8) {
            std::mem::swap(&mut a, &mut b);
        }
        if r.one_in(3) {
            // shear / flip: affine, keeps integer intersections
            let m = r.pick(&[[1, 0, 0, -1], [0, 1, 1, 0], [-1, 0, 0, 1], [1, 1, 0, 1], [1, 0, 1, 1], [2, 1, 1, 1], [1, 1, -1, 1]]);
            for q in a.iter_mut().chain(b.iter_mut()) {
                for p in q.iter_mut() {
                    *p = (m[0] * p.0 + m[1] * p.1, m[2] * p.0 + m[3] * p.1);
                }
            }
        }
        if a.iter().chain(&b).map(|q| q.len()).sum::<usize>() <= 40 * gmax as usize && all_exact(&a, &b) {
            return (a, b);
        }
    }
    (vec![vec![(0, 0), (2, 0), (2, 2)]], vec![])
}
/// Shapes to build up a region from, step by step: all crossings of their edges
/// and of edges made from those are on the same grid.
pub fn shapes(r: &mut Rng, gmax: i64) -> Vec<Vec<Ring>> {
    let c = Cells { g: r.r(2, gmax), s: r.pick(&[2, 4, 4]), diag: r.one_in(2) };
    let m = r.pick(&[[1, 0, 0, 1], [1, 0, 0, 1], [0, 1, 1, 0], [1, 1, 0, 1], [1, 0, 1, 1], [2, 1, 1, 1], [1, 1, -1, 1]]);
    (0..1 + r.n(5))
        .map(|_| {
            let mut a = if !c.diag && r.one_in(4) {
                rects(r, c.s)
            } else {
                let g = r.r(1, gmax);
                cells(r, Cells { g, ..c })
            };
            a.retain(|q| !q.is_empty());
            dirt(r, &mut a);
            for p in a.iter_mut().flatten() {
                *p = (m[0] * p.0 + m[1] * p.1, m[2] * p.0 + m[3] * p.1);
            }
            a
        })
        .collect()
}
fn star(r: &mut Rng) -> Ring {
    let k = 3 + r.z(10);
    let (cx, cy) = (0.35 + 0.3 * f(r), 0.35 + 0.3 * f(r));
    let o = f(r);
    let w = if k > 3 { 0.8 } else { 0.4 };
    (0..k)
        .map(|i| {
            let t = (i as f64 + w * f(r) + o) / k as f64 * std::f64::consts::TAU;
            let d = 0.03 + 0.3 * f(r);
            (((cx + d * t.cos()) * GEN as f64) as i64, ((cy + d * t.sin()) * GEN as f64) as i64)
        })
        .collect()
}
fn f(r: &mut Rng) -> f64 {
    (r.u() >> 11) as f64 / (1u64 << 53) as f64
}
pub fn general_rings(rs: &[&Ring]) -> bool {
    // neighbours share a vertex; everything else far apart
    let mut xs: Vec<f64> = rs.iter().flat_map(|r| r.iter().map(|p| p.0 as f64)).collect();
    let es: Vec<(usize, usize, usize, Seg)> =
        rs.iter().enumerate().flat_map(|(k, r)| ring_edges(r).enumerate().map(move |(i, e)| (k, i, r.len(), e))).collect();
    for (n, e) in es.iter().enumerate() {
        if e.3.b.0 - e.3.a.0 < 256 {
            return false;
        }
        for g in &es[..n] {
            let adj = e.0 == g.0 && (e.1 == g.1 + 1 || g.1 == e.1 + 1 || (e.1.min(g.1) == 0 && e.1.max(g.1) == e.2 - 1));
            let (d1, d2) = (
                ((e.3.b.0 - e.3.a.0) as f64, (e.3.b.1 - e.3.a.1) as f64),
                ((g.3.b.0 - g.3.a.0) as f64, (g.3.b.1 - g.3.a.1) as f64),
            );
            let sin = (d1.0 * d2.1 - d1.1 * d2.0).abs() / (d1.0.hypot(d1.1) * d2.0.hypot(d2.1));
            if adj {
                if sin < 1e-4 {
                    return false;
                }
                continue;
            }
            if dist(e.3.a, &g.3) < FAR || dist(e.3.b, &g.3) < FAR || dist(g.3.a, &e.3) < FAR || dist(g.3.b, &e.3) < FAR {
                return false;
            }
            match ix(&e.3, &g.3) {
                Ix::None => {}
                Ix::Inexact(x, _) => {
                    if sin < 1e-3 {
                        return false;
                    }
                    xs.push(x)
                }
                Ix::Pt(p) => xs.push(p.0 as f64),
                Ix::Over(..) => return false,
            }
        }
    }
    xs.sort_by(|a, b| a.partial_cmp(b).unwrap());
    xs.windows(2).all(|w| w[1] - w[0] > 1.)
}
/// Operands in general position (simple rings, possibly overlapping, even-odd).
pub fn operands_general(r: &mut Rng) -> (Vec<Ring>, Vec<Ring>) {
    let (mut a, mut b): (Vec<Ring>, Vec<Ring>) = (vec![], vec![]);
    for _ in 0..2 + r.n(3) {
        for _ in 0..20 {
            let s = star(r);
            if !simple(&s) {
                continue;
            }
            let mut all: Vec<&Ring> = a.iter().chain(&b).collect();
            all.push(&s);
            if general_rings(&all) {
                if a.is_empty() || (!b.is_empty() && r.one_in(2)) {
                    a.push(s)
                } else {
                    b.push(s)
                }
                break;
            }
        }
    }
    (a, b)
}

fn two_opt(r: &mut Rng, n: usize, g: u64) -> Option<Ring> {
    let mut set = BTreeSet::new();
    let mut v = vec![];
    let mut t = 0;
    while v.len() < n && t < 4 * n {
        t += 1;
        let p = (r.i(g as i64), r.i(g as i64));
        if set.insert(p) {
            v.push(p);
        }
    }
    for _ in 0..400 {
        let n = v.len();
        if n < 3 {
            return None;
        }
        if simple(&v) {
            return Some(v);
        }
        let mut did = false;
        'o: for i in 0..n {
            for j in i + 2..n {
                if i == 0 && j == n - 1 {
                    continue;
                }
                if touch(&seg(v[i], v[i + 1]), &seg(v[j], v[(j + 1) % n])) {
                    v[i + 1..=j].reverse();
                    did = true;
                    if r.one_in(3) {
                        break 'o;
                    }
                }
            }
        }
        if !did || r.one_in(12) {
            let k = r.z(n);
            v.remove(k);
        }
    }
    None
}
fn comb(r: &mut Rng, k: i64) -> Ring {
    // teeth from below and above: many splits and merges
    let mut v = vec![];
    for i in 0..k {
        v.push((3 * i, r.i(3)));
        v.push((3 * i + 1 + r.i(2), 4 + r.i(3)));
    }
    v.push((3 * k, r.i(3)));
    for i in (0..k).rev() {
        v.push((3 * i + 2, 12 + r.i(3)));
        v.push((3 * i, 8 + r.i(3)));
    }
    if r.one_in(2) {
        v = v.into_iter().map(|p| (p.1, p.0)).collect();
    }
    v
}
/// Two long chains: many vertices per piece; or, on its side, many pieces.
fn ribbon(r: &mut Rng, n: i64) -> Ring {
    let h = 1 + r.i(9);
    let step = 1 + r.i(3);
    let walk = r.pick(&[0, 1, 3]);
    let mut y = 0;
    let mut lo = vec![];
    let mut hi = vec![];
    for i in 0..n {
        y += r.r(-walk, walk);
        let x = i * step;
        if i == 0 || !r.one_in(6) {
            lo.push((x, y - r.i(h)));
        }
        if i == n - 1 || !r.one_in(6) {
            hi.push((x + r.i(step), y + 1 + walk + r.i(h)));
        }
    }
    hi.reverse();
    lo.extend(hi);
    let y0 = lo.iter().map(|p| p.1).min().unwrap();
    lo.iter_mut().for_each(|p| p.1 -= y0);
    if r.one_in(2) {
        lo = lo.into_iter().map(|p| (p.1, p.0)).collect();
    }
    lo
}
/// Many holes in a square.
fn sieve(r: &mut Rng, nx: i64, ny: i64) -> Vec<Ring> {
    let mut out = vec![vec![(0, 0), (5 * nx + 1, 0), (5 * nx + 1, 5 * ny + 1), (0, 5 * ny + 1)]];
    for i in 0..nx {
        for j in 0..ny {
            let k = 3 + r.z(3);
            if let Some(h) = two_opt(r, k, 5) {
                out.push(h.into_iter().map(|p| (p.0 + 5 * i + 1, p.1 + 5 * j + 1)).collect());
            }
        }
    }
    out
}
/// The same, with hundreds of vertices or pieces.
pub fn large_polygon(r: &mut Rng) -> Vec<Ring> {
    let rings = match r.n(3) {
        0 => {
            let k = 20 + r.i(100);
            vec![comb(r, k)]
        }
        1 => {
            let n = 100 + r.i(400);
            vec![ribbon(r, n)]
        }
        _ => {
            let (nx, ny) = (4 + r.i(8), 4 + r.i(8));
            sieve(r, nx, ny)
        }
    };
    if !simple(&rings[0]) {
        return polygon(r, 16);
    }
    let m = r.pick(&[[1, 0, 0, 1], [0, 1, 1, 0], [3, 1, 0, 1], [5, 2, 1, 3]]);
    rings
        .into_iter()
        .map(|q| {
            let mut q: Ring = q.iter().map(|p| (m[0] * p.0 + m[1] * p.1, m[2] * p.0 + m[3] * p.1)).collect();
            if r.one_in(2) {
                q.reverse();
            }
            q
        })
        .collect()
}
/// Monotone piece with hundreds of vertices.
pub fn long_piece(r: &mut Rng) -> (Vec<P>, Vec<P>) {
    let n = 40 + r.i(260);
    let h = 1 + r.i(5);
    let chain = |r: &mut Rng, y: i64| -> Vec<P> { (1..n).filter_map(|x| if r.one_in(5) { None } else { Some((x, y + r.r(0, h))) }).collect() };
    let (lo, hi) = ((0, h), (n, h));
    let full = |c: Vec<P>| -> Vec<P> { std::iter::once(lo).chain(c).chain(std::iter::once(hi)).collect() };
    let t = full(chain(r, h + 2));
    let b = full(chain(r, -1));
    if valid_piece(&t, &b) {
        (t, b)
    } else {
        piece(r)
    }
}
/// Valid polygon with integer vertices of degree two: exterior, then holes.
pub fn polygon(r: &mut Rng, max: u64) -> Vec<Ring> {
    for _ in 0..60 {
        let big = r.one_in(12);
        let g = if big { 30 } else { 3 + r.n(14) };
        let n = if big { 20 + r.z(24) } else { 3 + r.z(max as usize) };
        let kind = r.n(12);
        let ext = if kind < 2 {
            let k = 2 + r.i(6);
            comb(r, k)
        } else if kind == 2 {
            let n = 6 + r.i(30);
            ribbon(r, n)
        } else {
            match two_opt(r, n, g) {
                Some(x) => x,
                None => continue,
            }
        };
        if !simple(&ext) {
            continue;
        }
        let mul = r.pick(&[1, 1, 1, 2, 3]);
        let ext: Ring = ext.iter().map(|p| (p.0 * mul, p.1 * mul)).collect();
        let (w, h) = (ext.iter().map(|p| p.0).max().unwrap(), ext.iter().map(|p| p.1).max().unwrap());
        let mut rings = vec![ext];
        let sv = kind == 3;
        if sv {
            let (nx, ny) = (1 + r.i(6), 1 + r.i(5));
            rings = sieve(r, nx, ny);
        }
        for _ in 0..if sv { 0 } else { r.n(5) } {
            for _ in 0..8 {
                let (k, g2) = (3 + r.z(4), 2 + r.n(4));
                if let Some(hl) = two_opt(r, k, g2) {
                    let o = (r.i(w + 1), r.i(h + 1));
                    let hl: Ring = hl.iter().map(|p| (p.0 + o.0, p.1 + o.1)).collect();
                    if rings.iter().any(|q| ring_edges(q).any(|s| ring_edges(&hl).any(|t| touch(&s, &t)))) {
                        continue;
                    }
                    let p = (hl[0].0 * 2, hl[0].1 * 2);
                    if !inside2(&rings[0], p)
                        || rings[1..].iter().any(|q| inside2(q, p) || inside2(&hl, (q[0].0 * 2, q[0].1 * 2)))
                    {
                        continue;
                    }
                    rings.push(hl);
                    break;
                }
            }
        }
        let m = r.pick(&[
            [1, 0, 0, 1], [1, 0, 0, 1], [0, 1, 1, 0], [-1, 0, 0, 1], [3, 1, 0, 1], [1, 0, 2, 1], [5, 2, 1, 3], [97, 13, -31, 89], [1009, 7, 11, 997],
        ]);
        for q in rings.iter_mut() {
            for p in q.iter_mut() {
                *p = (m[0] * p.0 + m[1] * p.1, m[2] * p.0 + m[3] * p.1);
            }
            if r.one_in(2) {
                q.reverse();
            }
            let k = r.z(q.len());
            q.rotate_left(k);
        }
        if rings.len() > 2 {
            r.shuffle(&mut rings[1..]);
        }
        return rings;
    }
    vec![vec![(0, 0), (2, 0), (2, 2), (0, 2)]]
}

/// Monotone piece: top and bottom chains sharing only their end points.
pub fn piece(r: &mut Rng) -> (Vec<P>, Vec<P>) {
    for _ in 0..200 {
        let long = r.one_in(10);
        let g = 2 + r.i(if long { 30 } else { 8 });
        let h = 2 + r.i(10);
        let (ht, hb) = if long { (h, h) } else { (0, 0) };
        let chain = |r: &mut Rng, n: usize, lo: P, hi: P| -> Vec<P> {
            let mut s = BTreeSet::new();
            for _ in 0..n {
                let p = (r.r(lo.0, hi.0), r.r(0, h));
                if p > lo && p < hi {
                    s.insert(p);
                }
            }
            std::iter::once(lo).chain(s).chain(std::iter::once(hi)).collect()
        };
        let lo = (0, r.r(0, h));
        let hi = (g, r.r(0, h));
        let (nt, nb) = if long { (r.z(18), r.z(18)) } else { (r.z(5), r.z(5)) };
        let (mut t, mut b) = (chain(r, nt, lo, hi), chain(r, nb, lo, hi));
        // Long chains would hardly ever be one above the other.
        let (nt, nb) = (t.len(), b.len());
        t[1..nt - 1].iter_mut().for_each(|p| p.1 += ht);
        b[1..nb - 1].iter_mut().for_each(|p| p.1 -= hb);
        if valid_piece(&t, &b) {
            let k = r.pick(&[1, 1, 1, 3, 7]);
            let m = r.pick(&[0, 0, 1, -2]);
            let f = |p: P| (p.0 * k, p.1 + m * p.0 * k);
            let (t, b): (Vec<P>, Vec<P>) = (t.into_iter().map(f).collect(), b.into_iter().map(f).collect());
            return (t, b);
        }
    }
    (vec![(0, 0), (1, 2), (2, 0)], vec![(0, 0), (2, 0)])
}
/// The same, with chains that may touch: pinched to a point, running together for
/// a while, or ending in verticals of different length.
pub fn loose(r: &mut Rng) -> (Vec<P>, Vec<P>) {
    let (mut t, mut b) = piece(r);
    for _ in 0..1 + r.n(3) {
        let e = t[t.len() - 1];
        match r.n(3) {
            // another one from here on
            0 => {
                let (t2, b2) = piece(r);
                let f = |p: &P| (p.0 - t2[0].0 + e.0, p.1 - t2[0].1 + e.1);
                t.extend(t2[1..].iter().map(f));
                b.extend(b2[1..].iter().map(f));
            }
            // together
            1 => {
                let q = (e.0 + r.i(4), e.1 + 1 + r.i(4));
                t.push(q);
                b.push(q);
            }
            // up to a point above: past vertices of either
            _ => {
                let d = 2 + r.i(5);
                for c in [&mut t, &mut b] {
                    let n = c.len();
                    if r.one_in(2) {
                        c[n - 1].1 += r.i(d);
                    }
                    if r.one_in(3) && c[c.len() - 1].1 + 1 < e.1 + d {
                        let y = c[n - 1].1;
                        c.push((e.0, r.r(y + 1, e.1 + d - 1)));
                    }
                    c.push((e.0, e.1 + d));
                }
            }
        }
    }
    // And at the other end.
    if r.one_in(2) {
        let m = |c: &[P]| c.iter().rev().map(|p| (-p.0, -p.1)).collect::<Vec<_>>();
        (t, b) = (m(&b), m(&t));
    }
    if loose_piece(&t, &b) {
        (t, b)
    } else {
        piece(r)
    }
}
/// Proper chains, the top nowhere below the bottom, and not flat.
pub fn loose_piece(t: &[P], b: &[P]) -> bool {
    let n = t.len();
    if n < 2 || b.len() < 2 || t[0] != b[0] || t[n - 1] != b[b.len() - 1] || t[0].0 >= t[n - 1].0 {
        return false;
    }
    if [t, b].iter().any(|c| c.windows(2).any(|w| w[0] >= w[1])) {
        return false;
    }
    // Least and greatest height at x, as fractions.
    let span = |c: &[P], x: i64| {
        let mut v: Vec<(i128, i128)> = vec![];
        for w in c.windows(2) {
            let (p, q) = (w[0], w[1]);
            if p.0 == x {
                v.push((p.1 as i128, 1));
            }
            if q.0 == x {
                v.push((q.1 as i128, 1));
            }
            if p.0 < x && x < q.0 {
                let d = (q.0 - p.0) as i128;
                v.push((p.1 as i128 * d + (q.1 - p.1) as i128 * (x - p.0) as i128, d));
            }
        }
        v.sort_by(|a, b| (a.0 * b.1).cmp(&(b.0 * a.1)));
        (v[0], v[v.len() - 1])
    };
    let le = |a: (i128, i128), b: (i128, i128)| a.0 * b.1 <= b.0 * a.1;
    let ok = t.iter().chain(b).all(|p| {
        let (s, u) = (span(b, p.0), span(t, p.0));
        le(s.0, u.0) && le(s.1, u.1)
    });
    let mut ring: Ring = b.to_vec();
    ring.extend(t[1..n - 1].iter().rev());
    ok && area2(&ring) > 0
}
/// Top strictly above bottom except at the two shared ends.
pub fn valid_piece(t: &[P], b: &[P]) -> bool {
    if t.len() < 2 || b.len() < 2 || t[0] != b[0] || t.last() != b.last() || (t.len() == 2 && b.len() == 2) {
        return false;
    }
    if t[0].0 == t.last().unwrap().0 {
        return false;
    }
    if t.windows(2).any(|w| w[0] >= w[1]) || b.windows(2).any(|w| w[0] >= w[1]) {
        return false;
    }
    let mut ring: Ring = b.to_vec();
    ring.extend(t[1..t.len() - 1].iter().rev());
    simple(&ring) && area2(&ring) > 0
}

/// Assigns every ring of an even-odd set an owner, as valid polygons would: used
/// only to vary how rings are handed in.
pub fn split_polys(r: &mut Rng, rings: &[Ring]) -> Vec<Vec<Ring>> {
    if rings.is_empty() {
        return vec![];
    }
    match r.n(3) {
        0 => vec![rings.to_vec()],
        1 => rings.iter().map(|q| vec![q.clone()]).collect(),
        _ => {
            let mut m: BTreeMap<u64, Vec<Ring>> = BTreeMap::new();
            for q in rings {
                m.entry(r.n(3)).or_default().push(q.clone());
            }
            m.into_values().collect()
        }
    }
}
