//! Exact planar reference model on integer coordinates (all pairs, no sweep).
use std::collections::BTreeSet;

pub type P = (i64, i64);
pub type Ring = Vec<P>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Seg {
    pub a: P,
    pub b: P,
}
pub fn seg(p: P, q: P) -> Seg {
    Seg { a: p.min(q), b: p.max(q) }
}
impl Seg {
    pub fn is_pt(&self) -> bool {
        self.a == self.b
    }
    pub fn is_vert(&self) -> bool {
        self.a.0 == self.b.0
    }
}
pub fn cross(o: P, a: P, b: P) -> i128 {
    (a.0 - o.0) as i128 * (b.1 - o.1) as i128 - (a.1 - o.1) as i128 * (b.0 - o.0) as i128
}
/// Is `p` on the closed segment?
pub fn on(s: &Seg, p: P) -> bool {
    s.a <= p && p <= s.b && cross(s.a, s.b, p) == 0 && (s.a.1.min(s.b.1)..=s.a.1.max(s.b.1)).contains(&p.1)
}
#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Ix {
    None,
    /// A single point with integer coordinates.
    Pt(P),
    Over(P, P),
    /// A single proper crossing at a non-integer point (approximated).
    Inexact(f64, f64),
}
pub fn ix(s: &Seg, t: &Seg) -> Ix {
    if s.is_pt() {
        return if on(t, s.a) { Ix::Pt(s.a) } else { Ix::None };
    }
    if t.is_pt() {
        return if on(s, t.a) { Ix::Pt(t.a) } else { Ix::None };
    }
    if s.b.0 < t.a.0 || t.b.0 < s.a.0 {
        return Ix::None;
    }
    let d1 = (s.b.0 - s.a.0, s.b.1 - s.a.1);
    let d2 = (t.b.0 - t.a.0, t.b.1 - t.a.1);
    let den = d1.0 as i128 * d2.1 as i128 - d1.1 as i128 * d2.0 as i128;
    if den == 0 {
        if cross(s.a, s.b, t.a) != 0 {
            return Ix::None;
        }
        let lo = s.a.max(t.a);
        let hi = s.b.min(t.b);
        return match lo.cmp(&hi) {
            std::cmp::Ordering::Less => Ix::Over(lo, hi),
            std::cmp::Ordering::Equal => Ix::Pt(lo),
            _ => Ix::None,
        };
    }
    let w = (t.a.0 - s.a.0, t.a.1 - s.a.1);
    let n = w.0 as i128 * d2.1 as i128 - w.1 as i128 * d2.0 as i128;
    let m = w.0 as i128 * d1.1 as i128 - w.1 as i128 * d1.0 as i128;
    let (n, m, den) = if den < 0 { (-n, -m, -den) } else { (n, m, den) };
    if n < 0 || n > den || m < 0 || m > den {
        return Ix::None;
    }
    let x = d1.0 as i128 * n;
    let y = d1.1 as i128 * n;
    if x % den != 0 || y % den != 0 {
        let f = n as f64 / den as f64;
        return Ix::Inexact(s.a.0 as f64 + d1.0 as f64 * f, s.a.1 as f64 + d1.1 as f64 * f);
    }
    Ix::Pt((s.a.0 + (x / den) as i64, s.a.1 + (y / den) as i64))
}
/// Do the closed segments meet?
pub fn touch(s: &Seg, t: &Seg) -> bool {
    if on(s, t.a) || on(s, t.b) || on(t, s.a) || on(t, s.b) {
        return true;
    }
    let o = |a, b, c| cross(a, b, c).signum();
    o(s.a, s.b, t.a) * o(s.a, s.b, t.b) < 0 && o(t.a, t.b, s.a) * o(t.a, t.b, s.b) < 0
}
pub fn ring_edges(r: &[P]) -> impl Iterator<Item = Seg> + '_ {
    (0..r.len()).map(move |i| seg(r[i], r[(i + 1) % r.len()])).filter(|s| !s.is_pt())
}
/// Twice the signed area.
pub fn area2(r: &[P]) -> i128 {
    (0..r.len())
        .map(|i| {
            let (a, b) = (r[i], r[(i + 1) % r.len()]);
            a.0 as i128 * b.1 as i128 - a.1 as i128 * b.0 as i128
        })
        .sum()
}
/// Ring without self-contact (vertices of degree two).
pub fn simple(r: &[P]) -> bool {
    let n = r.len();
    if n < 3 {
        return false;
    }
    for i in 0..n {
        let s = seg(r[i], r[(i + 1) % n]);
        if s.is_pt() {
            return false;
        }
        for j in i + 1..n {
            let t = seg(r[j], r[(j + 1) % n]);
            if j == i + 1 || (i == 0 && j == n - 1) {
                let (sh, p, q) = if j == i + 1 { (r[j], r[i], r[(j + 1) % n]) } else { (r[0], r[1], r[j]) };
                if cross(sh, p, q) == 0
                    && (p.0 - sh.0) as i128 * (q.0 - sh.0) as i128 + (p.1 - sh.1) as i128 * (q.1 - sh.1) as i128 > 0
                {
                    return false;
                }
            } else if touch(&s, &t) {
                return false;
            }
        }
    }
    area2(r) != 0
}
/// Is `p` (in doubled coordinates) inside the ring?
pub fn inside2(r: &[P], p: P) -> bool {
    let mut c = false;
    for i in 0..r.len() {
        let d = |q: P| (q.0 * 2, q.1 * 2);
        let (a, b) = (d(r[i]), d(r[(i + 1) % r.len()]));
        if (a.1 > p.1) != (b.1 > p.1) {
            let (lo, hi) = if a.1 < b.1 { (a, b) } else { (b, a) };
            if cross(lo, hi, p) > 0 {
                c ^= true;
            }
        }
    }
    c
}

/// A vertical slab strictly between consecutive event abscissae, with the tagged
/// edges that span it from bottom to top. Equal `level`s coincide in the slab.
pub struct Slab {
    pub x0: i64,
    pub x1: i64,
    pub edges: Vec<(usize, u32)>,
}
/// Decomposes tagged segments into slabs. All intersections must be integers.
pub fn slabs(es: &[(Seg, u32)]) -> Result<Vec<Slab>, String> {
    let mut xs = BTreeSet::new();
    for e in es {
        xs.insert(e.0.a.0);
        xs.insert(e.0.b.0);
    }
    for (i, e) in es.iter().enumerate() {
        for f in &es[..i] {
            match ix(&e.0, &f.0) {
                Ix::Pt(p) => {
                    xs.insert(p.0);
                }
                Ix::Over(p, q) => {
                    xs.insert(p.0);
                    xs.insert(q.0);
                }
                Ix::Inexact(x, y) => return Err(format!("edges cross at a new point near ({x}, {y})")),
                Ix::None => {}
            }
        }
    }
    let xs: Vec<i64> = xs.into_iter().collect();
    let mut out = vec![];
    for w in xs.windows(2) {
        let x2 = w[0] + w[1];
        let mut l: Vec<(i128, i128, u32)> = es
            .iter()
            .filter(|e| e.0.a.0 <= w[0] && e.0.b.0 >= w[1] && !e.0.is_vert())
            .map(|e| {
                let s = e.0;
                let dx = (s.b.0 - s.a.0) as i128;
                let dy = (s.b.1 - s.a.1) as i128;
                (s.a.1 as i128 * 2 * dx + dy * (x2 as i128 - 2 * s.a.0 as i128), 2 * dx, e.1)
            })
            .collect();
        l.sort_by(|p, q| (p.0 * q.1).cmp(&(q.0 * p.1)));
        let mut level = 0;
        let mut edges = vec![];
        for i in 0..l.len() {
            if i > 0 && l[i].0 * l[i - 1].1 != l[i - 1].0 * l[i].1 {
                level += 1;
            }
            edges.push((level, l[i].2));
        }
        out.push(Slab { x0: w[0], x1: w[1], edges });
    }
    Ok(out)
}

/// Same in floating point: for every slab, its width and the edges' heights in
/// its middle, bottom to top.
pub fn fslabs(es: &[((f64, f64), (f64, f64), u32)]) -> Vec<(f64, f64, Vec<(f64, u32)>)> {
    let mut xs: Vec<f64> = es.iter().flat_map(|e| [e.0 .0, e.1 .0]).collect();
    for (i, e) in es.iter().enumerate() {
        for f in &es[..i] {
            let (d1, d2) = ((e.1 .0 - e.0 .0, e.1 .1 - e.0 .1), (f.1 .0 - f.0 .0, f.1 .1 - f.0 .1));
            let den = d1.0 * d2.1 - d1.1 * d2.0;
            if den == 0. {
                continue;
            }
            let w = (f.0 .0 - e.0 .0, f.0 .1 - e.0 .1);
            let t = (w.0 * d2.1 - w.1 * d2.0) / den;
            if (0. ..=1.).contains(&t) {
                xs.push(e.0 .0 + d1.0 * t);
            }
        }
    }
    xs.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut out = vec![];
    for w in xs.windows(2) {
        if w[1] <= w[0] {
            continue;
        }
        let xm = (w[0] + w[1]) / 2.;
        let mut l: Vec<(f64, u32)> = es
            .iter()
            .filter(|e| e.0 .0.min(e.1 .0) < xm && xm < e.0 .0.max(e.1 .0))
            .map(|e| (e.0 .1 + (e.1 .1 - e.0 .1) * (xm - e.0 .0) / (e.1 .0 - e.0 .0), e.2))
            .collect();
        l.sort_by(|a, b| a.partial_cmp(b).unwrap());
        out.push((xm, w[1] - w[0], l));
    }
    out
}
