//! Scanning and rasterising a monotone piece.
use super::*;
use crate::geom::P;
use crate::scalar::{FCoord, Sim};
use crate::seam::harness;
use geo::LineString;
use geo_crossings::monotone::{MonoPoly, Trapz, Trip};
use std::rc::Rc;

/// Sub-unit resolution of stops and windows.
pub const SUB: i64 = 1 << 20;

struct Piece {
    top: Vec<P>,
    bot: Vec<P>,
    nz: u64,
}
impl Piece {
    fn x0(&self) -> f64 {
        self.top[0].0 as f64
    }
    fn x1(&self) -> f64 {
        self.top[self.top.len() - 1].0 as f64
    }
    fn size(&self) -> f64 {
        self.top.iter().chain(&self.bot).map(|p| p.0.abs().max(p.1.abs())).max().unwrap_or(1).max(1) as f64
    }
}
/// Edge of a chain over the whole of `xl..xr`.
fn edge(c: &[P], xl: f64, xr: f64) -> Option<(P, P)> {
    c.windows(2).map(|w| (w[0], w[1])).find(|(a, b)| a.0 < b.0 && a.0 as f64 <= xl && xr <= b.0 as f64)
}
fn at(e: (P, P), x: f64) -> f64 {
    let (a, b) = e;
    a.1 as f64 + (b.1 - a.1) as f64 * ((x - a.0 as f64) / (b.0 - a.0) as f64)
}
/// Lowest and highest point of a chain on a vertical line.
fn span(c: &[P], x: f64) -> (f64, f64) {
    let mut r = (f64::INFINITY, f64::NEG_INFINITY);
    let mut add = |y: f64| r = (r.0.min(y), r.1.max(y));
    for w in c.windows(2) {
        if w[0].0 as f64 <= x && x <= w[1].0 as f64 {
            if w[0].0 == w[1].0 {
                add(w[0].1 as f64);
                add(w[1].1 as f64);
            } else {
                add(at((w[0], w[1]), x));
            }
        }
    }
    r
}
/// Integral of the chain edge clamped to `y0..y1`.
fn clamped(e: (P, P), xl: f64, xr: f64, y0: f64, y1: f64) -> f64 {
    let mut cuts = vec![xl, xr];
    let (a, b) = e;
    if a.1 != b.1 {
        for y in [y0, y1] {
            let x = a.0 as f64 + (y - a.1 as f64) * (b.0 - a.0) as f64 / (b.1 - a.1) as f64;
            if x > xl && x < xr {
                cuts.push(x);
            }
        }
    }
    cuts.sort_by(|a, b| a.partial_cmp(b).unwrap());
    cuts.windows(2).map(|w| at(e, (w[0] + w[1]) / 2.).clamp(y0, y1) * (w[1] - w[0])).sum()
}
/// Intervals of `xl..xr` between vertices, with the edges above and below.
fn intervals(p: &Piece, xl: f64, xr: f64) -> Vec<(f64, f64, (P, P), (P, P))> {
    let mut xs: Vec<f64> = p.top.iter().chain(&p.bot).map(|q| q.0 as f64).filter(|x| *x > xl && *x < xr).collect();
    xs.push(xl);
    xs.push(xr);
    xs.sort_by(|a, b| a.partial_cmp(b).unwrap());
    xs.dedup();
    xs.windows(2).filter_map(|w| Some((w[0], w[1], edge(&p.top, w[0], w[1])?, edge(&p.bot, w[0], w[1])?))).collect()
}

fn eps(scalar: &str) -> f64 {
    if scalar == "f32" {
        3e-4
    } else {
        1e-9
    }
}
fn parse(v: &Value) -> (Rc<Piece>, i64, String) {
    (Rc::new(Piece { top: pts(&ints(&v["top"])), bot: pts(&ints(&v["bot"])), nz: v["nz"].as_u64().unwrap_or(0) }), int(&v["exp"]), v["scalar"].as_str().unwrap_or("f64").into())
}

enum Req<'a, S> {
    To(S, usize),
    Upto(S),
    Next(S),
    Curr,
    Area(S, S, S, &'a mut [S]),
    Ubounds(S, S, S, usize),
    Bounds(S, S, S, usize),
}
enum Res<S: FCoord> {
    List(Vec<Trapz<S>>),
    Next(Option<Option<Trapz<S>>>),
    Curr(Trip<S>),
    Area,
    Ubounds((usize, usize)),
    Bounds(Option<(usize, usize, S, S)>),
}
type Sc<S> = Box<dyn FnMut(Req<'_, S>) -> Res<S>>;
/// The type of the scanner has no public name: hence the closure.
fn scanner<S: FCoord>(p: &'static MonoPoly<S>, left: S) -> Sc<S> {
    let mut sc = p.scan_lines(left);
    Box::new(move |q| match q {
        Req::To(u, take) => {
            let mut v = vec![];
            let mut it = sc.advance_to(u);
            while v.len() < take {
                match it.next() {
                    Some(t) => v.push(t),
                    None => break,
                }
            }
            Res::List(v)
        }
        Req::Upto(u) => {
            let mut v = vec![];
            sc.advance_upto(u, |t| v.push(t));
            Res::List(v)
        }
        Req::Next(u) => Res::Next(sc.advance_next(u)),
        Req::Curr => Res::Curr(sc.curr()),
        Req::Area(r, a, b, v) => {
            sc.cross_area(r, a, b, v);
            Res::Area
        }
        Req::Ubounds(r, a, b, h) => Res::Ubounds(sc.cross_ubounds(r, a, b, h)),
        Req::Bounds(r, a, b, h) => Res::Bounds(sc.cross_bounds(r, a, b, h)),
    })
}

/// A scanner over a piece, and where it should be.
struct Scan<S: FCoord> {
    sc: Option<Sc<S>>,
    /// Outlives the scanner: see the order of fields.
    poly: Option<Box<MonoPoly<S>>>,
    piece: Rc<Piece>,
    k: f64,
    pos: f64,
    eps: f64,
    prop: &'static str,
}
impl<S: FCoord> Scan<S> {
    fn new(piece: Rc<Piece>, exp: i64, scalar: &str, prop: &'static str) -> Self {
        let pos = piece.x0();
        Scan { sc: None, poly: None, piece, k: pow2(exp), pos, eps: eps(scalar), prop }
    }
    /// A stop as the library sees it, and in units.
    fn stop(&self, s: i64) -> (S, f64) {
        let v = S::of(s as f64 / SUB as f64 * self.k);
        (v, v.raw() / self.k)
    }
    fn open(&mut self, left: i64, cx: &mut Cx) {
        let f = |c: &[P], z| LineString(c.iter().enumerate().map(|(i, p)| coz::<S>(*p, self.k, z, i)).collect::<Vec<_>>());
        let z = self.piece.nz;
        let (t, b) = (f(&self.piece.top, z), f(&self.piece.bot, z.wrapping_mul(5)));
        let poly = cx.api(|| Box::new(MonoPoly::new(t, b)));
        let r: &'static MonoPoly<S> = unsafe { &*(&*poly as *const MonoPoly<S>) };
        self.poly = Some(poly);
        let (l, u) = self.stop(left);
        self.sc = Some(cx.api(|| scanner(r, l)));
        self.moved(u);
        self.position(cx);
    }
    fn moved(&mut self, u: f64) {
        self.pos = self.pos.max(u.min(self.piece.x1()));
    }
    fn ask(&mut self, cx: &Cx, q: Req<'_, S>) -> Res<S> {
        let sc = self.sc.as_mut().unwrap();
        cx.api(|| sc(q))
    }
    /// Is the scanner where it should be?
    fn position(&mut self, cx: &mut Cx) {
        let Res::Curr(c) = self.ask(cx, Req::Curr) else { return };
        let (x, t, b) = (c.x.raw() / self.k, c.top.raw() / self.k, c.bot.raw() / self.k);
        for v in [x, t, b] {
            cx.seef(v);
        }
        let pos = self.pos;
        if !cx.check(self.prop, x == pos, || format!("scanner is at x = {x} instead of {pos}")) {
            return;
        }
        let tol = self.eps * self.piece.size();
        for (c, y, n) in [(&self.piece.top, t, "top"), (&self.piece.bot, b, "bottom")] {
            let (lo, hi) = span(c, x);
            cx.check(self.prop, y >= lo - tol && y <= hi + tol, || format!("{n} of the scanner at x = {x} is {y}, not in {lo}..{hi}"));
        }
    }
    /// Checks consecutive trapezoids from the current position; returns its end.
    fn follow(&self, cx: &mut Cx, ts: &[Trapz<S>]) -> f64 {
        let mut x = self.pos;
        let tol = self.eps * self.piece.size();
        for t in ts {
            let f = |t: &Trip<S>| (t.x.raw() / self.k, t.top.raw() / self.k, t.bot.raw() / self.k);
            let (l, r) = (f(&t.left), f(&t.right));
            for v in [l.0, l.1, l.2, r.0, r.1, r.2] {
                cx.seef(v);
            }
            let e = (|| {
                if l.0 != x {
                    return Err(format!("trapezoid starts at x = {} instead of {x}", l.0));
                }
                if l.0.partial_cmp(&r.0) != Some(std::cmp::Ordering::Less) {
                    return Err(format!("trapezoid from x = {} to {}", l.0, r.0));
                }
                if l.1.partial_cmp(&l.2).is_none_or(|o| o.is_lt()) || r.1.partial_cmp(&r.2).is_none_or(|o| o.is_lt()) {
                    return Err(format!("trapezoid upside down: {l:?} {r:?}"));
                }
                let (area, k2) = (t.area().raw(), self.k * self.k);
                let want = ((l.1 - l.2) + (r.1 - r.2)) / 2. * (r.0 - l.0);
                // Unless it cannot be represented.
                if (1e-30..1e30).contains(&(want * k2)) && (area / k2 - want).abs() > 1e-5 * want {
                    return Err(format!("trapezoid of area {} instead of {want}", area / k2));
                }
                for (c, yl, yr, n) in [(&self.piece.top, l.1, r.1, "top"), (&self.piece.bot, l.2, r.2, "bottom")] {
                    let Some(e) = edge(c, l.0, r.0) else {
                        return Err(format!("trapezoid {}..{} skips a vertex of the {n}, or leaves the piece", l.0, r.0));
                    };
                    let (wl, wr) = (at(e, l.0), at(e, r.0));
                    if (yl - wl).abs() > tol || (yr - wr).abs() > tol {
                        return Err(format!("{n} of trapezoid {}..{} is {yl}..{yr} instead of {wl}..{wr}", l.0, r.0));
                    }
                }
                Ok(())
            })();
            let stop = e.is_err();
            cx.verdict(self.prop, e);
            if stop {
                break;
            }
            x = r.0;
        }
        x
    }
}
pub fn valid_chains(t: &[P], b: &[P]) -> bool {
    crate::gen::loose_piece(t, b)
}

/// Calls: [kind, stop, take].
pub struct ScanJob {
    piece: Rc<Piece>,
    exp: i64,
    scalar: String,
    left: i64,
    calls: Rc<Vec<Vec<i64>>>,
}
impl ScanJob {
    pub fn parse(v: &Value) -> Self {
        let (piece, exp, scalar) = parse(v);
        let calls = rows(&v["calls"]).into_iter().filter(|c| c.len() == 3).collect();
        ScanJob { piece, exp, scalar, left: int(&v["left"]), calls: Rc::new(calls) }
    }
    fn go<S: FCoord>(&self) -> Box<dyn Task> {
        Box::new(ScanTask::<S> {
            s: Scan::new(self.piece.clone(), self.exp, &self.scalar, "M03"),
            left: self.left,
            calls: self.calls.clone(),
            n: 0,
        })
    }
}
impl Job for ScanJob {
    fn start(&self, _: usize) -> Box<dyn Task> {
        match self.scalar.as_str() {
            "f32" => self.go::<f32>(),
            "sim" => self.go::<Sim>(),
            _ => self.go::<f64>(),
        }
    }
    fn props(&self) -> &'static [&'static str] {
        &["M03"]
    }
    fn release_prop(&self) -> &'static str {
        "M03"
    }
    fn valid(&self) -> bool {
        valid_chains(&self.piece.top, &self.piece.bot)
    }
}
struct ScanTask<S: FCoord> {
    s: Scan<S>,
    left: i64,
    calls: Rc<Vec<Vec<i64>>>,
    n: usize,
}
impl<S: FCoord> Task for ScanTask<S> {
    fn step(&mut self, cx: &mut Cx) -> bool {
        if self.s.sc.is_none() {
            self.s.open(self.left, cx);
            return true;
        }
        let Some(c) = self.calls.get(self.n) else { return false };
        let (kind, stop, take) = (c[0], c[1], c[2].max(0) as usize);
        self.n += 1;
        let (u, uu) = self.s.stop(stop);
        let s = &mut self.s;
        let target = s.pos.max(uu.min(s.piece.x1()));
        match kind {
            // lazily, possibly abandoned
            0 | 1 => {
                let take = if kind == 0 { usize::MAX } else { take };
                let Res::List(ts) = s.ask(cx, Req::To(u, take)) else { return false };
                let x = s.follow(cx, &ts);
                if ts.len() < take {
                    cx.check("M03", x == target, || format!("advance to {uu} covered up to x = {x} instead of {target}"));
                }
                cx.check("M03", x <= target, || format!("advance to {uu} went on to x = {x}"));
                s.pos = x;
            }
            2 => {
                let Res::List(ts) = s.ask(cx, Req::Upto(u)) else { return false };
                let x = s.follow(cx, &ts);
                cx.check("M03", x == target, || format!("advance up to {uu} covered up to x = {x} instead of {target}"));
                s.pos = x;
            }
            // one at a time
            _ => {
                let mut left = take.min(2 * (s.piece.top.len() + s.piece.bot.len()) + 8);
                while left > 0 {
                    left -= 1;
                    let Res::Curr(c) = s.ask(cx, Req::Curr) else { return false };
                    if !(c.x < u) {
                        break;
                    }
                    let Res::Next(r) = s.ask(cx, Req::Next(u)) else { return false };
                    match r {
                        None => {
                            let (p, x1) = (s.pos, s.piece.x1());
                            cx.check("M03", p == x1, || format!("no more trapezoids at x = {p}, before the end {x1}"));
                            break;
                        }
                        Some(None) => {}
                        Some(Some(t)) => {
                            s.pos = s.follow(cx, &[t]);
                            let p = s.pos;
                            cx.check("M03", p <= target, || format!("advance to {uu} went on to x = {p}"));
                        }
                    }
                }
            }
        }
        cx.nontrivial |= s.pos > s.piece.x0() && self.n > 1;
        s.position(cx);
        cx.bad.is_empty()
    }
}

/// Strips: [kind, right stop].
pub struct RasterJob {
    piece: Rc<Piece>,
    exp: i64,
    scalar: String,
    left: i64,
    lo: i64,
    hi: i64,
    height: usize,
    strips: Rc<Vec<Vec<i64>>>,
}
impl RasterJob {
    pub fn parse(v: &Value) -> Self {
        let (piece, exp, scalar) = parse(v);
        RasterJob {
            piece,
            exp,
            scalar,
            left: int(&v["left"]),
            lo: int(&v["lo"]),
            hi: int(&v["hi"]),
            height: int(&v["height"]).max(0) as usize,
            strips: Rc::new(rows(&v["strips"]).into_iter().filter(|c| c.len() == 2).collect()),
        }
    }
    fn go<S: FCoord>(&self) -> Box<dyn Task> {
        let s = Scan::<S>::new(self.piece.clone(), self.exp, &self.scalar, "M04");
        let unit = S::of(s.k * s.k);
        let f32 = self.scalar == "f32";
        let arr: Vec<S> = (0..self.height).map(|j| if f32 { S::of(0.) } else { S::of((j % 3) as f64) * unit }).collect();
        let sum = arr.iter().map(|v| v.raw() / s.k / s.k).collect();
        Box::new(RasterTask::<S> { s, left: self.left, lo: self.lo, hi: self.hi, strips: self.strips.clone(), n: 0, arr, sum })
    }
}
impl Job for RasterJob {
    fn start(&self, _: usize) -> Box<dyn Task> {
        match self.scalar.as_str() {
            "f32" => self.go::<f32>(),
            "sim" => self.go::<Sim>(),
            _ => self.go::<f64>(),
        }
    }
    fn props(&self) -> &'static [&'static str] {
        &["M04"]
    }
    fn release_prop(&self) -> &'static str {
        "M04"
    }
    fn valid(&self) -> bool {
        valid_chains(&self.piece.top, &self.piece.bot) && self.lo < self.hi && (1..=4096).contains(&self.height)
    }
}
struct RasterTask<S: FCoord> {
    s: Scan<S>,
    left: i64,
    lo: i64,
    hi: i64,
    strips: Rc<Vec<Vec<i64>>>,
    n: usize,
    arr: Vec<S>,
    /// Expected contents of the column.
    sum: Vec<f64>,
}
impl<S: FCoord> Task for RasterTask<S> {
    fn step(&mut self, cx: &mut Cx) -> bool {
        if self.s.sc.is_none() {
            self.s.open(self.left, cx);
            return true;
        }
        let Some(c) = self.strips.get(self.n) else { return false };
        let (kind, stop) = (c[0], c[1]);
        self.n += 1;
        let ((u, uu), (lo, c0), (hi, c1)) = (self.s.stop(stop), self.s.stop(self.lo), self.s.stop(self.hi));
        let h = self.arr.len();
        let from = self.s.pos;
        let mut arr = std::mem::take(&mut self.arr);
        let s = &mut self.s;
        s.moved(uu);
        let iv = if s.pos > from { intervals(&s.piece, from, s.pos) } else { vec![] };
        let big = s.piece.size().max(c0.abs()).max(c1.abs());
        let (mut bmin, mut bmax, mut tmin, mut tmax) = (f64::INFINITY, f64::NEG_INFINITY, f64::INFINITY, f64::NEG_INFINITY);
        for (a, b, t, o) in &iv {
            for x in [*a, *b] {
                tmin = tmin.min(at(*t, x));
                tmax = tmax.max(at(*t, x));
                bmin = bmin.min(at(*o, x));
                bmax = bmax.max(at(*o, x));
            }
        }
        let tol = s.eps * big;
        let strip = format!("strip {from}..{}", s.pos);
        // Outside of the window for sure, or on its border.
        let off = iv.is_empty() || tmax < c0 - tol || bmin > c1 + tol;
        let edge = !off && (tmax <= c0 + tol || bmin >= c1 - tol || tmax - bmin <= 2. * tol);
        let idx = |y: f64| ((y - c0) * h as f64 / (c1 - c0)).floor().clamp(0., h as f64 - 1.) as usize;
        match kind {
            0 => {
                s.ask(cx, Req::Area(u, lo, hi, &mut arr));
                harness(|| {
                    let row = (c1 - c0) / h as f64;
                    let atol = s.eps * big * big * (1 + self.n) as f64;
                    for (j, sum) in self.sum.iter_mut().enumerate() {
                        let (y0, y1) = (c0 + row * j as f64, c0 + row * (j + 1) as f64);
                        *sum += iv.iter().map(|(a, b, t, o)| clamped(*t, *a, *b, y0, y1) - clamped(*o, *a, *b, y0, y1)).sum::<f64>();
                        let got = arr[j].raw() / s.k / s.k;
                        cx.seef(got);
                        let want = *sum;
                        cx.check("M04", (got - want).abs() <= atol, || format!("{strip}: pixel {j} ({y0}..{y1}) holds {got} instead of {want}"));
                    }
                });
            }
            1 => {
                let Res::Ubounds((a, b)) = s.ask(cx, Req::Ubounds(u, lo, hi, h)) else { return false };
                cx.see(a as u64);
                cx.see(b as u64);
                let none = (a, b) == (h, 0);
                // Numbers in a range of one pixel look like none only if h is 0.
                let ok = if off { none } else { (edge && none) || bounds_ok(idx, a, b, bmin, tmax, tol) };
                cx.check("M04", ok, || format!("{strip}: bounds {a}..={b} of {h} pixels over {c0}..{c1}, for heights {bmin}..{tmax}"));
            }
            2 => {
                let Res::Bounds(r) = s.ask(cx, Req::Bounds(u, lo, hi, h)) else { return false };
                let ok = match &r {
                    None => {
                        cx.see(1);
                        off || edge
                    }
                    Some((a, b, p, q)) => {
                        let (p, q) = (p.raw() / s.k, q.raw() / s.k);
                        cx.see(*a as u64);
                        cx.see(*b as u64);
                        cx.seef(p);
                        cx.seef(q);
                        !off && bounds_ok(idx, *a, *b, bmin, tmax, tol) && (p - bmax).abs() <= tol && (q - tmin).abs() <= tol
                    }
                };
                cx.check("M04", ok, || {
                    let r = r.map(|r| (r.0, r.1, r.2.raw() / s.k, r.3.raw() / s.k));
                    format!("{strip}: bounds {r:?} of {h} pixels over {c0}..{c1}, for bottom {bmin}..{bmax} and top {tmin}..{tmax}")
                });
            }
            _ => {
                s.ask(cx, Req::Upto(u));
            }
        }
        cx.nontrivial |= !off;
        self.arr = arr;
        self.s.position(cx);
        cx.bad.is_empty()
    }
}
fn bounds_ok(idx: impl Fn(f64) -> usize, a: usize, b: usize, bmin: f64, tmax: f64, tol: f64) -> bool {
    (idx(bmin - tol)..=idx(bmin + tol)).contains(&a) && (idx(tmax - tol)..=idx(tmax + tol)).contains(&b)
}
