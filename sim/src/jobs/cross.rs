//! Crossings and intersections of segments and points.
use super::*;
use crate::geom::*;
use crate::rng::Rng;
use crate::scalar::{FCoord, Sim};
use crate::seam::{harness, seam, Kind};
use crate::token::Tok;
use geo::line_intersection::{line_intersection, LineIntersection};
use geo::Line;
use geo_crossings::{Crossable, Crossing, CrossingsIter, Intersections};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::Arc;

/// User type whose copies and accesses are tracked.
pub struct Item<S: FCoord> {
    tok: Tok,
    l: Line<S>,
}
impl<S: FCoord> Clone for Item<S> {
    fn clone(&self) -> Self {
        Item { tok: self.tok.clone(), l: self.l }
    }
}
impl<S: FCoord> fmt::Debug for Item<S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.tok.fmt(f)
    }
}
impl<S: FCoord> Crossable for Item<S> {
    type Scalar = S;
    fn line(&self) -> Line<S> {
        self.tok.check("line");
        seam(Kind::Line);
        self.l
    }
}
/// Plain value for the simulator's own runs.
#[derive(Clone)]
struct Plain<S: FCoord>(usize, Line<S>);
impl<S: FCoord> fmt::Debug for Plain<S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<S: FCoord> Crossable for Plain<S> {
    type Scalar = S;
    fn line(&self) -> Line<S> {
        self.1
    }
}

trait Wrap<S: FCoord>: Crossable<Scalar = S> + Clone {
    fn wrap(items: &[Item<S>], i: usize) -> Self;
    fn id(&self) -> usize;
}
impl<S: FCoord> Wrap<S> for Item<S> {
    fn wrap(v: &[Item<S>], i: usize) -> Self {
        v[i].clone()
    }
    fn id(&self) -> usize {
        self.tok.check("use");
        self.tok.id as usize
    }
}
impl<S: FCoord> Wrap<S> for &'static Item<S> {
    fn wrap(v: &[Item<S>], i: usize) -> Self {
        // The items outlive the iterator: see the order of fields of `CrossTask`.
        unsafe { &*(&v[i] as *const Item<S>) }
    }
    fn id(&self) -> usize {
        (**self).id()
    }
}
macro_rules! ptr {
    ($p:ident) => {
        impl<S: FCoord> Wrap<S> for $p<Item<S>> {
            fn wrap(v: &[Item<S>], i: usize) -> Self {
                $p::new(v[i].clone())
            }
            fn id(&self) -> usize {
                (**self).id()
            }
        }
    };
}
ptr!(Box);
ptr!(Rc);
ptr!(Arc);

/// Input iterator with a chosen size hint.
struct Feed<W>(std::vec::IntoIter<W>, i64);
impl<W> Iterator for Feed<W> {
    type Item = W;
    fn next(&mut self) -> Option<W> {
        seam(Kind::Input);
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.0.len();
        match self.1 {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (n / 2, Some(2 * n + 7)),
            3 => (0, Some(usize::MAX)),
            _ => (n, None),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Ev {
    pos: (f64, f64),
    /// Sorted (input, starts here).
    inc: Vec<(usize, bool)>,
}

pub struct CrossJob {
    segs: Vec<[i64; 4]>,
    exp: i64,
    general: bool,
    scalar: String,
    wrap: i64,
    hint: i64,
    drive: u64,
    nz: u64,
    /// Not 0: inputs outside what the sweep can compute exactly; its answers are
    /// not judged, what it does with the inputs is.
    wild: u64,
    inter: bool,
    events: Rc<Vec<Ev>>,
    pairs: Rc<BTreeSet<(usize, usize)>>,
}
impl CrossJob {
    pub fn parse(v: &Value) -> Self {
        let segs: Vec<[i64; 4]> = rows(&v["segs"]).iter().filter(|r| r.len() == 4).map(|r| [r[0], r[1], r[2], r[3]]).collect();
        let general = v["general"].as_bool().unwrap_or(false);
        let s: Vec<Seg> = segs.iter().map(|a| seg((a[0], a[1]), (a[2], a[3]))).collect();
        let inter = v["kind"] == "inter";
        let wild = v["wild"].as_u64().unwrap_or(0);
        let (events, pairs) = if wild > 0 { Default::default() } else { expected(&s, general) };
        CrossJob {
            segs,
            exp: int(&v["exp"]),
            general,
            scalar: v["scalar"].as_str().unwrap_or("f64").into(),
            wrap: int(&v["wrap"]),
            hint: int(&v["hint"]),
            drive: v["drive"].as_u64().unwrap_or(0),
            nz: v["nz"].as_u64().unwrap_or(0),
            wild,
            inter,
            events: Rc::new(events),
            pairs: Rc::new(pairs),
        }
    }
    fn go<S: FCoord>(&self, who: usize) -> Box<dyn Task> {
        match self.wrap {
            0 => self.go2::<S, Item<S>>(who),
            1 => self.go2::<S, &'static Item<S>>(who),
            2 => self.go2::<S, Rc<Item<S>>>(who),
            3 => self.go2::<S, Arc<Item<S>>>(who),
            _ => self.go2::<S, Box<Item<S>>>(who),
        }
    }
    fn go2<S: FCoord, W: Wrap<S> + 'static>(&self, who: usize) -> Box<dyn Task> {
        let k = pow2(self.exp);
        let items: Vec<Item<S>> = self
            .segs
            .iter()
            .enumerate()
            .map(|(i, a)| {
                let w = |v: i64| S::of(super::wild::odd(v, self.wild) * k);
                let l = if self.wild > 0 {
                    Line::new((w(a[0]), w(a[1])), (w(a[2]), w(a[3])))
                } else {
                    Line::new(coz::<S>((a[0], a[1]), k, self.nz, 2 * i), coz((a[2], a[3]), k, self.nz, 2 * i + 1))
                };
                Item { tok: Tok::new(who as u32, i as i64), l }
            })
            .collect();
        let segs: Vec<Seg> = self.segs.iter().map(|a| seg((a[0], a[1]), (a[2], a[3]))).collect();
        Box::new(CrossTask::<S, W> {
            held: vec![],
            it: It::New,
            items,
            segs,
            k,
            tol: if self.general { 1e-3 } else { 0. },
            hint: self.hint,
            rng: Rng::new(self.drive),
            plain: self.drive == 0,
            wild: self.wild > 0,
            inter: self.inter,
            events: self.events.clone(),
            pairs: self.pairs.clone(),
            n: 0,
            last: BTreeMap::new(),
            seen: BTreeSet::new(),
            done: 0,
        })
    }
}
impl Job for CrossJob {
    fn start(&self, who: usize) -> Box<dyn Task> {
        match self.scalar.as_str() {
            "f32" => self.go::<f32>(who),
            "sim" => self.go::<Sim>(who),
            _ => self.go::<f64>(who),
        }
    }
    fn props(&self) -> &'static [&'static str] {
        if self.wild > 0 {
            &["C05"]
        } else if self.inter {
            &["C02"]
        } else {
            &["C01"]
        }
    }
    fn release_prop(&self) -> &'static str {
        "C03"
    }
    fn sticky(&self) -> bool {
        self.wild > 0
    }
    fn valid(&self) -> bool {
        let s: Vec<Seg> = self.segs.iter().map(|a| seg((a[0], a[1]), (a[2], a[3]))).collect();
        if self.wild > 0 {
            true
        } else if self.general {
            crate::gen::general(&s)
        } else {
            s.iter().enumerate().all(|(i, a)| s[..i].iter().all(|b| !matches!(ix(a, b), Ix::Inexact(..))))
        }
    }
}

/// Every event and every intersecting pair, by brute force.
fn expected(s: &[Seg], general: bool) -> (Vec<Ev>, BTreeSet<(usize, usize)>) {
    let mut pairs = BTreeSet::new();
    let mut pts: BTreeSet<P> = BTreeSet::new();
    let mut crossings = vec![];
    for (i, a) in s.iter().enumerate() {
        pts.insert(a.a);
        pts.insert(a.b);
        for (j, b) in s[..i].iter().enumerate() {
            match ix(b, a) {
                Ix::None => continue,
                Ix::Pt(p) => {
                    pts.insert(p);
                }
                Ix::Over(p, q) => {
                    pts.insert(p);
                    pts.insert(q);
                }
                Ix::Inexact(x, y) => {
                    if general {
                        crossings.push((x, y, j, i));
                    }
                }
            }
            pairs.insert((j, i));
        }
    }
    let mut evs: Vec<Ev> = pts
        .iter()
        .map(|&p| {
            let mut inc = vec![];
            for (i, a) in s.iter().enumerate() {
                if on(a, p) {
                    if a.is_pt() {
                        inc.push((i, false));
                    } else {
                        if a.a < p {
                            inc.push((i, false));
                        }
                        if p < a.b {
                            inc.push((i, true));
                        }
                    }
                }
            }
            inc.sort();
            Ev { pos: (p.0 as f64, p.1 as f64), inc }
        })
        .collect();
    for (x, y, i, j) in crossings {
        let mut inc = vec![(i, false), (i, true), (j, false), (j, true)];
        inc.sort();
        evs.push(Ev { pos: (x, y), inc });
    }
    evs.sort_by(|a, b| a.pos.partial_cmp(&b.pos).unwrap());
    (evs, pairs)
}

enum It<W: Crossable + Clone> {
    New,
    Cross(Box<CrossingsIter<W>>),
    Inter(Box<Intersections<W>>),
}

struct CrossTask<S: FCoord, W: Wrap<S>> {
    held: Vec<W>,
    it: It<W>,
    /// Must stay below (dropped after) the iterator.
    items: Vec<Item<S>>,
    segs: Vec<Seg>,
    k: f64,
    tol: f64,
    hint: i64,
    rng: Rng,
    plain: bool,
    wild: bool,
    inter: bool,
    events: Rc<Vec<Ev>>,
    pairs: Rc<BTreeSet<(usize, usize)>>,
    /// Events seen.
    n: usize,
    /// Position of the last event on each input.
    last: BTreeMap<usize, (f64, f64)>,
    seen: BTreeSet<(usize, usize)>,
    done: u8,
}
impl<S: FCoord, W: Wrap<S>> CrossTask<S, W> {
    fn near(&self, p: (f64, f64), q: (f64, f64)) -> bool {
        if self.tol == 0. {
            p == q
        } else {
            (p.0 - q.0).abs() <= self.tol && (p.1 - q.1).abs() <= self.tol
        }
    }
    /// Is `p` (in units) on input `i`?
    fn lies(&self, i: usize, p: (f64, f64)) -> bool {
        let s = &self.segs[i];
        if self.tol == 0. {
            ip(p).is_some_and(|p| on(s, p))
        } else {
            crate::gen::distf(p, s) <= self.tol
        }
    }
}
impl<S: FCoord, W: Wrap<S>> Task for CrossTask<S, W> {
    fn step(&mut self, cx: &mut Cx) -> bool {
        if matches!(self.it, It::New) {
            let v: Vec<W> = harness(|| (0..self.items.len()).map(|i| W::wrap(&self.items, i)).collect());
            let feed = Feed(v.into_iter(), self.hint);
            if self.wild {
                let inter = self.inter;
                let r = super::wild::dare(cx, |cx| {
                    if inter {
                        It::Inter(cx.api(|| Box::new(feed.collect::<Intersections<W>>())))
                    } else {
                        It::Cross(cx.api(|| Box::new(feed.collect::<CrossingsIter<W>>())))
                    }
                });
                return match r {
                    Some(it) => {
                        self.it = it;
                        true
                    }
                    None => false,
                };
            }
            self.it = if self.inter {
                It::Inter(cx.api(|| Box::new(feed.collect::<Intersections<W>>())))
            } else {
                It::Cross(cx.api(|| Box::new(feed.collect::<CrossingsIter<W>>())))
            };
            return true;
        }
        // Move it in memory now and then.
        if !self.plain && self.rng.one_in(3) {
            self.it = match std::mem::replace(&mut self.it, It::New) {
                It::Cross(b) => {
                    let mut v = Vec::with_capacity(2);
                    v.push(*b);
                    It::Cross(Box::new(v.pop().unwrap()))
                }
                It::Inter(b) => {
                    let mut v = Vec::with_capacity(3);
                    v.push(*b);
                    It::Inter(Box::new(v.pop().unwrap()))
                }
                It::New => It::New,
            };
        }
        if self.wild {
            self.step_wild(cx)
        } else if self.inter {
            self.step_inter(cx)
        } else {
            self.step_cross(cx)
        }
    }
}

struct Piece {
    id: usize,
    line: bool,
    a: (f64, f64),
    b: (f64, f64),
    first: bool,
    overlap: bool,
    left: bool,
}
fn piece<S: FCoord, W: Wrap<S>>(c: &Crossing<W>, k: f64) -> Piece {
    let l = c.line.line();
    Piece {
        id: c.crossable.id(),
        line: c.line.is_line(),
        a: un(l.start, k),
        b: un(l.end, k),
        first: c.first_segment,
        overlap: c.has_overlap,
        left: c.at_left,
    }
}

impl<S: FCoord, W: Wrap<S>> CrossTask<S, W> {
    fn step_cross(&mut self, cx: &mut Cx) -> bool {
        let It::Cross(it) = &mut self.it else { return false };
        let next = cx.api(|| it.next());
        let k = self.k;
        let Some(p) = next else {
            cx.see(0);
            let all = self.n;
            let want = self.events.len();
            cx.check("C01", all == want, || format!("sweep ended after {all} of {want} event points"));
            self.done += 1;
            return self.done < 3;
        };
        let p = un(p, k);
        cx.seef(p.0);
        cx.seef(p.1);
        let mut it = std::mem::replace(&mut self.it, It::New);
        let It::Cross(iter) = &mut it else { return false };
        let ps: Vec<Piece> = iter.intersections().iter().map(|c| piece(c, k)).collect();
        for q in &ps {
            cx.see(q.id as u64 * 8 + q.first as u64 * 4 + q.overlap as u64 * 2 + q.left as u64);
            for v in [q.a.0, q.a.1, q.b.0, q.b.1] {
                cx.seef(v);
            }
        }
        let r = self.event(p, &ps, cx);
        cx.verdict("C01", r);
        if !self.plain {
            // The user may keep copies, and scramble the reported pieces.
            if self.rng.one_in(4) && !ps.is_empty() {
                let i = self.rng.z(ps.len());
                let c = harness(|| iter.intersections()[i].crossable.clone());
                self.held.push(c);
                if self.held.len() > 6 {
                    self.held.remove(0);
                }
            }
            if self.rng.one_in(4) {
                let m = iter.intersections_mut();
                if m.len() > 1 {
                    let (i, j) = (self.rng.z(m.len()), self.rng.z(m.len()));
                    m.swap(i, j);
                    m[i].at_left ^= true;
                    m[j].first_segment ^= true;
                }
            }
            for h in &self.held {
                h.id();
            }
        }
        self.it = it;
        self.n += 1;
        cx.bad.is_empty()
    }

    fn event(&mut self, p: (f64, f64), ps: &[Piece], cx: &mut Cx) -> Result<(), String> {
        let evs = self.events.clone();
        if self.done > 0 {
            return Err(format!("point {p:?} yielded after the end"));
        }
        let ev = evs.get(self.n).ok_or_else(|| format!("extra event point {p:?}"))?;
        if !self.near(ev.pos, p) {
            return Err(format!("event #{} is {p:?} instead of {:?}", self.n, ev.pos));
        }
        let mut got: Vec<(usize, bool)> = ps.iter().map(|q| (q.id, q.left)).collect();
        got.sort();
        if got != ev.inc {
            return Err(format!("incidents at {p:?}: {got:?} instead of {:?} (input, starts here)", ev.inc));
        }
        if got.len() > 2 {
            cx.nontrivial = true;
        }
        for (i, q) in ps.iter().enumerate() {
            let s = self.segs[q.id];
            let what = format!("input {} at {p:?}", q.id);
            if s.is_pt() {
                if q.a != q.b || !self.near(q.a, p) || q.left {
                    return Err(format!("{what}: wrong piece for a point"));
                }
                continue;
            }
            if !q.line || q.a >= q.b {
                return Err(format!("{what}: piece {:?}-{:?} is not a segment", q.a, q.b));
            }
            if !self.lies(q.id, q.a) || !self.lies(q.id, q.b) {
                return Err(format!("{what}: piece {:?}-{:?} does not lie on its input", q.a, q.b));
            }
            let (here, there) = if q.left { (q.a, q.b) } else { (q.b, q.a) };
            if !self.near(here, p) {
                return Err(format!("{what}: piece {:?}-{:?} does not meet the point", q.a, q.b));
            }
            if !q.left {
                let prev = self.last.get(&q.id).copied();
                if prev.is_none_or(|l| !self.near(l, there)) {
                    return Err(format!("{what}: ending piece starts at {there:?}, not at the previous event {prev:?}"));
                }
            }
            if q.first && !self.near(q.a, (s.a.0 as f64, s.a.1 as f64)) {
                return Err(format!("{what}: flagged as first but starts at {:?}", q.a));
            }
            if q.overlap {
                let n = ps.get(i + 1).ok_or_else(|| format!("{what}: last piece flagged as overlapping the next"))?;
                if n.left != q.left || !n.line || !self.near(n.a, q.a) || !self.near(n.b, q.b) {
                    return Err(format!("{what}: flagged as overlapping {:?}-{:?} of input {}", n.a, n.b, n.id));
                }
            }
        }
        // Pieces that coincide come one after the other, all but the last flagged.
        for (i, q) in ps.iter().enumerate().filter(|(_, q)| q.line && !q.left) {
            if let Some(j) = ps.iter().skip(i + 1).position(|n| n.line && n.left == q.left && n.a == q.a && n.b == q.b) {
                if !q.overlap {
                    return Err(format!("input {} at {p:?}: not flagged as overlapping input {}", q.id, ps[i + 1 + j].id));
                }
            }
        }
        for q in ps {
            self.last.insert(q.id, p);
        }
        Ok(())
    }

    /// The caller takes whatever it answers, until it panics.
    fn step_wild(&mut self, cx: &mut Cx) -> bool {
        self.n += 1;
        let ids: Option<Option<Vec<usize>>> = super::wild::dare(cx, |cx| match &mut self.it {
            It::New => None,
            It::Cross(it) => {
                cx.api(|| it.next())?;
                if self.rng.one_in(6) {
                    let c = harness(|| it.intersections().first().map(|c| c.crossable.clone()));
                    self.held.extend(c);
                }
                if self.rng.one_in(8) {
                    it.intersections_mut().reverse();
                }
                Some(it.intersections().iter().map(|c| c.crossable.id()).collect())
            }
            It::Inter(it) => {
                let (a, b, _) = cx.api(|| it.next())?;
                let ids = vec![a.id(), b.id()];
                if self.rng.one_in(6) {
                    self.held.push(a);
                }
                Some(ids)
            }
        });
        match ids {
            None => {
                cx.see(1);
                self.done = 2;
            }
            Some(None) => self.done += 1,
            Some(Some(v)) => {
                for i in v {
                    cx.see(i as u64);
                    cx.check("C03", i < self.segs.len(), || format!("reported input {i}, of {}", self.segs.len()));
                }
            }
        }
        for h in &self.held {
            h.id();
        }
        cx.nontrivial |= self.n > 4;
        let most = 20 * self.segs.len() * (self.segs.len() + 1) + 100;
        cx.check("C05", self.n < most, || format!("no end after {most} event points"));
        cx.bad.is_empty() && self.done < 2
    }

    fn step_inter(&mut self, cx: &mut Cx) -> bool {
        let It::Inter(it) = &mut self.it else { return false };
        let next = cx.api(|| it.next());
        let Some((a, b, x)) = next else {
            cx.see(0);
            self.done += 1;
            if self.done == 1 {
                self.missing(cx);
                return true;
            }
            return false;
        };
        let (i, j) = (a.id(), b.id());
        cx.see((i as u64) << 32 | j as u64);
        let f = |l: LineIntersection<S>| -> Vec<f64> {
            match l {
                LineIntersection::SinglePoint { intersection: c, is_proper } => vec![c.x.raw(), c.y.raw(), is_proper as u64 as f64],
                LineIntersection::Collinear { intersection: l } => vec![l.start.x.raw(), l.start.y.raw(), l.end.x.raw(), l.end.y.raw()],
            }
        };
        let got = f(x);
        for v in &got {
            cx.seef(*v);
        }
        let done = self.done;
        cx.check("C02", done == 0, || format!("pair {i}, {j} yielded after the end"));
        let (la, lb) = (self.items[i].l, self.items[j].l);
        let (p, q) = (i.min(j), i.max(j));
        let ok = cx.check("C02", i != j && self.pairs.contains(&(p, q)), || format!("pair {i}, {j} does not intersect"));
        let fresh = self.seen.insert((p, q));
        cx.check("C02", fresh, || format!("pair {i}, {j} yielded twice"));
        if ok {
            let w1 = line_intersection(la, lb).map(f);
            let w2 = line_intersection(lb, la).map(f);
            cx.check("C02", w1.as_ref() == Some(&got) || w2.as_ref() == Some(&got), || {
                format!("pair {i}, {j}: got {got:?}, direct test gives {w1:?}")
            });
        }
        if self.seen.len() > 1 {
            cx.nontrivial = true;
        }
        if !self.plain && self.rng.one_in(4) {
            self.held.push(a);
            for h in &self.held {
                h.id();
            }
        }
        cx.bad.is_empty()
    }

    /// Pairs not yielded by a complete drain.
    fn missing(&mut self, cx: &mut Cx) {
        let miss: Vec<(usize, usize)> = self.pairs.difference(&self.seen).copied().collect();
        cx.checks += 1;
        if miss.is_empty() {
            return;
        }
        let split = self.split_on_insert();
        for (i, j) in miss {
            let m = format!("pair {i}, {j} intersects but was not yielded");
            if split.contains(&(i, j)) {
                cx.known.push(("C02", m));
            } else {
                cx.bad("C02", m);
            }
        }
    }

    /// Pairs excused by the known finding: they first meet where one of them
    /// begins, and that one was cut by another input when it was inserted there,
    /// so that the crossings sweep no longer marks its piece as the first.
    fn split_on_insert(&self) -> BTreeSet<(usize, usize)> {
        let mut unmarked: BTreeSet<usize> = BTreeSet::new();
        let v: Vec<Plain<S>> = self.items.iter().enumerate().map(|(i, t)| Plain(i, t.l)).collect();
        let _ = catch_unwind(AssertUnwindSafe(|| {
            let mut it: CrossingsIter<Plain<S>> = v.into_iter().collect();
            while let Some(p) = it.next() {
                let p = un(p, self.k);
                for c in it.intersections() {
                    let i = c.crossable.0;
                    let s = self.segs[i];
                    if c.at_left && !c.first_segment && !s.is_pt() && ip(p) == Some(s.a) {
                        unmarked.insert(i);
                    }
                }
            }
        }));
        let mut out = BTreeSet::new();
        for &(i, j) in self.pairs.iter() {
            let (s, t) = (&self.segs[i], &self.segs[j]);
            let p = match ix(s, t) {
                Ix::Pt(p) => p,
                Ix::Over(p, _) => p,
                _ => continue,
            };
            let cut = |k: usize| {
                let s = &self.segs[k];
                s.a == p
                    && unmarked.contains(&k)
                    && self.segs.iter().enumerate().any(|(m, o)| {
                        m != k
                            && o.a <= p
                            && match ix(s, o) {
                                Ix::Pt(r) => p < r && r < s.b,
                                Ix::Over(_, e) => p < e && (e < s.b || e < o.b),
                                _ => false,
                            }
                    })
            };
            if cut(i) || cut(j) {
                out.insert((i, j));
            }
        }
        out
    }
}
