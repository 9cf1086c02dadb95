//! Inputs far larger than the rest, on a small stack: what is many times as
//! long, wide, deep or crowded must still come to an end, and be right.
use super::*;
use geo::{Coordinate, Line, LineString, MultiPolygon, Polygon};
use geo_crossings::{bops::OpType, monotone_chains, BooleanOp, CrossingsIter, Intersections, MonotoneSweep};

const STACK: usize = 256 << 10;

/// family: 0-8 lines, 9-12 two regions to combine, 13-16 a polygon to decompose.
pub struct BigJob {
    family: i64,
    n: i64,
    /// Variant: order, operation, orientation.
    how: i64,
}
impl BigJob {
    pub fn parse(v: &Value) -> Self {
        BigJob { family: int(&v["family"]), n: int(&v["n"]), how: int(&v["how"]) }
    }
}
impl Job for BigJob {
    fn start(&self, _: usize) -> Box<dyn Task> {
        Box::new(BigTask(BigJob { ..*self }))
    }
    fn props(&self) -> &'static [&'static str] {
        match self.family {
            0..=8 => &["C05"],
            9..=12 => &["C05", "B01"],
            _ => &["C05", "M01"],
        }
    }
    fn release_prop(&self) -> &'static str {
        "C05"
    }
    fn valid(&self) -> bool {
        (1..=40_000).contains(&self.n)
    }
}
struct BigTask(BigJob);

type P = (i64, i64);
fn at(p: P) -> Coordinate<f64> {
    Coordinate { x: p.0 as f64, y: p.1 as f64 }
}
/// Number `i` of `n`, in one of some orders.
fn nth(how: i64, i: i64, n: i64) -> i64 {
    match how % 4 {
        0 => i,
        1 => n - 1 - i,
        2 if i % 2 == 0 => i / 2,
        2 => n - 1 - i / 2,
        _ if n % 7919 == 0 => i,
        _ => i * 7919 % n,
    }
}
/// Largest number of lines to take of a family: some meet in the square of it.
pub fn most(family: i64) -> i64 {
    match family {
        0 => 600,
        1 => 400,
        2 => 1200,
        3 => 250,
        4 | 8 => 1500,
        5 | 6 => 40_000,
        7 => 250,
        9 => 40,
        10 => 60,
        11 => 500,
        12 => 4000,
        _ => 4000,
    }
}
fn lines(family: i64, n: i64, how: i64) -> Vec<(P, P)> {
    let mut v: Vec<(P, P)> = (0..n)
        .map(|i| {
            let i = nth(how, i, n);
            match family {
                // Through one point.
                0 => ((-1 - i, i - n), (1 + i, n - i)),
                // On top of each other, and crossed below.
                1 => ((0, 0), (8, 8)),
                // On one line, staggered.
                2 => ((i, 0), (i + 10, 0)),
                // On one line, nested.
                3 => ((i, 0), (2 * n - i, 0)),
                // From one point.
                4 => ((0, 0), (n, i)),
                // End to end.
                5 => ((i, i % 2), (i + 1, (i + 1) % 2)),
                // Side by side.
                6 => ((i % 5, i), (1000 + i % 3, i)),
                // A lattice.
                7 if i % 2 == 0 => ((-1, i), (2 * n, i)),
                7 => ((i, -1), (i, 2 * n)),
                // To one point, all from the left.
                _ => ((0, i), (n, 0)),
            }
        })
        .collect();
    if family == 1 {
        v.push(((0, 8), (8, 0)));
    }
    v
}
fn ring(v: Vec<P>, turn: bool) -> LineString<f64> {
    let mut v: Vec<_> = v.into_iter().map(|p| at(if turn { (p.1, p.0) } else { p })).collect();
    v.push(v[0]);
    LineString(v)
}
fn rect(x: i64, y: i64, w: i64, h: i64) -> Vec<P> {
    vec![(x, y), (x + w, y), (x + w, y + h), (x, y + h)]
}
fn single(v: Vec<P>, turn: bool) -> Polygon<f64> {
    Polygon::new(ring(v, turn), vec![])
}
/// A comb of `n` teeth of width 1, `d` apart, with a back along the bottom.
fn comb(n: i64, h: i64, d: i64, x: i64, y: i64) -> Vec<P> {
    let mut v = vec![];
    for i in 0..n {
        let l = x + i * (1 + d);
        if i > 0 {
            v.push((l, y + 1));
        }
        v.extend([(l, y + h), (l + 1, y + h)]);
        if i + 1 < n {
            v.push((l + 1, y + 1));
        }
    }
    v.extend([(x + (n - 1) * (1 + d) + 1, y), (x, y)]);
    v
}
/// The two regions, their areas and that of what they share.
fn regions(family: i64, n: i64, how: i64) -> ([MultiPolygon<f64>; 2], [i64; 3]) {
    let turn = how & 4 != 0;
    match family {
        // Squares in a grid, the others' corners in their middles.
        9 => {
            let g = |d: i64| MultiPolygon((0..n * n).map(|i| nth(how, i, n * n)).map(|i| single(rect(3 * (i % n) + d, 3 * (i / n) + d, 2, 2), turn)).collect());
            ([g(0), g(1)], [4 * n * n, 4 * n * n, n * n])
        }
        // Combs, crosswise.
        10 => {
            let a = comb(n, 3 * n + 4, 2, 0, -2);
            let b: Vec<P> = comb(n, 3 * n + 4, 2, 0, -2).into_iter().map(|p| (p.1, p.0)).collect();
            let cells = |b: bool| {
                let f = move |x: i64, y: i64| {
                    let (x, y) = if b { (y, x) } else { (x, y) };
                    (0..3 * n - 2).contains(&x) && (-2..3 * n + 2).contains(&y) && (y == -2 || x % 3 == 0)
                };
                Box::new(f) as Box<dyn Fn(i64, i64) -> bool>
            };
            let (fa, fb) = (cells(false), cells(true));
            let mut s = [0; 3];
            for x in -3..3 * n + 4 {
                for y in -3..3 * n + 4 {
                    let (p, q) = (fa(x, y), fb(x, y));
                    s[0] += p as i64;
                    s[1] += q as i64;
                    s[2] += (p && q) as i64;
                }
            }
            ([MultiPolygon(vec![single(a, turn)]), MultiPolygon(vec![single(b, turn)])], s)
        }
        // Frames within frames, and a bar across.
        11 => {
            let m = 8 * n;
            let frame = |i: i64| {
                let r = |d: i64| ring(rect(d, d, 2 * (m - d), 2 * (m - d)), turn);
                Polygon::new(r(4 * i), vec![r(4 * i + 2)])
            };
            let area: i64 = (0..n).map(|i| 4 * (m - 4 * i).pow(2) - 4 * (m - 4 * i - 2).pow(2)).sum();
            let a = MultiPolygon((0..n).map(|i| frame(nth(how, i, n))).collect());
            let b = MultiPolygon(vec![single(rect(-1, m - 1, 2 * m + 2, 2), turn)]);
            ([a, b], [area, 2 * (2 * m + 2), n * 2 * 2 * 2])
        }
        // A saw, and its teeth cut off.
        _ => {
            let mut a: Vec<P> = (0..=2 * n).map(|i| (2 * i, 4 * (i % 2))).collect();
            a.extend([(4 * n, -4), (0, -4)]);
            ([MultiPolygon(vec![single(a, turn)]), MultiPolygon(vec![single(rect(-2, 2, 4 * n + 4, 8), turn)])], [4 * n * 4 + 8 * n, 8 * (4 * n + 4), 2 * n])
        }
    }
}
fn polygon(family: i64, n: i64, how: i64) -> (Polygon<f64>, i64) {
    let turn = how & 1 != 0;
    match family {
        13 => {
            let v: Vec<P> = (0..=2 * n).map(|i| (2 * i, 4 * (i % 2) + i % 3)).collect();
            let mut v: Vec<P> = v.into_iter().map(|(x, y)| (x + (x / 2) % 2, y)).collect();
            v.extend([(4 * n + 3, -4), (-3, -4 - how % 3)]);
            let a = area2(&v);
            (single(v, turn), a)
        }
        // Holes, in a row or askew.
        14 => {
            let e = rect(-1, -1, 3 * n + 2, 3 * n + 2);
            let dy = |i: i64| if how & 2 != 0 { 3 * i } else { 1 };
            let holes: Vec<Vec<P>> = (0..n).map(|i| nth(how >> 2, i, n)).map(|i| vec![(3 * i, dy(i)), (3 * i + 1, dy(i) + 2), (3 * i + 2, dy(i) + 1)]).collect();
            let a = area2(&e) - holes.iter().map(|h| area2(h)).sum::<i64>();
            (Polygon::new(ring(e, turn), holes.into_iter().map(|h| ring(h, turn)).collect()), a)
        }
        // A spiral.
        15 => {
            let (mut out, mut back) = (vec![], vec![]);
            for i in 0..n.max(2) {
                let (r, s) = (4 * (i / 4 + 1), 4 * (i / 4 + 1) + 2);
                let c = [(1, 0), (0, 1), (-1, 0), (0, -1)][(i % 4) as usize];
                out.push((c.0 * s, c.1 * s + (i % 4 == 0) as i64));
                back.push((c.0 * r, c.1 * r));
            }
            back.reverse();
            // Inside and outside a quarter turn apart would cross.
            out.extend(back);
            let a = area2(&out);
            (single(out, turn), a)
        }
        // Both sides toothed.
        _ => {
            let mut v: Vec<P> = (0..=2 * n).map(|i| (10 + 3 * (i % 2) + i % 5, 3 * i)).collect();
            v.extend((0..=2 * n).rev().map(|i| (-10 - 3 * (i % 2) - i % 7, 3 * i + i % 2)));
            let a = area2(&v);
            (single(v, turn), a)
        }
    }
}
/// Twice the area within.
fn area2(v: &[P]) -> i64 {
    let n = v.len();
    (0..n).map(|i| v[i].0 * v[(i + 1) % n].1 - v[i].1 * v[(i + 1) % n].0).sum::<i64>().abs()
}
fn shoelace(l: &LineString<f64>) -> f64 {
    l.lines().map(|l| l.start.x * l.end.y - l.start.y * l.end.x).sum::<f64>().abs()
}
fn area(m: &MultiPolygon<f64>) -> f64 {
    m.0.iter().map(|p| shoelace(p.exterior()) - p.interiors().iter().map(shoelace).sum::<f64>()).sum::<f64>() / 2.
}
type Bad = Option<(&'static str, String)>;
fn run(t: &BigJob, who: usize) -> (u64, Bad) {
    let (n, how) = (t.n.min(most(t.family)), t.how);
    match t.family {
        0..=8 => {
            let v: Vec<Line<f64>> = lines(t.family, n, how >> 1).into_iter().map(|(a, b)| if how & 8 == 0 { Line::new(at(a), at(b)) } else { Line::new(at(b), at(a)) }).collect();
            let most = 20 * v.len() * (v.len() + 1) + 100;
            let k = seam::api(who, || {
                if how & 1 == 0 {
                    v.into_iter().collect::<CrossingsIter<_>>().take(most + 1).count()
                } else {
                    v.into_iter().collect::<Intersections<_>>().take(most + 1).count()
                }
            });
            (k as u64, (k > most).then(|| ("C05", format!("no end after {most} items"))))
        }
        9..=12 => {
            let ([a, b], s) = regions(t.family, n, how >> 2);
            let ops = [(OpType::Intersection, s[2]), (OpType::Union, s[0] + s[1] - s[2]), (OpType::Difference, s[0] - s[2]), (OpType::Xor, s[0] + s[1] - 2 * s[2])];
            let (op, want) = ops[(how & 3) as usize];
            let r = seam::api(who, || a.boolean_op(&b, op));
            let got = area(&r);
            let k = r.0.len() as u64;
            seam::api(who, || drop(r));
            (k, (got != want as f64).then(|| ("B01", format!("{op:?} of area {got}, expected {want}"))))
        }
        _ => {
            let (p, want) = polygon(t.family, n, how >> 1);
            if how & 1 == 0 {
                let most = 40 * n as usize + 100;
                let k = seam::api(who, || {
                    let mut it = Box::pin(MonotoneSweep::from_polygon(&p));
                    let mut k = 0;
                    while k <= most && it.as_mut().process_event().is_some() {
                        k += 1;
                    }
                    k
                });
                return (k as u64, (k > most).then(|| ("C05", format!("no end after {most} vertices"))));
            }
            let r = seam::api(who, || monotone_chains(&p));
            let got: f64 = r
                .iter()
                .map(|m| {
                    let (l, r) = (m.top(), m.bot());
                    let v: Vec<_> = l.0.iter().chain(r.0.iter().rev()).copied().collect();
                    let k = v.len();
                    (0..k).map(|i| v[i].x * v[(i + 1) % k].y - v[i].y * v[(i + 1) % k].x).sum::<f64>().abs()
                })
                .sum();
            let k = r.len() as u64;
            seam::api(who, || drop(r));
            (k, (got != want as f64).then(|| ("M01", format!("pieces of area {}, expected {}", got / 2., want as f64 / 2.))))
        }
    }
}
impl Task for BigTask {
    fn step(&mut self, cx: &mut Cx) -> bool {
        let who = cx.who;
        let t = BigJob { ..self.0 };
        let h = std::thread::Builder::new().stack_size(STACK).spawn(move || run(&t, who)).unwrap();
        match h.join() {
            Ok((k, bad)) => {
                cx.see(k);
                cx.nontrivial |= k > 4;
                cx.checks += 1;
                if let Some((p, e)) = bad {
                    cx.bad(p, e);
                }
            }
            // A panic is an answer too where some lines meet in points that
            // cannot be represented.
            Err(p) if self.0.family <= 8 => cx.see(message(&*p).len() as u64),
            Err(p) => cx.bad("C05", format!("panicked: {}", message(&*p))),
        }
        false
    }
}
