//! From a seed to a case: inputs, callers, schedule and faults.
use crate::gen;
use crate::jobs::{flat, scan::SUB};
use crate::rng::{mix, Rng};
use serde_json::{json, Value};

pub const PROPS: [&str; 17] = ["C01", "C02", "C03", "C04", "C05", "B01", "B02", "M01", "M02", "M03", "M04", "M05", "S01", "S02", "S03", "S04", "X01"];

fn scalar(r: &mut Rng, sim: u64, f32ok: bool) -> &'static str {
    let k = r.n(100);
    if k < sim {
        "sim"
    } else if f32ok && k > 90 {
        "f32"
    } else {
        "f64"
    }
}
fn exp(r: &mut Rng, scalar: &str) -> i64 {
    match r.n(4) {
        0 | 1 => 0,
        _ if scalar == "f32" => r.r(-8, 8),
        2 => r.r(-6, 6),
        _ => r.r(-60, 60),
    }
}
/// Which zeros are negative ones: mostly none.
fn zeros(r: &mut Rng) -> u64 {
    if r.one_in(8) {
        1 + r.n(1 << 20)
    } else {
        0
    }
}
/// Far away from the origin, sometimes: the same shape at large coordinates.
fn far(r: &mut Rng, bits: i64) -> (i64, i64) {
    if !r.one_in(8) {
        return (0, 0);
    }
    let d = |r: &mut Rng| if r.one_in(3) { 0 } else { r.pick(&[-1, 1]) * ((1i64 << r.r(6, bits)) + r.i(4)) };
    (d(r), d(r))
}
/// How heavy a job may be.
#[derive(Clone, Copy, PartialEq)]
pub enum Size {
    Light,
    Full,
}

pub fn cross(r: &mut Rng, size: Size, inter: bool) -> Value {
    let general = r.one_in(5);
    let max = if size == Size::Light {
        6
    } else if r.one_in(4000) {
        700
    } else if r.one_in(150) {
        160
    } else if r.one_in(8) {
        50
    } else {
        14
    };
    let mut segs = if general { gen::segs_general(r, max.min(40)) } else { gen::segs_exact(r, max) };
    let d = far(r, if general { 26 } else { 32 });
    for s in segs.iter_mut() {
        *s = [s[0] + d.0, s[1] + d.1, s[2] + d.0, s[3] + d.1];
    }
    let small = !general && segs.iter().flatten().all(|c| c.abs() <= 60);
    let s = scalar(r, if size == Size::Light { 50 } else { 15 }, small);
    let drive = if r.one_in(3) { 0 } else { r.u() >> 12 };
    json!({
        "kind": if inter { "inter" } else { "cross" },
        "segs": segs, "general": general, "scalar": s, "exp": exp(r, s),
        "wrap": r.n(5), "hint": r.n(5), "drive": drive, "nz": zeros(r),
    })
}
/// Makes it one the sweep cannot compute exactly.
fn wild(r: &mut Rng, j: &mut Value) {
    j["wild"] = json!(1 + r.n(1 << 20));
    if j["scalar"] == "f32" {
        j["scalar"] = json!("f64");
    }
    if r.one_in(2) {
        // A crowd on a small grid, all but exact.
        let g = r.pick(&[4, 5, 7]);
        let n = 10 + r.n(50);
        let mut v: Vec<[i64; 4]> = (0..n).map(|_| [0; 4].map(|_| r.i(g))).collect();
        for _ in 0..r.n(4) {
            v.push(r.pick(&v));
        }
        j["segs"] = json!(v);
        j["wild"] = json!(8 * r.n(1 << 17) + 2 + r.n(4));
    } else if r.one_in(2) {
        let most = r.pick(&[5, 15, 25, 60]);
        let n = 2 + r.n(most);
        let g = r.pick(&[3, 4, 5, 7, 20, 1000]);
        j["segs"] = (0..n).map(|_| [0; 4].map(|_| r.i(g))).collect();
    } else if r.one_in(2) {
        // Pieces of few lines: what would overlap but for the rounding.
        let k = 1 + r.i(3);
        let g = r.pick(&[2, 3, 5]);
        let rows: Vec<[i64; 4]> = (0..k).map(|_| [r.i(g), r.i(g), r.i(5) - 2, r.i(5) - 2]).collect();
        let most = r.pick(&[5, 10, 20]);
        let n = 2 + r.n(most);
        let m = r.pick(&[3, 4, 6]);
        j["segs"] = (0..n)
            .map(|_| {
                let [x, y, dx, dy] = r.pick(&rows);
                let (a, b) = (r.i(m), r.i(m));
                let z = if r.one_in(6) { r.pick(&rows) } else { [x, y, dx, dy] };
                [x + a * dx, y + a * dy, z[0] + b * z[2], z[1] + b * z[3]]
            })
            .collect();
    }
}
/// Anything at all made of rings.
fn wild_shapes(r: &mut Rng) -> Value {
    if r.one_in(2) {
        let j = if r.one_in(3) { mono(r, Size::Full, false) } else { bop(r, Size::Light) };
        let v = if j["kind"] == "mono" { json!([j["rings"]]) } else { j["a"].clone() };
        // Some vertices moved.
        let mut v: Vec<Vec<Vec<i64>>> = serde_json::from_value(v).unwrap();
        let k = r.n(4);
        for p in v.iter_mut().flatten().flatten() {
            if r.n(12) < k {
                *p += r.i(5) - 2;
            }
        }
        for q in v.iter_mut().flatten() {
            if q.len() > 1 && !r.one_in(6) {
                let e = [q[0], q[1]];
                q.extend(e);
            }
        }
        return json!(v);
    }
    let g = r.pick(&[2, 3, 5, 9, 40]);
    let v: Vec<Vec<Vec<i64>>> = (0..r.n(3))
        .map(|_| {
            (0..r.n(4))
                .map(|_| {
                    let n = r.logn(12) - r.n(2);
                    let mut q: Vec<i64> = (0..2 * n).map(|_| r.i(g)).collect();
                    if q.len() > 1 && !r.one_in(6) {
                        let e = [q[0], q[1]];
                        q.extend(e);
                    }
                    q
                })
                .collect()
        })
        .collect();
    json!(v)
}
fn wilds(r: &mut Rng) -> Value {
    if r.one_in(2) {
        let i = r.one_in(3);
        let mut j = cross(r, Size::Full, i);
        wild(r, &mut j);
        return j;
    }
    let s = scalar(r, 15, false);
    let a = wild_shapes(r);
    let b = if r.one_in(8) { a.clone() } else { wild_shapes(r) };
    let w = if r.one_in(4) { 8 } else { 1 + r.n(1 << 20) };
    json!({"kind": "wild", "what": r.n(3), "a": a, "b": b, "op": r.n(4), "scalar": s, "exp": exp(r, s), "wild": w})
}
fn multi(r: &mut Rng, x: &[gen::Ring]) -> Value {
    let p = gen::split_polys(r, x);
    let mut p: Vec<Vec<Vec<i64>>> = p.iter().map(|q| q.iter().map(|r| flat(r)).collect()).collect();
    if p.is_empty() && r.one_in(2) {
        p.push(vec![]);
    }
    json!(p)
}
/// A history of operations on the same region.
pub fn bops(r: &mut Rng, size: Size) -> Value {
    let mut v = gen::shapes(r, if size == Size::Light { 2 } else { 5 });
    let d = far(r, 32);
    v.iter_mut().flatten().flatten().for_each(|p| *p = (p.0 + d.0, p.1 + d.1));
    let small = v.iter().flatten().flatten().all(|c| c.0.abs() <= 60 && c.1.abs() <= 60);
    let s = scalar(r, if size == Size::Light { 50 } else { 10 }, small);
    let k = 1 + r.logn(if size == Size::Light { 3 } else { 8 }) as i64;
    let n = v.len() as i64;
    let often = r.n(4);
    let ops: Vec<Vec<i64>> = (0..k)
        .map(|_| {
            let with = if r.one_in(12) { -1 } else { r.i(n) };
            let op = if r.one_in(3) { often } else { r.n(4) };
            vec![op as i64, with, r.i(8)]
        })
        .collect();
    let shapes: Vec<Value> = v.iter().map(|x| multi(r, x)).collect();
    json!({"kind": "bops", "shapes": shapes, "ops": ops, "scalar": s, "exp": exp(r, s), "nz": zeros(r)})
}
pub fn bop(r: &mut Rng, size: Size) -> Value {
    let general = r.one_in(5);
    let (mut a, mut b) = if general {
        gen::operands_general(r)
    } else {
        let g = if size == Size::Light {
            2
        } else if r.one_in(1500) {
            24
        } else if r.one_in(40) {
            10
        } else {
            6
        };
        gen::operands_exact(r, g)
    };
    let d = far(r, if general { 26 } else { 32 });
    a.iter_mut().chain(b.iter_mut()).flatten().for_each(|p| *p = (p.0 + d.0, p.1 + d.1));
    let small = !general && a.iter().chain(&b).flatten().all(|c| c.0.abs() <= 60 && c.1.abs() <= 60);
    let s = scalar(r, if size == Size::Light { 50 } else { 10 }, small);
    json!({
        "kind": "bop", "a": multi(r, &a), "b": multi(r, &b), "op": r.n(4), "general": general, "scalar": s, "exp": exp(r, s),
        "single": r.one_in(2), "method": r.one_in(2), "nz": zeros(r),
    })
}
pub fn mono(r: &mut Rng, size: Size, sweep: bool) -> Value {
    let mut rs = if size == Size::Full && r.one_in(500) { gen::large_polygon(r) } else { gen::polygon(r, if size == Size::Light { 8 } else { 16 }) };
    let d = far(r, 28);
    rs.iter_mut().flatten().for_each(|p| *p = (p.0 + d.0, p.1 + d.1));
    let big = rs.iter().flatten().map(|c| c.0.abs().max(c.1.abs())).max().unwrap_or(0);
    let s = match r.n(10) {
        0 | 1 => "i64",
        2 if big <= 60 => "i16",
        3 if big <= 10_000 => "i32",
        4 if big <= 1_000 => "f32",
        5 | 6 => "sim",
        _ => "f64",
    };
    let mut rep = vec![];
    if r.one_in(6) {
        for _ in 0..1 + r.n(3) {
            let i = r.z(rs.len());
            rep.push([i, r.z(rs[i].len() + 1)]);
        }
    }
    json!({
        "rep": rep,
        "kind": if sweep { "msweep" } else { "mono" },
        "rings": rs.iter().map(|q| flat(q)).collect::<Vec<_>>(), "scalar": s, "exp": exp(r, s), "nz": zeros(r),
    })
}
/// A stop somewhere around `x0..x1`, in sub-units.
fn stop(r: &mut Rng, x0: i64, x1: i64, prev: i64) -> i64 {
    match r.n(15) {
        12 => x1 * SUB - r.logn(SUB as u64) as i64,
        13 => x0 * SUB + r.logn(SUB as u64) as i64,
        14 => r.r(x0, x1) * SUB + r.pick(&[-1, 1]) * r.logn(SUB as u64) as i64,
        0 => prev,
        1 => r.r(x0, x1) * SUB,
        2 => (x0 - 1 - r.i(3)) * SUB,
        3 => (x1 + 1 + r.i(3)) * SUB,
        4 => r.r(x0 * SUB, x1 * SUB),
        5 => r.r(x0 * 4, x1 * 4) * (SUB / 4),
        6 => prev - r.i(SUB),
        7 => x1 * SUB,
        8 => [i32::MAX as i64 * SUB, -(i32::MAX as i64) * SUB][r.z(2)],
        9 => prev + r.logn(SUB as u64) as i64,
        _ => prev + r.i(((x1 - x0) * SUB / 4).max(1)),
    }
}
fn any_piece(r: &mut Rng) -> (Vec<(i64, i64)>, Vec<(i64, i64)>) {
    if r.one_in(600) {
        gen::long_piece(r)
    } else if r.one_in(6) {
        gen::loose(r)
    } else {
        gen::piece(r)
    }
}
/// A piece, and whether it is far from the origin.
fn far_piece(r: &mut Rng, bits: i64) -> (Vec<(i64, i64)>, Vec<(i64, i64)>, bool) {
    let (t, b) = any_piece(r);
    let d = far(r, bits);
    let f = |c: Vec<(i64, i64)>| c.into_iter().map(|p| (p.0 + d.0, p.1 + d.1)).collect();
    (f(t), f(b), d != (0, 0))
}
pub fn scan(r: &mut Rng, _: Size) -> Value {
    let (t, b, moved) = far_piece(r, 14);
    let (x0, x1) = (t[0].0, t[t.len() - 1].0);
    let s = scalar(r, 15, !moved);
    let left = if r.one_in(2) { (x0 - r.i(2)) * SUB } else { stop(r, x0, x1, x0 * SUB) };
    let n = 1 + r.n(14);
    let mut p = left;
    let mut calls = vec![];
    for _ in 0..n {
        p = stop(r, x0, x1, p.clamp((x0 - 4) * SUB, (x1 + 4) * SUB));
        calls.push([r.i(4), p, r.i(5)]);
    }
    json!({"kind": "scan", "top": flat(&t), "bot": flat(&b), "scalar": s, "exp": exp(r, s), "left": left, "calls": calls, "nz": zeros(r)})
}
pub fn raster(r: &mut Rng, _: Size) -> Value {
    let (t, b, moved) = far_piece(r, 10);
    let (x0, x1) = (t[0].0, t[t.len() - 1].0);
    let ys: Vec<i64> = t.iter().chain(&b).map(|p| p.1).collect();
    let (y0, y1) = (*ys.iter().min().unwrap(), *ys.iter().max().unwrap());
    let s = scalar(r, 10, !moved);
    let left = if r.one_in(2) { (x0 - r.i(2)) * SUB } else { stop(r, x0, x1, x0 * SUB) };
    let (lo, hi) = match r.n(5) {
        0 | 1 => (y0 * SUB, y1 * SUB),
        2 => (r.r(y0 - 2, y1) * SUB, (y1 + 1 + r.i(3)) * SUB),
        3 => {
            let a = r.r((y0 - 1) * SUB, y1 * SUB);
            (a, a + 1 + r.i((y1 - y0 + 2) * SUB))
        }
        _ => {
            let a = r.r(y0 - 3, y1 + 1);
            (a * SUB, (a + 1 + r.i(4)) * SUB)
        }
    };
    let hi = hi.max(lo + SUB / 64);
    let height = if r.one_in(20) { 1 + r.n(300) } else { r.logn(40) };
    let n = 1 + r.n(10);
    let main = if r.one_in(2) { 0 } else { r.i(4) };
    let mut p = left;
    let mut strips = vec![];
    for _ in 0..n {
        p = stop(r, x0, x1, p.clamp((x0 - 4) * SUB, (x1 + 4) * SUB));
        strips.push([if r.one_in(3) { r.i(4) } else { main }, p]);
    }
    json!({
        "kind": "raster", "top": flat(&t), "bot": flat(&b), "scalar": s, "exp": exp(r, s), "left": left,
        "lo": lo, "hi": hi, "height": height, "strips": strips, "nz": zeros(r),
    })
}
pub fn pieces(r: &mut Rng, size: Size) -> Value {
    let (t, b, moved) = far_piece(r, 28);
    let s = match r.n(10) {
        0 if !moved => "i16",
        1 if !moved => "i32",
        2 | 3 => "i64",
        4 if !moved => "f32",
        5 | 6 => "sim",
        _ => "f64",
    };
    // Upside down, or mirrored.
    let (t, b) = match r.n(4) {
        0 => (b.iter().map(|p| (p.0, -p.1)).collect(), t.iter().map(|p| (p.0, -p.1)).collect()),
        1 => {
            let m = |c: &[(i64, i64)]| c.iter().rev().map(|p| (-p.0, -p.1)).collect::<Vec<_>>();
            (m(&b), m(&t))
        }
        _ => (t, b),
    };
    let n = if size == Size::Light { 6 } else { 2 + r.n(20) };
    let ops: Vec<[i64; 3]> = (0..n).map(|_| [r.i(10), r.i(1000), r.i(1000)]).collect();
    json!({"kind": "piece", "top": flat(&t), "bot": flat(&b), "scalar": s, "exp": exp(r, s), "ops": ops, "nz": zeros(r)})
}
pub fn splay(r: &mut Rng, size: Size) -> Value {
    let n = if size == Size::Light {
        r.logn(24)
    } else if r.one_in(5000) {
        9000
    } else if r.one_in(40) {
        2000
    } else {
        r.logn(300)
    };
    let span = if n == 9000 { 4000 } else { r.pick(&[3, 8, 8, 20, 60, 200]) };
    // A profile makes some operations more likely than others.
    let w: Vec<u64> = (0..18).map(|i| if i == 13 || i == 14 { r.n(2) } else { 1 + r.logn(8) }).collect();
    let run = r.one_in(4);
    let mut ops = vec![];
    for i in 0..n {
        let mut k = r.n(w.iter().sum());
        let mut op = 0;
        while k >= w[op] {
            k -= w[op];
            op += 1;
        }
        let key = if run && r.n(4) > 0 { i as i64 % span } else { r.i(span) };
        ops.push([op as i64, key, r.i(1000)]);
    }
    let mut j = json!({"kind": "splay", "set": r.one_in(4), "cmp": r.n(4), "ops": ops});
    if r.one_in(5) {
        let far = r.pick(&[2, 10, 60]);
        let n = r.logn(12);
        j["reent"] = json!((0..n).map(|_| [r.logn(far) as i64, r.i(8), r.i(span)]).collect::<Vec<_>>());
    }
    j
}
pub fn deep(r: &mut Rng, sweep: bool, n: i64) -> Value {
    let what = if sweep { 4 } else { r.pick(&[0, 1, 2, 2, 3, 5]) };
    let n = if what == 5 { n.min(20_000) } else { n };
    let part = match what {
        4 => r.logn(3 * n as u64) as i64,
        2 => r.logn(n as u64) as i64,
        _ => r.i(2),
    };
    let boom = if sweep || r.one_in(2) { 0 } else { r.logn(2 * n as u64) };
    json!({"kind": "deep", "what": what, "n": n, "order": r.n(4), "part": part, "boom": boom})
}
/// Something big of one of the families `lo..hi`.
pub fn big(r: &mut Rng, lo: i64, hi: i64) -> Value {
    let family = lo + r.i(hi - lo);
    let most = crate::jobs::big::most(family) as u64;
    let n = if r.one_in(2) { r.logn(most) } else { most / 2 + r.n(most / 2 + 1) };
    json!({"kind": "big", "family": family, "n": n, "how": r.n(256)})
}

pub fn scost(r: &mut Rng) -> Value {
    let n = r.pick(&[20, 300, 2000, 6000]);
    let n = 1 + n / 2 + r.i(n);
    let m = r.i(4 * n);
    json!({"kind": "scost", "n": n, "m": m, "fill": r.i(10), "visit": r.i(12), "only": if r.one_in(2) { 0 } else { 2 + r.n(9) }, "seed": r.u() >> 12})
}
pub fn xcost(r: &mut Rng) -> Value {
    let n = r.pick(&[40, 150, 150, 600, 600, 2500]);
    let n = 1 + n / 2 + r.i(n);
    json!({"kind": "xcost", "n": n, "family": r.i(12), "pairs": r.one_in(3), "seed": r.u() >> 12})
}

pub fn any(r: &mut Rng, size: Size) -> Value {
    match r.n(11) {
        10 => pieces(r, size),
        0 | 1 => cross(r, size, false),
        2 => cross(r, size, true),
        3 => bop(r, size),
        4 => {
            if r.one_in(3) {
                bops(r, size)
            } else {
                bop(r, size)
            }
        }
        5 => mono(r, size, false),
        6 => mono(r, size, true),
        7 => scan(r, size),
        8 => raster(r, size),
        _ => splay(r, size),
    }
}

/// A light job of the same kind as another one.
fn like(r: &mut Rng, j: &Value) -> Value {
    let z = Size::Light;
    match j["kind"].as_str() {
        Some("cross") => cross(r, z, false),
        Some("inter") => cross(r, z, true),
        Some("bop") => bop(r, z),
        Some("bops") => bops(r, z),
        Some("mono") => mono(r, z, false),
        Some("msweep") => mono(r, z, true),
        Some("scan") => scan(r, z),
        Some("raster") => raster(r, z),
        Some("piece") => pieces(r, z),
        Some("splay") => splay(r, z),
        _ => any(r, z),
    }
}

/// Attempts at a job: some interrupted or abandoned, the last one usually not.
fn attempts(r: &mut Rng, p: u64) -> Value {
    let mut v = vec![];
    if r.n(100) < p {
        for _ in 0..1 + r.n(2) {
            v.push(if r.one_in(3) {
                json!({"stop": r.logn(40)})
            } else if r.one_in(6) {
                json!({"drop": r.logn(60)})
            } else {
                json!({"faults": [r.logn(4000)]})
            });
        }
    }
    if v.is_empty() || !r.one_in(8) {
        v.push(json!({}));
    }
    json!(v)
}
fn splay_attempts(r: &mut Rng, p: u64) -> Value {
    let mut v = vec![];
    if r.n(100) < p {
        let k = 1 + r.n(8);
        let far = r.pick(&[30, 200, 2000]);
        let mut f: Vec<u64> = (0..k).map(|_| r.logn(far)).collect();
        f.sort();
        v.push(match r.n(10) {
            0 | 1 => json!({"faults": f, "stop": r.logn(200)}),
            2 => json!({"faults": f, "drop": r.logn(100)}),
            3 => json!({"drop": r.logn(100)}),
            _ => json!({"faults": f}),
        });
    } else if r.one_in(4) {
        v.push(json!({"stop": r.logn(200)}));
    }
    if v.is_empty() || r.one_in(4) {
        v.push(json!({}));
    }
    json!(v)
}
fn attempts_for(r: &mut Rng, job: &Value, p: u64) -> Value {
    match job["kind"].as_str() {
        Some("splay" | "scost") => splay_attempts(r, p),
        Some("deep" | "big") => json!([{}]),
        _ => attempts(r, p),
    }
}

/// The case of a property for a seed.
pub fn make(prop: &str, seed: u64) -> Value {
    let tag = prop.bytes().fold(0u64, |h, b| h * 257 + b as u64);
    let mut r = Rng::new(mix(seed ^ tag << 40));
    // Half of the fault cases come in sweeps: the same base, the fault moving on.
    let sweep = matches!(prop, "C03" | "S02") && seed & 64 != 0;
    let at = seed & 63;
    if sweep {
        r = Rng::new(mix((seed >> 7) ^ tag << 41));
    }
    let (main, p): (Value, u64) = {
        let r = &mut r;
        let f = Size::Full;
        match prop {
            "C01" => (cross(r, f, false), 10),
            "C02" => (cross(r, f, true), 10),
            "C03" => {
                if !sweep && r.one_in(600) {
                    (deep(r, true, 12_000), 0)
                } else {
                    let i = r.one_in(3);
                    let mut j = cross(r, if sweep { Size::Light } else { f }, i);
                    if r.one_in(6) {
                        wild(r, &mut j);
                    }
                    (j, 90)
                }
            }
            "B01" if r.one_in(1500) => (big(r, 9, 13), 0),
            "B01" | "B02" => {
                let j = if r.one_in(6) { bops(r, f) } else { bop(r, f) };
                (j, 8)
            }
            "M01" if r.one_in(1500) => (big(r, 13, 17), 0),
            "M01" => {
                let j = if r.one_in(12) { bops(r, f) } else { mono(r, f, false) };
                (j, 8)
            }
            "M02" => (mono(r, f, true), 20),
            "M03" => (scan(r, f), 15),
            "M04" => (raster(r, f), 10),
            "M05" => (pieces(r, f), 15),
            "S04" => (scost(r), 20),
            "C04" => (xcost(r), 4),
            "C05" if r.one_in(1000) => (big(r, 0, 17), 0),
            "C05" => (wilds(r), 10),
            "S01" => (splay(r, f), 0),
            "S02" => {
                let z = if r.one_in(3) || sweep { Size::Light } else { f };
                (splay(r, z), 100)
            }
            "S03" => {
                if r.one_in(400) {
                    (deep(r, false, 60_000), 0)
                } else {
                    let mut j = splay(r, f);
                if r.one_in(8) {
                    j["lie"] = json!(2 + r.logn(40));
                    j["reent"] = json!([]);
                }
                (j, 50)
                }
            }
            _ => (any(r, f), 40),
        }
    };
    let x = prop == "X01";
    let n = if x {
        1 + r.n(4)
    } else if r.one_in(3) && !sweep {
        2 + r.n(3)
    } else {
        1
    } as usize;
    let slow = main["kind"] == "deep" || main["kind"] == "big";
    let n = if slow { 1 } else { n };
    let mut callers = vec![];
    let a = if sweep {
        // position of the fault, at a stride
        let stride = r.pick(&[1, 1, 2, 5, 13]);
        let off = 1 + r.n(stride);
        if main["kind"] == "splay" {
            json!([{"faults": [off + at * stride]}])
        } else {
            json!([{"faults": [off + at * stride]}, {}])
        }
    } else {
        attempts_for(&mut r, &main, p)
    };
    callers.push(json!({"job": main, "attempts": a}));
    // Calls of the same kind are the ones most likely to share something.
    let twins = n > 1 && r.one_in(if x { 2 } else { 6 });
    let twin = callers[0]["job"].clone();
    for _ in 1..n {
        let j = match (twins, r.n(3)) {
            (false, _) => any(&mut r, Size::Light),
            (true, 0) => twin.clone(),
            _ => like(&mut r, &twin),
        };
        let mut a = attempts_for(&mut r, &j, 30);
        if twins {
            let v = a.as_array_mut().unwrap();
            for _ in 0..r.n(6) {
                v.push(json!({}));
            }
        }
        callers.push(json!({"job": j, "attempts": a}));
    }
    if n > 1 && r.one_in(2) && x {
        r.shuffle(&mut callers);
    }
    let mode = if n == 1 {
        "step"
    } else if twins && r.one_in(2) {
        "nest"
    } else {
        ["step", "thread", "nest"][r.z(3)]
    };
    let len = if n == 1 { 0 } else { r.logn(60) };
    let grain = r.pick(&[4, 30, 300]);
    let sched: Vec<[u64; 2]> = (0..len)
        .map(|_| {
            let w = r.n(n as u64);
            let q = if mode == "step" { 1 + r.n(4) } else { r.logn(grain) };
            [w, q]
        })
        .collect();
    let log = r.one_in(if x { 2 } else { 12 });
    let mut c = json!({
        "property": prop, "mode": mode, "sched": sched, "log": log, "entropy": r.u() >> 12, "callers": callers,
    });
    if x {
        c["compare"] = json!(true);
        c["other"] = json!({"log": if r.one_in(2) { log } else { !log }});
        c["skew"] = json!(r.n(64));
    }
    c
}
