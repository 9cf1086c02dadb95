//! Makes a failing case smaller while it keeps failing.
use serde_json::{json, Value};
use std::time::{Duration, Instant};

pub struct Min<'a> {
    pub fails: &'a mut dyn FnMut(&Value) -> bool,
    pub until: Instant,
    pub tried: u64,
}
/// Path of keys and indices into a case.
type Path = Vec<Value>;
fn get<'v>(v: &'v Value, p: &[Value]) -> &'v Value {
    p.iter().fold(v, |v, k| match k {
        Value::String(s) => &v[s.as_str()],
        k => &v[k.as_u64().unwrap_or(0) as usize],
    })
}
fn put(v: &Value, p: &[Value], new: Value) -> Value {
    let mut out = v.clone();
    let mut at = &mut out;
    for k in p {
        at = match k {
            Value::String(s) => &mut at[s.as_str()],
            k => &mut at[k.as_u64().unwrap_or(0) as usize],
        };
    }
    *at = new;
    out
}
fn path(base: &[Value], more: &[Value]) -> Path {
    base.iter().chain(more).cloned().collect()
}

impl Min<'_> {
    fn late(&self) -> bool {
        Instant::now() > self.until
    }
    fn attempt(&mut self, cur: &mut Value, cand: Value) -> bool {
        if cand == *cur || self.late() {
            return false;
        }
        self.tried += 1;
        let ok = (self.fails)(&cand);
        if ok {
            *cur = cand;
        }
        ok
    }
    fn set(&mut self, cur: &mut Value, p: &[Value], new: Value) -> bool {
        if get(cur, p).is_null() {
            return false;
        }
        let c = put(cur, p, new);
        self.attempt(cur, c)
    }
    /// Removes as many chunks (multiples of `unit`) of an array as possible.
    fn array(&mut self, cur: &mut Value, p: &[Value], unit: usize, keep: (usize, usize)) -> bool {
        let len = |c: &Value| get(c, p).as_array().map_or(0, |a| a.len());
        let mut any = false;
        let mut size = (len(cur) / unit).next_power_of_two().max(1);
        loop {
            let mut i = keep.0;
            while i + size * unit <= len(cur).saturating_sub(keep.1) && !self.late() {
                let mut a = get(cur, p).as_array().cloned().unwrap_or_default();
                a.drain(i..i + size * unit);
                let c = put(cur, p, json!(a));
                if self.attempt(cur, c) {
                    any = true;
                } else {
                    i += size * unit;
                }
            }
            if size == 1 || self.late() {
                return any;
            }
            size /= 2;
        }
    }
    /// Makes numbers below `p` smaller.
    fn numbers(&mut self, cur: &mut Value, p: &[Value], low: i64) -> bool {
        let v = get(cur, p).clone();
        let mut any = false;
        if let Some(n) = v.as_i64() {
            let mut n = n;
            for _ in 0..40 {
                let mut did = false;
                for c in [0, n / 2, n - n.signum()] {
                    let c = c.max(low);
                    if c.abs() < n.abs() && self.set(cur, p, json!(c)) {
                        n = c;
                        did = true;
                        any = true;
                        break;
                    }
                }
                if !did {
                    break;
                }
            }
        } else if let Some(a) = v.as_array() {
            for i in 0..a.len() {
                any |= self.numbers(cur, &path(p, &[json!(i)]), low);
            }
        }
        any
    }
    fn job(&mut self, cur: &mut Value, b: &[Value]) -> bool {
        let mut any = false;
        let q = |k: &str| path(b, &[json!(k)]);
        let kind = get(cur, &q("kind")).as_str().unwrap_or("").to_string();
        for k in ["reent", "lie"] {
            if !get(cur, &q(k)).is_null() {
                any |= self.set(cur, &q(k), Value::Null);
            }
        }
        for k in ["segs", "ops", "calls", "strips", "rep", "reent"] {
            any |= self.array(cur, &q(k), 1, (0, 0));
        }
        for k in ["a", "b"] {
            if kind != "bop" {
                continue;
            }
            any |= self.array(cur, &q(k), 1, (0, 0));
            for i in 0..get(cur, &q(k)).as_array().map_or(0, |a| a.len()) {
                let pi = path(&q(k), &[json!(i)]);
                any |= self.array(cur, &pi, 1, (0, 0));
                for j in 0..get(cur, &pi).as_array().map_or(0, |a| a.len()) {
                    any |= self.array(cur, &path(&pi, &[json!(j)]), 2, (0, 0));
                }
            }
        }
        for i in 0..get(cur, &q("shapes")).as_array().map_or(0, |a| a.len()) {
            let ps = path(&q("shapes"), &[json!(i)]);
            any |= self.array(cur, &ps, 1, (0, 0));
            for j in 0..get(cur, &ps).as_array().map_or(0, |a| a.len()) {
                let pi = path(&ps, &[json!(j)]);
                any |= self.array(cur, &pi, 1, (0, 0));
                for k in 0..get(cur, &pi).as_array().map_or(0, |a| a.len()) {
                    any |= self.array(cur, &path(&pi, &[json!(k)]), 2, (0, 0));
                }
            }
        }
        any |= self.array(cur, &q("rings"), 1, (1, 0));
        for j in 0..get(cur, &q("rings")).as_array().map_or(0, |a| a.len()) {
            any |= self.array(cur, &path(&q("rings"), &[json!(j)]), 2, (0, 0));
        }
        for k in ["top", "bot"] {
            any |= self.array(cur, &q(k), 2, (2, 2));
        }
        for (k, v) in [
            ("exp", json!(0)),
            ("scalar", json!("f64")),
            ("wrap", json!(0)),
            ("hint", json!(0)),
            ("drive", json!(0)),
            ("single", json!(false)),
            ("method", json!(false)),
            ("set", json!(0)),
            ("cmp", json!(0)),
            ("order", json!(0)),
        ] {
            any |= self.set(cur, &q(k), v);
        }
        if matches!(&*kind, "deep" | "raster" | "scost" | "xcost" | "big") {
            for k in ["n", "m", "part", "height", "fill", "visit", "only", "boom", "family", "how", "seed"] {
                any |= self.numbers(cur, &q(k), (k == "height") as i64);
            }
        }
        any
    }
    fn drop_caller(&mut self, cur: &mut Value, i: usize) -> bool {
        let mut c = cur.clone();
        if let Some(a) = c["callers"].as_array_mut() {
            if a.len() < 2 || i >= a.len() {
                return false;
            }
            a.remove(i);
        }
        if let Some(s) = c["sched"].as_array_mut() {
            s.retain(|e| e[0] != json!(i));
            for e in s.iter_mut() {
                if let Some(w) = e[0].as_u64().filter(|w| *w > i as u64) {
                    e[0] = json!(w - 1);
                }
            }
        }
        self.attempt(cur, c)
    }
    /// Shrinks until nothing helps or time is up.
    pub fn shrink(&mut self, cur: &mut Value) {
        loop {
            let mut any = false;
            let mut i = cur["callers"].as_array().map_or(0, |a| a.len());
            while i > 0 {
                i -= 1;
                any |= self.drop_caller(cur, i);
            }
            let s = |k: &str| vec![json!(k)];
            any |= self.set(cur, &s("sched"), json!([]));
            any |= self.set(cur, &s("mode"), json!("step"));
            any |= self.set(cur, &s("log"), json!(false));
            any |= self.set(cur, &s("compare"), json!(false));
            any |= self.set(cur, &s("skew"), json!(0));
            any |= self.array(cur, &s("sched"), 1, (0, 0));
            let n = cur["callers"].as_array().map_or(0, |a| a.len());
            for i in 0..n {
                let at = vec![json!("callers"), json!(i), json!("attempts")];
                any |= self.array(cur, &at, 1, (0, 0));
                for j in 0..get(cur, &at).as_array().map_or(0, |a| a.len()) {
                    let aj = path(&at, &[json!(j)]);
                    if *get(cur, &aj) != json!({}) {
                        any |= self.set(cur, &aj, json!({}));
                    }
                    any |= self.set(cur, &path(&aj, &[json!("stop")]), Value::Null);
                    any |= self.set(cur, &path(&aj, &[json!("drop")]), Value::Null);
                    any |= self.array(cur, &path(&aj, &[json!("faults")]), 1, (0, 0));
                }
                any |= self.job(cur, &[json!("callers"), json!(i), json!("job")]);
                for j in 0..get(cur, &at).as_array().map_or(0, |a| a.len()) {
                    for k in ["faults", "stop", "drop"] {
                        any |= self.numbers(cur, &path(&at, &[json!(j), json!(k)]), 1);
                    }
                }
                for k in ["ops", "segs", "rings", "top", "bot", "a", "b"] {
                    let p = vec![json!("callers"), json!(i), json!("job"), json!(k)];
                    if get(cur, &p).to_string().len() < 1200 {
                        any |= self.numbers(cur, &p, i64::MIN);
                    }
                }
            }
            any |= self.numbers(cur, &s("sched"), 0);
            if !any || self.late() {
                return;
            }
        }
    }
}

/// Shortest list of cases (the last one fixed) that still fails.
pub fn history(all: &[Value], fails: &mut dyn FnMut(&[Value]) -> bool, limit: Duration) -> Vec<Value> {
    let until = Instant::now() + limit;
    let mut cur = all.to_vec();
    let mut size = (cur.len() / 2).max(1);
    loop {
        let mut i = 0;
        while i + size < cur.len() && Instant::now() < until {
            let mut c = cur.clone();
            c.drain(i..i + size);
            if fails(&c) {
                cur = c;
            } else {
                i += size;
            }
        }
        if size == 1 || Instant::now() >= until {
            return cur;
        }
        size /= 2;
    }
}
