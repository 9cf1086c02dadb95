//! Splay map and set against an ordered map.
use super::*;
use crate::seam::{harness, seam, Interrupt, Kind, Stuck};
use crate::token::Tok;
use geo_crossings::{SplaySet, SplayTree};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::collections::{BTreeMap, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

/// Rank of a key under the comparator of the job.
fn rank(cmp: i64, k: i64) -> i64 {
    match cmp {
        1 => -k,
        2 => k.div_euclid(3),
        3 => (k ^ 0x55) & 0xff,
        _ => k,
    }
}
fn compare(cmp: i64, a: &Tok, b: &Tok) -> Ordering {
    a.check("compare");
    b.check("compare");
    seam(Kind::Cmp);
    let o = rank(cmp, a.id).cmp(&rank(cmp, b.id));
    if cmp == 3 {
        seam(Kind::Cmp);
    }
    o
}
/// A comparator that looks things up in the very map it serves, or that
/// lies, at given calls of it.
struct Reent {
    cmp: i64,
    who: usize,
    /// Calls to wait for, operation, key.
    plan: RefCell<VecDeque<Vec<i64>>>,
    wait: Cell<i64>,
    /// Calls from one lie to the next.
    lie: i64,
    calls: Cell<i64>,
    on: Cell<Option<(*const Sut, *const Model)>>,
    depth: Cell<u32>,
    wrong: RefCell<Option<String>>,
}
type Model = BTreeMap<i64, (i64, i64)>;
impl Reent {
    fn compare(&self, a: &Tok, b: &Tok) -> Ordering {
        if self.wait.get() != i64::MAX {
            self.called();
        }
        let o = compare(self.cmp, a, b);
        if self.lie == 0 {
            return o;
        }
        let n = self.calls.get() + 1;
        self.calls.set(n);
        if n % self.lie == 0 {
            seam::count(Kind::Lie);
        }
        match (n % self.lie, n / self.lie % 3) {
            (0, 0) => o.reverse(),
            (0, 1) => Ordering::Equal,
            (0, _) => Ordering::Less,
            _ => o,
        }
    }
    fn next_wait(&self) {
        self.wait.set(self.plan.borrow().front().map_or(i64::MAX, |p| p[0].max(1)));
    }
    fn called(&self) {
        let Some((sut, model)) = self.on.get() else { return };
        if self.depth.get() >= 3 {
            return;
        }
        self.wait.set(self.wait.get() - 1);
        if self.wait.get() > 0 {
            return;
        }
        let p = harness(|| self.plan.borrow_mut().pop_front());
        self.next_wait();
        let Some(p) = p else { return };
        struct Deep<'a>(&'a Cell<u32>);
        impl Drop for Deep<'_> {
            fn drop(&mut self) {
                self.0.set(self.0.get() - 1);
            }
        }
        self.depth.set(self.depth.get() + 1);
        let _d = Deep(&self.depth);
        seam::count(Kind::Reenter);
        let (sut, model) = unsafe { (&*sut, &*model) };
        let (op, k) = (p[1].rem_euclid(8), p[2]);
        let r = rank(self.cmp, k);
        let key = harness(|| Tok::new(self.who as u32, k));
        let none = (-1, -1);
        let (got, want): ((i64, i64), (i64, i64)) = match (sut, op) {
            (Sut::Map(m), 0) => (m.get(&key).map_or(none, |v| (0, v.id)), model.get(&r).map_or(none, |e| (0, e.1))),
            (Sut::Map(m), 1) => (m.find_key(&key).map_or(none, |v| (v.id, 0)), model.get(&r).map_or(none, |e| (e.0, 0))),
            (Sut::Map(m), 2) => ((m.contains(&key) as i64, 0), (model.contains_key(&r) as i64, 0)),
            (Sut::Map(m), 3) => (m.next(&key).map_or(none, |e| (e.0.id, e.1.id)), model.range(r + 1..).next().map_or(none, |e| *e.1)),
            (Sut::Map(m), 4) => (m.prev(&key).map_or(none, |e| (e.0.id, e.1.id)), model.range(..r).next_back().map_or(none, |e| *e.1)),
            (Sut::Map(m), 5) => (m.min().map_or(none, |k| (k.id, 0)), model.values().next().map_or(none, |e| (e.0, 0))),
            (Sut::Map(m), 6) => (m.max().map_or(none, |k| (k.id, 0)), model.values().next_back().map_or(none, |e| (e.0, 0))),
            (Sut::Map(m), _) => ((m.len() as i64, 0), (model.len() as i64, 0)),
            (Sut::Set(s), 0 | 1) => (s.find(&key).map_or(none, |v| (v.id, 0)), model.get(&r).map_or(none, |e| (e.0, 0))),
            (Sut::Set(s), 2) => ((s.contains(&key) as i64, 0), (model.contains_key(&r) as i64, 0)),
            (Sut::Set(s), 3) => (s.next(&key).map_or(none, |e| (e.id, 0)), model.range(r + 1..).next().map_or(none, |e| (e.1 .0, 0))),
            (Sut::Set(s), 4) => (s.prev(&key).map_or(none, |e| (e.id, 0)), model.range(..r).next_back().map_or(none, |e| (e.1 .0, 0))),
            (Sut::Set(s), 5) => (s.min().map_or(none, |k| (k.id, 0)), model.values().next().map_or(none, |e| (e.0, 0))),
            (Sut::Set(s), 6) => (s.max().map_or(none, |k| (k.id, 0)), model.values().next_back().map_or(none, |e| (e.0, 0))),
            (Sut::Set(s), _) => ((s.len() as i64, 0), (model.len() as i64, 0)),
            (Sut::Gone, _) => (none, none),
        };
        harness(|| {
            if got != want {
                let what = ["get", "find", "contains", "next", "prev", "min", "max", "len"][op as usize];
                self.wrong.borrow_mut().get_or_insert_with(|| format!("{what}({k}), called from the comparator of a lookup, gives {got:?} instead of {want:?}"));
            }
            drop(key);
            drop(p);
        });
    }
}
type Cmp = Box<dyn Fn(&Tok, &Tok) -> Ordering>;
enum Sut {
    Map(SplayTree<Tok, Tok, Cmp>),
    Set(SplaySet<Tok, Cmp>),
    Gone,
}

pub struct SplayJob {
    set: bool,
    cmp: i64,
    ops: Rc<Vec<Vec<i64>>>,
    reent: Vec<Vec<i64>>,
    lie: i64,
}
impl SplayJob {
    pub fn parse(v: &Value) -> Self {
        SplayJob {
            set: v["set"].as_bool().unwrap_or(false),
            cmp: int(&v["cmp"]),
            ops: Rc::new(rows(&v["ops"]).into_iter().filter(|o| o.len() == 3).collect()),
            reent: rows(&v["reent"]).into_iter().filter(|o| o.len() == 3).collect(),
            lie: int(&v["lie"]).max(0),
        }
    }
}
impl Job for SplayJob {
    fn start(&self, who: usize) -> Box<dyn Task> {
        let reent = Rc::new(Reent {
            cmp: self.cmp,
            who,
            plan: RefCell::new(self.reent.iter().cloned().collect()),
            wait: Cell::new(0),
            lie: self.lie,
            calls: Cell::new(0),
            on: Cell::new(None),
            depth: Cell::new(0),
            wrong: RefCell::new(None),
        });
        reent.next_wait();
        let re = reent.clone();
        let cmp: Cmp = Box::new(move |a, b| re.compare(a, b));
        let sut = seam::api(who, || if self.set { Sut::Set(SplaySet::new(cmp)) } else { Sut::Map(SplayTree::new(cmp)) });
        Box::new(SplayTask {
            held: vec![],
            sut: Box::new(sut),
            cmp: self.cmp,
            reent,
            ops: self.ops.clone(),
            n: 0,
            model: BTreeMap::new(),
            fresh: 0,
            who,
        })
    }
    fn props(&self) -> &'static [&'static str] {
        &["S01"]
    }
    fn release_prop(&self) -> &'static str {
        "S03"
    }
    fn sticky(&self) -> bool {
        true
    }
}
struct SplayTask {
    /// References handed out and not yet invalidated, with what they should show.
    held: Vec<(*const Tok, i64)>,
    sut: Box<Sut>,
    cmp: i64,
    reent: Rc<Reent>,
    ops: Rc<Vec<Vec<i64>>>,
    n: usize,
    /// Rank to (key, value) identities.
    model: Model,
    fresh: i64,
    who: usize,
}

pub const OPS: [&str; 18] = [
    "insert", "insert", "remove", "get", "get_mut", "find", "contains", "next", "prev", "min", "max", "index", "extend", "clear", "iterate", "debug", "index_mut", "extend",
];

impl SplayTask {
    fn key(&self, k: i64) -> Tok {
        Tok::new(self.who as u32, k)
    }
    fn val(&mut self) -> Tok {
        self.fresh += 1;
        Tok::new(self.who as u32, 1_000_000 + self.fresh)
    }
    /// References seen through shared calls must stay good until a change.
    fn hold(&mut self, r: Option<(&Tok, i64)>) {
        if let Some((t, id)) = r {
            self.held.push((t as *const Tok, id));
            if self.held.len() > 12 {
                self.held.remove(0);
            }
        }
    }
    fn held_ok(&self) -> Result<(), String> {
        for (p, id) in &self.held {
            let t = unsafe { &**p };
            t.check("use of a reference handed out earlier");
            if t.id != *id {
                return Err(format!("a reference to {id} handed out earlier now shows {}", t.id));
            }
        }
        Ok(())
    }

    /// Compares everything reachable through shared calls with the model.
    fn audit(&mut self, who: usize) -> Result<(), String> {
        let n = self.model.len();
        let len = seam::api(who, || match &*self.sut {
            Sut::Map(m) => (m.len(), m.is_empty()),
            Sut::Set(s) => (s.len(), s.is_empty()),
            Sut::Gone => (0, true),
        });
        if len != (n, n == 0) {
            return Err(format!("len, is_empty are {len:?} with {n} entries"));
        }
        let (min, max) = seam::api(who, || match &*self.sut {
            Sut::Map(m) => (m.min().map(|k| k.id), m.max().map(|k| k.id)),
            Sut::Set(s) => (s.min().map(|k| k.id), s.max().map(|k| k.id)),
            Sut::Gone => (None, None),
        });
        let ends = (self.model.values().next().map(|e| e.0), self.model.values().next_back().map(|e| e.0));
        if (min, max) != ends {
            return Err(format!("min, max are {:?} instead of {ends:?}", (min, max)));
        }
        let es: Vec<(i64, i64)> = self.model.values().copied().collect();
        for (i, (k, v)) in es.iter().enumerate() {
            let q = self.key(*k);
            let got = seam::api(who, || match &*self.sut {
                Sut::Map(m) => m.get(&q).map(|t| t.id),
                Sut::Set(s) => s.find(&q).map(|_| *v),
                Sut::Gone => None,
            });
            if got != Some(*v) {
                return Err(format!("key {k} has value {got:?} instead of {v}"));
            }
            let nx = seam::api(who, || match &*self.sut {
                Sut::Map(m) => m.next(&q).map(|e| (e.0.id, e.1.id)),
                Sut::Set(s) => s.next(&q).map(|e| (e.id, es.get(i + 1).map_or(0, |e| e.1))),
                Sut::Gone => None,
            });
            if nx != es.get(i + 1).copied() {
                return Err(format!("next of {k} is {nx:?} instead of {:?}", es.get(i + 1)));
            }
        }
        Ok(())
    }

    /// One operation. `Err` is a wrong answer.
    fn op(&mut self, cx: &mut Cx, op: &[i64]) -> Result<(), String> {
        let (name, k, x) = (OPS[op[0].rem_euclid(OPS.len() as i64) as usize], op[1], op[2]);
        let who = cx.who;
        let r = rank(self.cmp, k);
        let sut = unsafe { &mut *(&mut *self.sut as *mut Sut) };
        // The comparator can see the map in these calls only.
        struct Off<'a>(&'a Reent);
        impl Drop for Off<'_> {
            fn drop(&mut self) {
                self.0.on.set(None);
            }
        }
        let reent = self.reent.clone();
        let _off = Off(&reent);
        if matches!(name, "get" | "find" | "contains" | "index" | "next" | "prev") {
            reent.on.set(Some((sut as *const Sut, &self.model as *const Model)));
        }
        let same = |what: &str, got: Option<i64>, want: Option<i64>| {
            if got == want {
                Ok(())
            } else {
                Err(format!("{what}({k}) gives {got:?} instead of {want:?}"))
            }
        };
        match name {
            "insert" => {
                self.held.clear();
                let (key, val) = (self.key(k), self.val());
                let vid = val.id;
                let old = self.model.get(&r).copied();
                let got = match sut {
                    Sut::Map(m) => seam::api(who, || m.insert(key, val)).map(|t| {
                        t.check("use of the replaced value");
                        t.id
                    }),
                    Sut::Set(s) => {
                        drop(val);
                        let fresh = seam::api(who, || s.insert(key));
                        if fresh {
                            None
                        } else {
                            Some(old.map_or(-1, |o| o.1))
                        }
                    }
                    Sut::Gone => None,
                };
                let e = self.model.entry(r).or_insert((k, vid));
                if matches!(sut, Sut::Map(_)) {
                    e.1 = vid;
                }
                cx.see(got.unwrap_or(-1) as u64);
                same("insert", got, old.map(|o| o.1))
            }
            "remove" => {
                self.held.clear();
                let key = self.key(k);
                let got = match sut {
                    Sut::Map(m) => seam::api(who, || m.remove(&key)).map(|t| {
                        t.check("use of the removed value");
                        t.id
                    }),
                    Sut::Set(s) => {
                        let had = seam::api(who, || s.remove(&key));
                        if had {
                            Some(self.model.get(&r).map_or(-1, |o| o.1))
                        } else {
                            None
                        }
                    }
                    Sut::Gone => None,
                };
                cx.see(got.unwrap_or(-1) as u64);
                same("remove", got, self.model.remove(&r).map(|o| o.1))
            }
            "get" | "find" | "contains" | "index" => {
                let key = self.key(k);
                let want = self.model.get(&r).copied();
                let res: Option<(*const Tok, i64)> = match (&*sut, name) {
                    (Sut::Map(m), "get") => seam::api(who, || m.get(&key)).map(|t| (t as *const Tok, t.id)),
                    (Sut::Map(m), "index") if want.is_some() => {
                        let t = seam::api(who, || &m[&key]);
                        Some((t as *const Tok, t.id))
                    }
                    (Sut::Map(m), "find") => seam::api(who, || m.find_key(&key)).map(|t| (t as *const Tok, t.id)),
                    (Sut::Set(s), "get" | "find") => seam::api(who, || s.find(&key)).map(|t| (t as *const Tok, t.id)),
                    (Sut::Map(m), _) => {
                        let c = seam::api(who, || m.contains(&key));
                        return if c == want.is_some() { Ok(()) } else { Err(format!("contains({k}) gives {c}")) };
                    }
                    (Sut::Set(s), _) => {
                        let c = seam::api(who, || s.contains(&key));
                        return if c == want.is_some() { Ok(()) } else { Err(format!("contains({k}) gives {c}")) };
                    }
                    (Sut::Gone, _) => None,
                };
                let by_value = matches!(sut, Sut::Map(_)) && name != "find";
                let w = want.map(|w| if by_value { w.1 } else { w.0 });
                cx.see(res.map_or(-1, |r| r.1) as u64);
                same(name, res.map(|r| r.1), w)?;
                if x % 3 == 0 {
                    self.hold(res.map(|(p, id)| (unsafe { &*p }, id)));
                }
                self.held_ok()
            }
            "get_mut" | "index_mut" => {
                self.held.clear();
                let key = self.key(k);
                let want = self.model.get(&r).map(|o| o.1);
                let Sut::Map(m) = sut else { return Ok(()) };
                let t = if name == "index_mut" && want.is_some() {
                    Some(seam::api(who, || &mut m[&key]))
                } else {
                    seam::api(who, || m.get_mut(&key))
                };
                let got = t.as_ref().map(|t| t.id);
                if let Some(t) = t {
                    t.check("use of a mutable reference");
                    if x % 2 == 0 {
                        self.fresh += 1;
                        t.id = 1_000_000 + self.fresh;
                        if let Some(e) = self.model.get_mut(&r) {
                            e.1 = t.id;
                        }
                    }
                }
                cx.see(got.unwrap_or(-1) as u64);
                same(name, got, want)
            }
            "next" | "prev" => {
                let key = self.key(k);
                let want = if name == "next" {
                    self.model.range(r + 1..).next().map(|e| *e.1)
                } else {
                    self.model.range(..r).next_back().map(|e| *e.1)
                };
                let got: Option<(*const Tok, *const Tok)> = match &*sut {
                    Sut::Map(m) => seam::api(who, || if name == "next" { m.next(&key) } else { m.prev(&key) }).map(|e| (e.0 as *const Tok, e.1 as *const Tok)),
                    Sut::Set(s) => seam::api(who, || if name == "next" { s.next(&key) } else { s.prev(&key) }).map(|e| (e as *const Tok, e as *const Tok)),
                    Sut::Gone => None,
                };
                let ids = got.map(|(a, b)| unsafe { ((*a).id, (*b).id) });
                cx.see(ids.map_or(-1, |r| r.0) as u64);
                same(name, ids.map(|i| i.0), want.map(|w| w.0))?;
                if matches!(sut, Sut::Map(_)) {
                    same(name, ids.map(|i| i.1), want.map(|w| w.1))?;
                }
                if x % 3 == 0 {
                    self.hold(got.map(|(a, _)| unsafe { (&*a, (*a).id) }));
                }
                self.held_ok()
            }
            "min" | "max" => {
                let got: Option<*const Tok> = match (&*sut, name) {
                    (Sut::Map(m), "min") => seam::api(who, || m.min()).map(|t| t as *const Tok),
                    (Sut::Map(m), _) => seam::api(who, || m.max()).map(|t| t as *const Tok),
                    (Sut::Set(s), "min") => seam::api(who, || s.min()).map(|t| t as *const Tok),
                    (Sut::Set(s), _) => seam::api(who, || s.max()).map(|t| t as *const Tok),
                    (Sut::Gone, _) => None,
                };
                let want = if name == "min" { self.model.values().next() } else { self.model.values().next_back() }.map(|e| e.0);
                let id = got.map(|p| unsafe { (*p).id });
                cx.see(id.unwrap_or(-1) as u64);
                same(name, id, want)?;
                self.hold(got.map(|p| unsafe { (&*p, (*p).id) }));
                self.held_ok()
            }
            "extend" => {
                self.held.clear();
                let n = (x.rem_euclid(7)) as usize;
                let es: Vec<(Tok, Tok)> = (0..n).map(|i| (self.key(k + (i as i64 * 5) % 7), self.val())).collect();
                let ids: Vec<(i64, i64)> = es.iter().map(|e| (e.0.id, e.1.id)).collect();
                let set = matches!(sut, Sut::Set(_));
                match sut {
                    Sut::Map(m) => seam::api(who, || {
                        m.extend(es.into_iter().inspect(|_| seam(Kind::Input)))
                    }),
                    Sut::Set(s) => seam::api(who, || s.extend(es.into_iter().map(|e| e.0).inspect(|_| seam(Kind::Input)))),
                    Sut::Gone => {}
                }
                for (k, v) in ids {
                    let e = self.model.entry(rank(self.cmp, k)).or_insert((k, v));
                    if !set {
                        e.1 = v;
                    }
                }
                Ok(())
            }
            "clear" => {
                self.held.clear();
                match sut {
                    Sut::Map(m) => seam::api(who, || m.clear()),
                    Sut::Set(s) => seam::api(who, || s.clear()),
                    Sut::Gone => {}
                }
                self.model.clear();
                take_fault(|| self.audit(who))
            }
            "debug" => {
                if let Sut::Map(m) = &*sut {
                    if self.model.len() <= 64 {
                        let s = seam::api(who, || format!("{m:?}"));
                        cx.see(s.is_empty() as u64);
                    }
                }
                self.held_ok()
            }
            // iterate away, from both ends, perhaps not to the end
            _ => {
                self.held.clear();
                let re = self.reent.clone();
                let cmp: Cmp = Box::new(move |a, b| re.compare(a, b));
                let set = matches!(sut, Sut::Set(_));
                let fresh = seam::api(who, || if set { Sut::Set(SplaySet::new(cmp)) } else { Sut::Map(SplayTree::new(cmp)) });
                let old = std::mem::replace(sut, fresh);
                let mut left: std::collections::VecDeque<(i64, i64)> = std::mem::take(&mut self.model).into_values().collect();
                let mut r = crate::rng::Rng::new(x as u64);
                let stop = if x % 3 == 0 { usize::MAX } else { r.z(left.len() + 1) };
                let style = x % 4;
                let back = |r: &mut crate::rng::Rng| match style {
                    0 => false,
                    1 => true,
                    _ => r.one_in(2),
                };
                let mut done = 0;
                macro_rules! drain {
                    ($it:expr, $f:expr) => {{
                        let mut it = seam::api(who, || $it);
                        while done < stop {
                            done += 1;
                            let h = seam::api(who, || it.size_hint());
                            if h != (left.len(), Some(left.len())) {
                                return Err(format!("remaining count {h:?} with {} left", left.len()));
                            }
                            let b = back(&mut r);
                            let got = if b { seam::api(who, || it.next_back()) } else { seam::api(who, || it.next()) };
                            let want = if b { left.pop_back() } else { left.pop_front() };
                            let (g, w) = $f(got, want);
                            cx.see(g.map_or(-1, |g: (i64, i64)| g.0) as u64);
                            if g != w {
                                return Err(format!("iteration gives {g:?} instead of {w:?}"));
                            }
                            if w.is_none() {
                                break;
                            }
                        }
                        seam::api(who, || drop(it));
                    }};
                }
                match old {
                    Sut::Map(m) => drain!(m.into_iter(), |g: Option<(Tok, Tok)>, w: Option<(i64, i64)>| (g.map(|g| (g.0.id, g.1.id)), w)),
                    Sut::Set(s) => drain!(s.into_iter(), |g: Option<Tok>, w: Option<(i64, i64)>| (g.map(|g| (g.id, 0)), w.map(|w| (w.0, 0)))),
                    Sut::Gone => {}
                }
                Ok(())
            }
        }
    }

    /// An operation whose comparator lied: any answer may be wrong, but nothing
    /// is lost, and references handed out stay good.
    fn lied(&mut self, cx: &mut Cx, r: std::thread::Result<Result<(), String>>) -> bool {
        let name = OPS[self.ops[self.n - 1][0].rem_euclid(OPS.len() as i64) as usize];
        cx.nontrivial |= self.model.len() > 3;
        if let Err(p) = r {
            if p.is::<Stuck>() {
                std::panic::resume_unwind(p);
            }
            if p.is::<Interrupt>() {
                cx.absorbed += 1;
            } else if !message(&*p).contains("key not present") {
                cx.bad("S03", format!("{name} panicked under an inconsistent comparator: {}", message(&*p)));
            }
        }
        let h = self.held_ok();
        cx.verdict("S03", h);
        cx.bad.is_empty()
    }

    /// After an interrupted clear: some of the entries.
    fn rest(&mut self, who: usize, before: &BTreeMap<i64, (i64, i64)>) -> Result<(), String> {
        self.model.clear();
        for (r, e) in before {
            let q = self.key(e.0);
            let there = seam::api(who, || match &*self.sut {
                Sut::Map(m) => m.contains(&q),
                Sut::Set(s) => s.contains(&q),
                Sut::Gone => false,
            });
            if there {
                self.model.insert(*r, *e);
            }
        }
        self.audit(who)
    }

    /// After an interrupted operation: whatever it was about may have happened or
    /// not; everything else must be as before.
    fn settle(&mut self, who: usize, op: &[i64], before: &BTreeMap<i64, (i64, i64)>) -> Result<(), String> {
        let name = OPS[op[0].rem_euclid(OPS.len() as i64) as usize];
        let first_new = before.values().map(|e| e.1).max().unwrap_or(0);
        self.model = before.clone();
        let cand: Vec<i64> = match name {
            "insert" | "remove" => vec![op[1]],
            "extend" => (0..op[2].rem_euclid(7)).map(|i| op[1] + (i * 5) % 7).collect(),
            // an interrupted iteration has consumed the container
            "iterate" => {
                return Ok(());
            }
            _ => vec![],
        };
        let set = matches!(*self.sut, Sut::Set(_));
        for k in cand {
            let r = rank(self.cmp, k);
            let q = self.key(k);
            let now: Option<(i64, i64)> = seam::api(who, || match &*self.sut {
                Sut::Map(m) => m.find_key(&q).map(|k| k.id).and_then(|k| m.get(&q).map(|v| (k, v.id))),
                Sut::Set(s) => s.find(&q).map(|k| (k.id, 0)),
                Sut::Gone => None,
            });
            let was = before.get(&r).copied();
            match (was, now) {
                (Some(w), Some(n)) => {
                    let value = set || n.1 == w.1 || (name != "remove" && n.1 > first_new);
                    if n.0 != w.0 || !value {
                        return Err(format!("after an interrupted {name}({k}) the entry is {n:?}, was {w:?}"));
                    }
                    self.model.insert(r, if set { w } else { n });
                }
                (None, Some(n)) => {
                    if name == "remove" {
                        return Err(format!("an interrupted remove({k}) made an entry {n:?}"));
                    }
                    self.model.insert(r, n);
                }
                (Some(w), None) => {
                    if name != "remove" {
                        return Err(format!("an interrupted {name}({k}) lost the entry {w:?}"));
                    }
                    self.model.remove(&r);
                }
                (None, None) => {}
            }
        }
        self.audit(who)
    }
}
impl Task for SplayTask {
    fn step(&mut self, cx: &mut Cx) -> bool {
        if self.n >= self.ops.len() {
            self.held.clear();
            let who = cx.who;
            if self.reent.lie > 0 {
                return false;
            }
            let r = take_fault(|| self.audit(who));
            cx.verdict(prop(cx), r);
            return false;
        }
        let op = self.ops[self.n].clone();
        self.n += 1;
        let before = self.model.clone();
        let who = cx.who;
        let r = catch_unwind(AssertUnwindSafe(|| self.op(cx, &op)));
        if self.reent.lie > 0 {
            return self.lied(cx, r);
        }
        if let Some(w) = self.reent.wrong.borrow_mut().take() {
            cx.bad(prop(cx), w);
            return false;
        }
        match r {
            Ok(v) => {
                cx.verdict(prop(cx), v);
                cx.nontrivial |= self.model.len() > 3;
                if self.n % 16 == 0 && cx.bad.is_empty() {
                    self.held.clear();
                    let r = take_fault(|| self.audit(who));
                    cx.verdict(prop(cx), r);
                }
            }
            Err(p) => {
                if p.is::<Stuck>() {
                    std::panic::resume_unwind(p);
                }
                if !p.is::<Interrupt>() {
                    let name = OPS[op[0].rem_euclid(OPS.len() as i64) as usize];
                    cx.bad(prop(cx), format!("{name}({}) panicked: {}", op[1], message(&*p)));
                    return false;
                }
                cx.absorbed += 1;
                // References handed out before the interrupted call are still good
                // unless it was a change.
                let held = self.held_ok();
                self.held.clear();
                let name = OPS[op[0].rem_euclid(OPS.len() as i64) as usize];
                let destructor = matches!(p.downcast_ref(), Some(Interrupt(Kind::Drop)));
                let r = take_fault(|| {
                    held.and_then(|_| {
                        if destructor && name == "iterate" {
                            return self.audit(who);
                        }
                        if destructor && name == "clear" {
                            return self.rest(who, &before);
                        }
                        if name == "iterate" {
                            // Nothing in an iteration calls the comparator.
                            return Err("an iteration called the comparator".into());
                        }
                        if name == "clear" {
                            return Err("a clear called the comparator".into());
                        }
                        self.settle(who, &op, &before)
                    })
                });
                cx.verdict("S02", r);
            }
        }
        cx.bad.is_empty()
    }
}
/// What goes wrong after an interruption counts against S02.
fn prop(cx: &Cx) -> &'static str {
    if cx.absorbed > 0 {
        "S02"
    } else {
        "S01"
    }
}
/// Runs the simulator's own inspection without faults.
fn take_fault<R>(f: impl FnOnce() -> R) -> R {
    let s = crate::seam::save();
    crate::seam::set_fault(None);
    crate::seam::set_drop(None);
    let r = f();
    crate::seam::set_drop(Some(s.drops));
    crate::seam::set_fault(if s.fault == u64::MAX { None } else { Some(s.fault.max(crate::seam::seams() + 1)) });
    harness(|| ());
    r
}
