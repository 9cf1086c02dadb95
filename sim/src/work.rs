//! What runs inside a worker process.
use crate::exec::{self, Outcome};
use crate::rng::fold;
use crate::seam::KIND_NAMES;
use crate::{case, sys};
use serde_json::{json, Value};
use std::collections::HashSet;
use std::io::{BufRead, Write};
use std::os::unix::fs::FileExt;

/// Hash of what a case does, apart from its environment.
fn identity(c: &Value) -> u64 {
    let s = format!("{}{}{}{}", c["mode"], c["sched"], c["log"], c["callers"]);
    s.as_bytes().chunks(8).fold(0, |h, b| {
        let mut a = [0; 8];
        a[..b.len()].copy_from_slice(b);
        fold(h, u64::from_le_bytes(a))
    })
}
fn dump(path: &str, ext: &str, v: impl Iterator<Item = u64>) {
    let b: Vec<u8> = v.flat_map(|x| x.to_le_bytes()).collect();
    let _ = std::fs::write(format!("{path}.{ext}"), b);
}

/// Runs the seeds `first, first + stride, ...`; progress goes to a file.
pub fn worker(prop: &str, first: u64, count: u64, stride: u64, down: bool, file: &str) -> i32 {
    exec::install();
    let progress = std::fs::File::create(file).expect("progress file");
    let mut st = exec::Stats::default();
    let (mut runs, mut nontrivial, mut invalid) = (0u64, 0u64, 0u64);
    let mut distinct = HashSet::new();
    let mut inter = HashSet::new();
    let mut digests = vec![];
    let mut known: Vec<Value> = vec![];
    let mut known_n = 0u64;
    let mut modes = [0u64; 3];
    let mut samples = vec![];
    let mut found = Value::Null;
    let stop = format!("{file}.stop");
    for k in 0..count {
        if k % 16 == 0 && std::path::Path::new(&stop).exists() {
            break;
        }
        let seed = first + stride * if down { count - 1 - k } else { k };
        let _ = progress.write_all_at(&[seed.to_le_bytes(), (k + 1).to_le_bytes()].concat(), 0);
        let c = case::make(prop, seed);
        let o = match exec::run(&c) {
            Ok(o) => o,
            Err(e) if e == "invalid" => {
                invalid += 1;
                digests.push(1);
                continue;
            }
            Err(e) => {
                println!("{}", json!({"error": e, "seed": seed}));
                return 3;
            }
        };
        runs += 1;
        digests.push(o.digest);
        modes[match c["mode"].as_str() {
            Some("thread") => 1,
            Some("nest") => 2,
            _ => 0,
        }] += 1;
        if o.nontrivial {
            nontrivial += 1;
            distinct.insert(identity(&c));
            if samples.len() < 2 && k > 20 && o.stats.steps < 200 && c.to_string().len() < 3000 {
                samples.push(json!({"seed": seed, "case": c, "seams": o.stats.seams, "switches": o.stats.switches}));
            }
        }
        for m in &o.known {
            if m.0 == prop {
                known_n += 1;
                if known.len() < 3 {
                    known.push(json!({"seed": seed, "message": m.1}));
                }
            }
        }
        inter.extend(o.stats.interleavings.iter().copied());
        let mut s = o.stats;
        s.interleavings.clear();
        exec::add(&mut st, &s);
        if let Some(b) = o.bad.iter().find(|b| b.0 == prop) {
            found = json!({"seed": seed, "message": b.1, "index": k});
            break;
        }
    }
    dump(file, "cases", distinct.into_iter());
    dump(file, "inter", inter.into_iter());
    dump(file, "digests", digests.into_iter());
    let fired: Value = KIND_NAMES.iter().zip(st.fired).map(|(k, v)| (k.to_string(), json!(v))).collect::<serde_json::Map<_, _>>().into();
    let (rnd, clk) = sys::draws();
    println!(
        "{}",
        json!({
            "runs": runs, "nontrivial": nontrivial, "invalid": invalid, "found": found, "known": known, "known_n": known_n,
            "samples": samples, "fired": fired, "abandoned": st.abandoned, "seams": st.seams, "steps": st.steps,
            "checks": st.checks, "switches": st.switches, "attempts": st.attempts, "logged": st.logged, "executions": st.runs,
            "modes": modes, "random_draws": rnd, "clock_reads": clk,
            "allocs": crate::alloc::LIB_ALLOCS.load(std::sync::atomic::Ordering::Relaxed),
            "moves": crate::alloc::LIB_MOVES.load(std::sync::atomic::Ordering::Relaxed),
        })
    );
    0
}

pub fn verdict(o: &Outcome) -> Value {
    json!({"bad": o.bad, "known": o.known, "digest": format!("{:016x}", o.digest), "seams": o.stats.seams, "switches": o.stats.switches})
}
/// Executes the cases read from standard input, one per line.
pub fn exec() -> i32 {
    exec::install();
    let lines: Vec<String> = std::io::stdin().lock().lines().map_while(Result::ok).collect();
    for l in lines {
        let Ok(c) = serde_json::from_str::<Value>(&l) else {
            println!("{}", json!({"error": "not JSON"}));
            continue;
        };
        match exec::run(&c) {
            Ok(o) => println!("{}", verdict(&o)),
            Err(e) => println!("{}", json!({"error": e})),
        }
        let _ = std::io::stdout().flush();
    }
    0
}
/// Are the seams where they should be?
pub fn selftest() -> i32 {
    use std::hash::{BuildHasher, Hasher};
    let f = |seed: u64| {
        sys::simulate(seed);
        let r = std::thread::spawn(|| {
            let a = std::collections::hash_map::RandomState::new();
            let mut h = a.build_hasher();
            h.write_u64(1);
            let t = std::time::Instant::now();
            let d = t.elapsed();
            (h.finish(), format!("{t:?} {d:?} {:?}", std::time::SystemTime::now()))
        })
        .join()
        .unwrap();
        sys::simulate(0);
        r
    };
    let (a, b, c) = (f(77), f(77), f(78));
    let (r, t) = sys::draws();
    println!("hash keys simulated: {}, clock simulated: {}, draws {r}, reads {t}", a.0 == b.0 && a.0 != c.0, a.1 == b.1);
    !(a == b && a != c && r > 0 && t > 0) as i32
}
