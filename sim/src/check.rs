//! The driver of a check: spreads seeds over worker processes, confirms and
//! minimises what they find, and writes the evidence.
use crate::min::{history, Min};
use crate::proc::{self, broken};
use crate::seam::KIND_NAMES;
use crate::{case, rng};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Read;
use std::os::unix::process::ExitStatusExt;
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const WORKERS: u64 = 8;
/// A single simulated run takes milliseconds.
const HANG: Duration = Duration::from_secs(60);
const SEC: Duration = Duration::from_secs(1);

fn root() -> PathBuf {
    // .../sim/target/<profile>/sim
    let e = std::env::current_exe().expect("exe");
    e.ancestors().nth(4).expect("root").to_path_buf()
}
fn binary(profile: &str) -> String {
    root().join("sim/target").join(profile).join("sim").display().to_string()
}
/// Number of runs: quick, thorough.
fn budget(prop: &str, thorough: bool) -> u64 {
    let q = match prop {
        "C01" => 700_000,
        "C02" => 500_000,
        "C03" => 600_000,
        "B01" | "B02" => 300_000,
        "M01" | "M02" => 400_000,
        "M03" | "M04" => 1_000_000,
        "M05" => 600_000,
        "C04" => 40_000,
        "C05" => 750_000,
        "S04" => 60_000,
        "S01" => 500_000,
        "S02" => 600_000,
        "S03" => 450_000,
        _ => 150_000,
    };
    let q = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(q);
    if thorough {
        q * 12
    } else {
        q
    }
}

struct Worker {
    profile: &'static str,
    first: u64,
    down: bool,
    child: Child,
    file: String,
    at: (u64, u64),
    since: Instant,
    out: Option<String>,
    died: Option<String>,
    hung: bool,
    reader: Option<std::thread::JoinHandle<String>>,
}
impl Worker {
    fn poll(&mut self) -> bool {
        if self.out.is_some() {
            return true;
        }
        if let Ok(Some(st)) = self.child.try_wait() {
            let s = self.reader.take().map(|r| r.join().unwrap_or_default()).unwrap_or_default();
            if !st.success() && !self.hung {
                self.died = Some(match st.signal() {
                    Some(n) => format!("killed by signal {n} ({})", proc::name(n)),
                    None => format!("exited with {}", st.code().unwrap_or(-1)),
                });
            }
            self.out = Some(s);
            self.progress();
            return true;
        }
        self.progress();
        if self.since.elapsed() > HANG {
            self.hung = true;
            let _ = self.child.kill();
        }
        false
    }
    fn progress(&mut self) {
        let b = std::fs::read(&self.file).unwrap_or_default();
        if b.len() >= 16 {
            let at = (u64::from_le_bytes(b[..8].try_into().unwrap()), u64::from_le_bytes(b[8..16].try_into().unwrap()));
            if at != self.at {
                self.at = at;
                self.since = Instant::now();
            }
        }
    }
    fn hashes(&self, ext: &str) -> Vec<u64> {
        let b = std::fs::read(format!("{}.{ext}", self.file)).unwrap_or_default();
        b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
    }
    /// Seeds run so far, the current one last.
    fn seeds(&self, count: u64) -> Vec<u64> {
        (0..self.at.1).map(|k| self.first + WORKERS * if self.down { count - 1 - k } else { k }).collect()
    }
}

/// A violation: lists of cases, each for a process of its own. With one list
/// the last case breaks the property; with two their last cases disagree.
struct Found {
    message: String,
    profile: &'static str,
    seed: u64,
    runs: Vec<Vec<Value>>,
    confirmed: bool,
    tried: u64,
}
fn digest(bin: &str, cases: &[Value]) -> Option<String> {
    let r = proc::run(bin, cases, 120 * SEC);
    if r.out.len() < cases.len() {
        return None;
    }
    r.out.last().map(|o| o["digest"].to_string())
}
fn disagree(bin: &str, a: &[Value], b: &[Value]) -> bool {
    let (x, y) = (digest(bin, a), digest(bin, b));
    x != y
}

/// Confirms, and makes small, what a worker came upon.
fn pin(prop: &str, profile: &'static str, seeds: &[u64], message: &str, hung: bool) -> Found {
    let bin = binary(profile);
    let seed = *seeds.last().unwrap();
    let c = case::make(prop, seed);
    let class = |m: &str| (m.starts_with("no end"), m.starts_with("the process"));
    let limit = if hung { 30 * SEC } else { 120 * SEC };
    let mut found = Found { message: message.into(), profile, seed, runs: vec![vec![c.clone()]], confirmed: false, tried: 0 };
    let budget = Duration::from_secs(std::env::var("SIM_MIN").ok().and_then(|s| s.parse().ok()).unwrap_or(60));
    let t0 = Instant::now();
    let mut prefix: Vec<Value> = vec![];
    let first = match broken(&bin, prop, &[c.clone()], limit) {
        Some(m) => Some(m),
        None => {
            // Only after other runs in the same process?
            let all: Vec<Value> = seeds[seeds.len().saturating_sub(3000)..].iter().map(|s| case::make(prop, *s)).collect();
            let m = broken(&bin, prop, &all, limit);
            if m.is_some() {
                let h = history(&all, &mut |c| broken(&bin, prop, c, limit).is_some(), budget);
                prefix = h[..h.len() - 1].to_vec();
            }
            m
        }
    };
    let Some(m) = first else { return found };
    let want = class(&m);
    found.confirmed = true;
    found.message = m;
    let slow = t0.elapsed() * 3 + 2 * SEC;
    let limit = if want.0 { 6 * SEC } else { slow.min(limit) };
    let with = |prefix: &[Value], c: &Value| -> Vec<Value> { prefix.iter().cloned().chain(std::iter::once(c.clone())).collect() };
    let mut cur = c;
    let mut fails = |x: &Value| broken(&bin, prop, &with(&prefix, x), limit).is_some_and(|m| class(&m) == want);
    let mut m = Min { fails: &mut fails, until: Instant::now() + budget, tried: 0 };
    m.shrink(&mut cur);
    found.tried = m.tried;
    if let Some(m) = broken(&bin, prop, &with(&prefix, &cur), limit) {
        found.message = m;
    }
    found.runs = vec![with(&prefix, &cur)];
    found
}
/// Two workers saw different things in the same case.
fn pin_pair(prop: &str, profile: &'static str, a: &[u64], b: &[u64]) -> Found {
    let bin = binary(profile);
    let f = |s: &[u64]| -> Vec<Value> { s.iter().map(|s| case::make(prop, *s)).collect() };
    let (mut x, mut y) = (f(a), f(b));
    let last = vec![x.last().unwrap().clone()];
    let confirmed = disagree(&bin, &x, &y);
    if confirmed {
        if disagree(&bin, &last, &y) {
            x = last.clone();
        } else if disagree(&bin, &x, &last) {
            y = last.clone();
        }
        let lim = 45 * SEC;
        let y0 = y.clone();
        x = history(&x, &mut |c| disagree(&bin, c, &y0), lim);
        let x0 = x.clone();
        y = history(&y, &mut |c| disagree(&bin, &x0, c), lim);
    }
    Found {
        message: "the same calls give other results after other calls in the same process".into(),
        profile,
        seed: *a.last().unwrap(),
        runs: vec![x, y],
        confirmed,
        tried: 0,
    }
}

/// Minimises the failure of one seed.
pub fn pin_seed(prop: &str, seed: u64, profile: &str) -> i32 {
    let f = pin(prop, if profile == "chk" { "chk" } else { "release" }, &[seed], "none", false);
    println!("{}: {}", f.confirmed, f.message);
    println!("{}", f.runs[0].last().unwrap());
    f.confirmed as i32
}
fn write_replay(prop: &str, f: &Found) -> String {
    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{prop}-{}.json", f.seed));
    let v = json!({
        "property": prop, "message": f.message, "seed": f.seed, "profile": f.profile, "confirmed": f.confirmed, "runs": f.runs,
        "how": "sh /verif/replay.sh FILE runs this again in fresh processes",
    });
    std::fs::write(&path, format!("{v:#}\n")).expect("replay file");
    path.display().to_string()
}
fn again(v: &Value) -> Option<String> {
    let prop = v["property"].as_str().unwrap_or("");
    let bin = binary(v["profile"].as_str().unwrap_or("release"));
    let runs: Vec<Vec<Value>> = v["runs"].as_array()?.iter().map(|r| r.as_array().cloned().unwrap_or_default()).collect();
    if runs.len() == 2 {
        return disagree(&bin, &runs[0], &runs[1]).then(|| "the two histories end in different results".to_string());
    }
    broken(&bin, prop, runs.first()?, 60 * SEC)
}
pub fn replay(path: &str) -> i32 {
    let Some(v) = std::fs::read_to_string(path).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok()) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    match again(&v) {
        Some(m) => {
            println!("{m}");
            println!("VIOLATION property={} replay={path}", v["property"].as_str().unwrap_or(""));
            1
        }
        None => {
            println!("not reproduced");
            0
        }
    }
}

/// Committed cases: repaired defects, and known findings.
fn corpus(prop: &str) -> Vec<(String, Value)> {
    let mut out = vec![];
    if let Ok(d) = std::fs::read_dir(root().join("cases")) {
        for e in d.flatten() {
            if let Some(v) = std::fs::read_to_string(e.path()).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok()) {
                if v["property"] == prop {
                    out.push((e.file_name().to_string_lossy().into_owned(), v));
                }
            }
        }
    }
    out.sort_by(|a, b| a.0.cmp(&b.0));
    out
}
fn findings(prop: &str) -> Vec<String> {
    let tag = format!("KNOWN-FINDING: property={prop} ");
    let s = std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    s.lines().filter(|l| l.starts_with(&tag)).map(|l| l.to_string()).collect()
}

pub fn check(prop: &str) -> i32 {
    if !case::PROPS.contains(&prop) {
        eprintln!("unknown property {prop}");
        return 2;
    }
    let t0 = Instant::now();
    let env = |k: &str| std::env::var(k).ok();
    let vseed: u64 = env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = env("VERIF_TIER").as_deref() == Some("thorough");
    let wall = Duration::from_secs(env("SIM_WALL").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600 } else { 240 }));
    println!("check {prop}: VERIF_SEED={vseed} tier={}", if thorough { "thorough" } else { "quick" });

    let mut found: Option<Found> = None;
    // 1. Committed cases.
    let mut known_seen = false;
    let mut corpus_runs = 0;
    for (name, v) in corpus(prop) {
        let runs: Vec<Value> = v["runs"][0].as_array().cloned().unwrap_or_default();
        for profile in ["release", "chk"] {
            corpus_runs += 1;
            if let Some(m) = broken(&binary(profile), prop, &runs, 120 * SEC) {
                if found.is_none() {
                    found = Some(Found { message: format!("{name}: {m}"), profile, seed: v["seed"].as_u64().unwrap_or(0), runs: vec![runs.clone()], confirmed: true, tried: 0 });
                }
            }
            let r = proc::run(&binary(profile), &runs, 120 * SEC);
            known_seen |= r.out.iter().any(|o| o["known"].as_array().is_some_and(|k| k.iter().any(|k| k[0] == prop)));
        }
    }

    // 2. Seeded search.
    let tmp = std::env::temp_dir().join(format!("sim-{prop}-{}", std::process::id()));
    std::fs::create_dir_all(&tmp).expect("scratch directory");
    let pair = prop == "X01";
    let lanes = if pair { WORKERS / 2 } else { WORKERS };
    let count = budget(prop, thorough).div_ceil(lanes);
    let base = (rng::mix(vseed) >> 24) << 24;
    let mut ws: Vec<Worker> = vec![];
    if found.is_none() {
        for w in 0..WORKERS {
            let lane = w % lanes;
            let profile = if lane % 2 == 0 { "release" } else { "chk" };
            let file = tmp.join(format!("w{w}")).display().to_string();
            let first = base + lane;
            let down = w >= lanes;
            let mut child = Command::new(binary(profile))
                .args(["worker", prop, &first.to_string(), &count.to_string(), &WORKERS.to_string(), if down { "down" } else { "up" }, &file])
                .stdin(Stdio::null())
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .expect("worker");
            let mut so = child.stdout.take().unwrap();
            let reader = std::thread::spawn(move || {
                let mut s = String::new();
                let _ = so.read_to_string(&mut s);
                s
            });
            ws.push(Worker { profile, first, down, child, file, at: (0, 0), since: Instant::now(), out: None, died: None, hung: false, reader: Some(reader) });
        }
    }
    let stop = |ws: &[Worker]| {
        for w in ws {
            let _ = std::fs::write(format!("{}.stop", w.file), b"");
        }
    };
    let mut stopped = false;
    loop {
        let mut left = 0;
        for w in ws.iter_mut() {
            if !w.poll() {
                left += 1;
            }
        }
        let hit = ws.iter().any(|w| w.hung || w.died.is_some() || w.out.as_ref().is_some_and(|o| o.contains("\"found\":{")));
        if !stopped && (hit || t0.elapsed() > wall) {
            stop(&ws);
            stopped = true;
        }
        if left == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let search = t0.elapsed();
    let outs: Vec<Value> = ws.iter().map(|w| w.out.as_ref().and_then(|o| serde_json::from_str(o.lines().last().unwrap_or("")).ok()).unwrap_or(Value::Null)).collect();
    let mut error = None;
    for (w, o) in ws.iter().zip(&outs) {
        if found.is_some() {
            break;
        }
        if let Some(e) = o["error"].as_str() {
            error = Some(format!("seed {}: {e}", o["seed"]));
        } else if w.hung || w.died.is_some() {
            let m = if w.hung { format!("no end after {} s", HANG.as_secs()) } else { format!("the process was {}", w.died.clone().unwrap()) };
            if w.at.1 == 0 {
                error = Some(format!("a worker did not start: {m}"));
                continue;
            }
            let f = pin(prop, w.profile, &w.seeds(count), &m, w.hung);
            found = Some(f);
        } else if o["found"].is_object() {
            let f = pin(prop, w.profile, &w.seeds(count), o["found"]["message"].as_str().unwrap_or(""), false);
            found = Some(f);
        }
    }
    // 3. Every case of X01 was executed twice, in processes with different pasts.
    let mut compared = 0u64;
    if pair && found.is_none() && !ws.is_empty() {
        'o: for lane in 0..lanes as usize {
            let (a, b) = (&ws[lane], &ws[lane + lanes as usize]);
            let (da, db) = (a.hashes("digests"), b.hashes("digests"));
            for k in 0..count as usize {
                let j = count as usize - 1 - k;
                if let (Some(x), Some(y)) = (da.get(k), db.get(j)) {
                    compared += 1;
                    if x != y {
                        found = Some(pin_pair(prop, a.profile, &a.seeds(count)[..=k], &b.seeds(count)[..=j]));
                        break 'o;
                    }
                }
            }
        }
    }
    // 4. Is a seed one execution? Some again, in fresh processes and another order.
    let (mut same, mut reruns) = (0, 0);
    if found.is_none() && error.is_none() {
        for w in ws.iter().take(2) {
            let d = w.hashes("digests");
            let pick: Vec<usize> = (0..d.len()).step_by((d.len() / 40).max(1)).rev().collect();
            let cases: Vec<Value> = pick.iter().map(|k| case::make(prop, w.first + WORKERS * *k as u64)).collect();
            let r = proc::run(&binary(w.profile), &cases, 120 * SEC);
            for (k, o) in pick.iter().zip(&r.out) {
                reruns += 1;
                let x = if o["error"].is_string() { "0000000000000001".into() } else { o["digest"].as_str().unwrap_or("").to_string() };
                same += (x == format!("{:016x}", d[*k])) as u64;
            }
        }
    }
    // Known findings.
    let mut known_n = 0;
    for o in &outs {
        known_n += o["known_n"].as_u64().unwrap_or(0);
    }
    if known_seen {
        for l in findings(prop) {
            println!("{l}");
        }
    }
    // Evidence.
    let sum = |k: &str| outs.iter().map(|o| o[k].as_u64().unwrap_or(0)).sum::<u64>();
    let union = |ext: &str| ws.iter().flat_map(|w| w.hashes(ext)).collect::<HashSet<_>>().len();
    let mut fired = BTreeMap::new();
    for k in KIND_NAMES {
        let n = outs.iter().map(|o| o["fired"][k].as_u64().unwrap_or(0)).sum::<u64>();
        if n > 0 {
            let k = if matches!(k, "reentrant_lookup" | "inconsistent_comparator") { k.to_string() } else { format!("panic_at_{k}") };
            fired.insert(k, n);
        }
    }
    fired.insert("object_abandoned_midway".into(), sum("abandoned"));
    fired.insert("buffer_moved_on_growth".into(), sum("moves"));
    let hours = (search.as_secs_f64() / 3600.).max(1e-9);
    let modes: Vec<u64> = (0..3).map(|i| outs.iter().map(|o| o["modes"][i].as_u64().unwrap_or(0)).sum()).collect();
    let samples: Vec<Value> = outs.iter().flat_map(|o| o["samples"].as_array().cloned().unwrap_or_default()).take(3).collect();
    let level = if matches!(prop, "C03" | "S02") { "fault_enumeration" } else { "exploration" };
    let ev = json!({
        "property": prop,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": vseed,
        "level": level,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": found.is_some() as u64,
        "coverage": {
            "evaluations": sum("executions"),
            "seeds": sum("runs"),
            "distinct_nontrivial": union("cases"),
            "rule": rule(prop),
            "samples": samples,
            "rejected_by_precondition": sum("invalid"),
            "seeds_per_hour": (sum("runs") as f64 / hours) as u64,
            "runs_per_hour": (sum("executions") as f64 / hours) as u64,
            "simulated_time_in_seams": sum("seams"),
            "library_calls_judged": sum("steps"),
            "attempts": sum("attempts"),
            "oracle_checks": sum("checks"),
            "faults_injected": fired,
            "log_lines_formatted_inside_calls": sum("logged"),
            "schedules": {"between_calls": modes[0], "threads_switched_inside_calls": modes[1], "call_nested_in_a_call": modes[2]},
            "switches_between_callers": sum("switches"),
            "distinct_interleavings": union("inter"),
            "distinct_observed_histories": union("digests"),
            "results_compared_across_process_histories": compared,
            "reexecuted_for_determinism": {"seeds": reruns, "identical": same},
            "entropy_draws_by_the_library": sum("random_draws"),
            "clock_reads_by_the_library": sum("clock_reads"),
            "library_allocations": sum("allocs"),
            "committed_cases_replayed": corpus_runs,
            "known_finding_hits": known_n,
            "real_components": ["geo-crossings built from /repo's working tree, release and with debug assertions", "geo kernels, slab, std collections"],
            "simulated_components": ["scheduler", "allocator (poison, move, quarantine)", "user scalars, geometry, comparators, iterators and log sink", "getrandom and clock_gettime"],
        },
        "assumptions": assumptions(prop),
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{prop}.json")), format!("{ev:#}\n")).expect("evidence");
    let _ = std::fs::remove_dir_all(&tmp);
    println!(
        "{} seeds, {} executions, {} distinct non-trivial, {} interleavings, {:?} in {:.0} s; {same}/{reruns} re-executed identically",
        sum("runs"),
        sum("executions"),
        union_count(&ev, "distinct_nontrivial"),
        union_count(&ev, "distinct_interleavings"),
        fired_text(&ev),
        t0.elapsed().as_secs_f64()
    );
    if let Some(f) = found {
        let path = write_replay(prop, &f);
        println!("seed {} ({}): {}", f.seed, f.profile, f.message);
        println!("{} after {} attempts at making it smaller", if f.confirmed { "reproduced in a fresh process" } else { "NOT reproduced in a fresh process" }, f.tried);
        println!("VIOLATION property={prop} replay={path}");
        return 1;
    }
    if let Some(e) = error {
        eprintln!("harness error: {e}");
        return 2;
    }
    0
}
fn union_count(ev: &Value, k: &str) -> u64 {
    ev["coverage"][k].as_u64().unwrap_or(0)
}
fn fired_text(ev: &Value) -> String {
    ev["coverage"]["faults_injected"].to_string()
}
fn rule(prop: &str) -> String {
    let what = match prop {
        "C01" => "sets of segments and points swept by a crossings iterator; non-trivial: some event has at least two inputs",
        "C02" => "sets of segments and points drained by an intersections iterator; non-trivial: some pair intersects",
        "C03" => "sweeps over counted inputs with a panic or abandonment at a swept position; non-trivial: some event has at least two inputs",
        "C04" => "sweeps over up to some thousand lines, operations on numbers counted; non-trivial: more than fifty results",
        "C05" => "segments and rings without any precondition (crossings that round, near coincidences, magnitudes from 1e-90 to 1e90, broken rings) swept, combined and decomposed to the end; non-trivial: more than four events, or a result that is not empty",
        "M05" => "histories of building (some from damaged chains), copying and converting monotone pieces; non-trivial: a damaged one was refused, or a box around more than six vertices",
        "S04" => "long histories of a map, comparator calls counted; non-trivial: lookups among more than a hundred entries",
        "B01" | "B02" => "pairs of multi-polygons and an operation; non-trivial: the result is not empty",
        "M01" => "polygons with holes decomposed; non-trivial: more than one piece",
        "M02" => "polygons with holes swept step by step; non-trivial: some vertex splits or merges",
        "M03" => "pieces scanned through a list of stops and methods; non-trivial: some trapezoid was yielded",
        "M04" => "pieces rasterised through a list of strips and a pixel window; non-trivial: some pixel got area",
        "S01" => "histories of map and set operations; non-trivial: the map held more than three entries",
        "S02" => "histories with comparator or destructor panics at swept or random positions; non-trivial: the map held more than three entries",
        "S03" => "histories cut at any point, and tear-down of deep trees on a small stack; non-trivial: the map held more than three entries",
        _ => "mixes of up to five callers, each executed together and alone; non-trivial: some caller's job is",
    };
    format!("Seeded generator (sim/src/case.rs): {what}. Distinct by hash of jobs, schedule and faults.")
}
fn assumptions(prop: &str) -> Vec<&'static str> {
    let mut v = vec!["seeded search samples inputs, schedules and faults; it does not exhaust them", "callers are switched where user code runs inside library calls, not between arbitrary instructions"];
    if prop == "C05" {
        v.push("coordinates are finite, and far from overflow and underflow of their products; a panic of the library counts as an answer");
    } else if prop.starts_with('C') || prop.starts_with('B') {
        v.push("inputs whose intersections are integers (checked exactly), or in general position (checked up to rounding)");
    }
    if prop.starts_with('M') {
        v.push("polygons are valid and do not touch themselves");
    }
    if prop == "C02" {
        v.push("pairs excused by the known finding in known-findings.txt are counted, not reported");
    }
    v
}
