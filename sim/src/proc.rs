//! Executes cases in fresh processes.
use serde_json::Value;
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

/// What a list of cases did in a process of its own.
pub struct Ran {
    pub out: Vec<Value>,
    /// Signal, or exit code other than 0.
    pub died: Option<String>,
    pub hung: bool,
}

pub fn run(bin: &str, cases: &[Value], limit: Duration) -> Ran {
    let mut ch = Command::new(bin).arg("exec").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("spawn");
    let input: String = cases.iter().map(|c| format!("{c}\n")).collect();
    let mut si = ch.stdin.take().unwrap();
    let w = std::thread::spawn(move || {
        let _ = si.write_all(input.as_bytes());
    });
    let mut so = ch.stdout.take().unwrap();
    let r = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = so.read_to_string(&mut s);
        s
    });
    let t0 = Instant::now();
    let mut hung = false;
    let mut nap = 200;
    let st = loop {
        if let Ok(Some(st)) = ch.try_wait() {
            break Some(st);
        }
        if t0.elapsed() > limit {
            hung = true;
            let _ = ch.kill();
            break ch.wait().ok();
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 2).min(5000);
    };
    let _ = w.join();
    let s = r.join().unwrap_or_default();
    let died = match st {
        _ if hung => None,
        Some(s) if s.success() => None,
        Some(s) => Some(match s.signal() {
            Some(n) => format!("killed by signal {n} ({})", name(n)),
            None => format!("exited with {}", s.code().unwrap_or(-1)),
        }),
        None => Some("lost".into()),
    };
    Ran { out: s.lines().filter_map(|l| serde_json::from_str(l).ok()).collect(), died, hung }
}
pub fn name(n: i32) -> &'static str {
    match n {
        4 => "illegal instruction",
        6 => "abort",
        7 => "bus error",
        8 => "arithmetic",
        9 => "killed",
        11 => "segmentation fault",
        _ => "signal",
    }
}

/// How a list of cases breaks the property, if it does.
pub fn broken(bin: &str, prop: &str, cases: &[Value], limit: Duration) -> Option<String> {
    let r = run(bin, cases, limit);
    if r.hung {
        return Some(format!("no end after {} s", limit.as_secs()));
    }
    if let Some(d) = r.died {
        return Some(format!("the process was {d}"));
    }
    let last = r.out.last()?;
    if r.out.len() < cases.len() {
        return None;
    }
    last["bad"].as_array()?.iter().find(|b| b[0] == prop).and_then(|b| b[1].as_str()).map(|s| s.to_string())
}
