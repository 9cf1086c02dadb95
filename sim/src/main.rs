//! Deterministic simulation of callers of geo-crossings.
#![allow(deprecated)]
mod alloc;
mod case;
mod check;
mod exec;
mod gen;
mod geom;
mod jobs;
mod min;
mod proc;
mod rng;
mod scalar;
mod seam;
mod sys;
mod token;
mod work;

#[global_allocator]
static ALLOC: alloc::SimAlloc = alloc::SimAlloc;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let num = |i: usize| arg(i).parse::<u64>().unwrap_or(0);
    let code = match arg(1) {
        "worker" => work::worker(arg(2), num(3), num(4), num(5), arg(6) == "down", arg(7)),
        "exec" => work::exec(),
        "case" => {
            println!("{:#}", case::make(arg(2), num(3)));
            0
        }
        "pin" => check::pin_seed(arg(2), num(3), arg(4)),
        "selftest" => work::selftest(),
        "replay" => check::replay(arg(2)),
        "check" => check::check(arg(2)),
        _ => {
            eprintln!("usage: sim check PROP | replay FILE | case PROP SEED | worker PROP FIRST COUNT STRIDE up|down FILE | exec | pin PROP SEED release|chk | selftest");
            2
        }
    };
    std::process::exit(code);
}
