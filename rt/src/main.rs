//! Runs the real indexer under generated workloads while the monitors of one property watch.
//!
//! rt run <property> --seed S --worker W --secs T --max N --out FILE --current FILE [--thorough]
//! rt replay <property> <case seed> [--thorough]
//! rt bundle <property> --seed S --worker W --secs T [--case C]   cases for wasm/run.js, one JSON line each on fd 3
//! rt verify --in FILE --out FILE --current FILE                  indexes the wasm build produced for such cases
mod alloc;
mod bundle;
mod ctx;
mod gen;
mod model;
mod prng;
mod props;
mod real;

use ctx::Ctx;
use std::io::{Seek, Write};
use std::time::{Duration, Instant};

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

pub fn option(args: &[String], name: &str) -> Option<String> {
    let at = args.iter().position(|a| a == name)?;
    args.get(at + 1).cloned()
}

pub fn number(args: &[String], name: &str, default: u64) -> u64 {
    option(args, name).map_or(default, |v| v.parse().unwrap_or_else(|_| die(&format!("bad {name}"))))
}

pub fn die(message: &str) -> ! {
    eprintln!("harness: {message}");
    std::process::exit(3);
}

/// A panic that reaches this far came from the harness: no verdict.
fn step(case: fn(&mut Ctx, u64), ctx: &mut Ctx, seed: u64) {
    ctx.case_seed = seed;
    let start = Instant::now();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| case(ctx, seed)));
    if r.is_err() {
        die(&format!("case {seed}: {}", real::last_panic()));
    }
    ctx.max("milliseconds_of_a_case", start.elapsed().as_millis() as u64);
}

fn run(args: &[String]) {
    let prop = args.get(2).cloned().unwrap_or_default();
    let case = props::case(&prop).unwrap_or_else(|| die(&format!("unknown property {prop}")));
    let seed = number(args, "--seed", 1);
    let worker = number(args, "--worker", 0);
    let limit = Duration::from_secs(number(args, "--secs", 10));
    let max = number(args, "--max", u64::MAX);
    let out = option(args, "--out").unwrap_or_else(|| die("no --out"));
    let mut current = option(args, "--current").map(|p| std::fs::File::create(p).unwrap_or_else(|e| die(&e.to_string())));
    let mut ctx = Ctx { thorough: args.iter().any(|a| a == "--thorough"), ..Ctx::default() };
    let start = Instant::now();
    let mut i = 0;
    while i < max && start.elapsed() < limit && !ctx.stop() {
        let case_seed = prng::case_seed(seed, worker, i);
        if let Some(f) = &mut current {
            // Names the case should the process die in it
            f.rewind().and_then(|()| f.write_all(format!("{case_seed:020}\n").as_bytes())).unwrap_or_else(|e| die(&e.to_string()));
        }
        step(case, &mut ctx, case_seed);
        i += 1;
    }
    ctx.count("cases", i);
    std::fs::write(out, ctx.to_json().to_string()).unwrap_or_else(|e| die(&e.to_string()));
    // Threads that will never end must not keep this one
    std::process::exit(0);
}

fn replay(args: &[String]) {
    let case = args.get(2).and_then(|p| props::case(p)).unwrap_or_else(|| die("unknown property"));
    let seed = args.get(3).and_then(|s| s.parse().ok()).unwrap_or_else(|| die("no case seed"));
    let mut ctx = Ctx { thorough: args.iter().any(|a| a == "--thorough"), ..Ctx::default() };
    step(case, &mut ctx, seed);
    for v in &ctx.violations {
        eprintln!("{}\n{}", v.message, v.detail);
    }
    if ctx.violations.is_empty() {
        eprintln!("case {seed} holds: {:?}", ctx.counters);
    } else {
        std::process::exit(1);
    }
}

fn main() {
    real::install_hook();
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(String::as_str) {
        Some("run") => run(&args),
        Some("replay") => replay(&args),
        Some("bundle") => bundle::run(&args),
        Some("verify") => bundle::verify(&args),
        _ => die("usage: rt run|replay …"),
    }
}
