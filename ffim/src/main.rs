//! C interface called from Rust: P21, and `ffim hist SEED ROUNDS STEPS` for Miri and leak counting (P23).
#[macro_use]
#[path = "../../mon/src/report.rs"]
#[allow(dead_code)]
mod report;
#[path = "../../mon/src/cli.rs"]
mod cli;
mod hist;
#[path = "../../mon/src/rng.rs"]
#[allow(dead_code)]
mod rng;
use report::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering};

/// Counts live blocks and bytes
struct Counting;
static BLOCKS: AtomicI64 = AtomicI64::new(0);
static BYTES: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        BLOCKS.fetch_add(1, Ordering::Relaxed);
        BYTES.fetch_add(l.size() as i64, Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        BLOCKS.fetch_sub(1, Ordering::Relaxed);
        BYTES.fetch_sub(l.size() as i64, Ordering::Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        BYTES.fetch_add(n as i64 - l.size() as i64, Ordering::Relaxed);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Counting = Counting;

fn p21(run: &Run) -> i32 {
    let n = run.pick(60_000, 2_000_000);
    run.cases(0, n, 8, |case, rng, obs| {
        let steps = 5 + (case % 8) as usize * 20;
        match hist::history(rng, steps) {
            Ok(e) => {
                if !e.text.is_empty() {
                    obs.mark(&e.text);
                }
                obs.fingerprint = e.print;
                for (k, v) in e.counts {
                    obs.add(k, v);
                }
                Ok(())
            }
            Err((sig, detail)) => Err(Fail { sig, detail }),
        }
    });
    run.finish("random histories of 5 to 145 C interface calls over up to four contexts (created, freed with variables left over) and variables (independents, constants, copies, all operations, operands aliasing), each call also made through the Rust interface on a mirror; every value and derivative, the operands after each call, and the recordings (arguments, results, operations and their operands, values, a replay elsewhere) are compared. Distinct: histories")
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) != Some("hist") {
        cli::main(&[("P21", p21)]);
    }
    let (seed, rounds, steps): (u64, u64, usize) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
    let mut calls = 0;
    let mut prints = std::collections::HashSet::new();
    prints.reserve(rounds as usize * 2);
    let mut net = vec![(0i64, 0i64); rounds as usize];
    for r in 0..rounds {
        let mut g = rng::Rng::new(rng::hash_u64(seed ^ 0xff1, r));
        match hist::history(&mut g, steps) {
            Ok(e) => {
                calls += e.counts.values().sum::<u64>();
                prints.insert(e.print);
            }
            Err((sig, text)) => {
                println!("FAIL [{}] round {}: {}", sig, r, text);
                std::process::exit(1);
            }
        }
        net[r as usize] = (BLOCKS.load(Ordering::Relaxed), BYTES.load(Ordering::Relaxed));
    }
    let half = rounds as usize / 2;
    let grown = if half > 0 { net[rounds as usize - 1].0 - net[half].0 } else { 0 };
    if half >= 16 && grown > (half / 8) as i64 {
        println!("FAIL [ffi:leak] {} blocks more are in use after {} further histories, in each of which everything was freed", grown, rounds as usize - 1 - half);
        std::process::exit(1);
    }
    println!("DONE rounds={} distinct={} events={} blocks_grown={}", rounds, prints.len(), calls, grown);
}
