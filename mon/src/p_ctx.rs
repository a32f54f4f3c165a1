//! Contexts and threads: P08, P09.
use crate::report::*;
use crate::rng::Rng;
use crate::scen;

pub fn run_scen(f: fn(&mut Rng, usize, bool) -> Result<scen::Events, scen::Bad>, rng: &mut Rng, size: usize, obs: &mut Obs) -> Res {
    match f(rng, size, false) {
        Ok(e) => {
            obs.mark(&e.text);
            // executions differ in their interleaving
            obs.fingerprint = crate::rng::hash_u64(obs.fingerprint, e.order);
            for (k, v) in e.counts {
                obs.add(k, v);
            }
            Ok(())
        }
        Err((sig, detail)) => Err(Fail { sig, detail }),
    }
}

pub fn p08(run: &Run) -> i32 {
    let n = run.pick(16_000, 600_000);
    run.cases_and_large(n, run.pick(60, 1500), 4, |case, rng, obs| {
        if case >= LARGE {
            // now and then more than two bytes count
            let size = if (case - LARGE) % 20 == 19 { 1700 } else { rng.range(3, 150) };
            return run_scen(scen::crowd, rng, size, obs);
        }
        let size = 1 + (case / 4 % 5) as usize;
        match case % 4 {
            3 => run_scen(scen::standing, rng, size, obs),
            0 | 1 => run_scen(scen::isolated, rng, size, obs),
            _ => run_scen(scen::drop_race, rng, size, obs),
        }
    });
    run.finish("2 to 6 threads play random scripts (create, look up by id, declare, compute, mark, take tapes, drop handles in any order, go on with leftover variables) on contexts of their own, in half the cases looking up each other's contexts, with random pauses; every tape is compared with the same script recorded alone, every lookup with the number of handles, all ids with each other; and races of dropping the last handle against computing and looking up; and threads that go on living after the contexts they worked on ended; and up to 68000 contexts alive at once, each used again long after, ending in any order. Four such cases run at once. Non-trivial and distinct: executions with different scripts or different observed interleavings (order in which threads got their context ids, step at which a thread saw the context gone)")
}

pub fn p09(run: &Run) -> i32 {
    let n = run.pick(12_000, 500_000);
    run.cases_and_large(n, run.pick(8, 200), 4, |case, rng, obs| run_scen(scen::shared, rng, if case >= LARGE { 100 + 20 * (case % 3) as usize } else { 1 + (case % 6) as usize }, obs));
    run.finish("2 to 5 threads record on one context, exchanging variables, declaring arguments, marking results and taking tapes meanwhile, with random pauses; every snapshot is checked for structure and replayed, and afterwards every operation any thread performed is looked for in the recording, with its operands; some of these recordings have 20000 to 100000 operations. Non-trivial and distinct: executions with different workloads or different order of the recorded operations by thread")
}
