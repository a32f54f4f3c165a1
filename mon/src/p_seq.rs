//! Checkpointed reversal of sequences: P16 order and data, P17 memory, P18 number of steps.
use crate::report::*;
use crate::rng::{hash_u64, Rng};
use advantage::drivers::reverse_sequence;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;

/// What the monitors know about one reversal
struct Log {
    /// states alive by position in the sequence
    live: RefCell<BTreeMap<u64, usize>>,
    distinct: Cell<usize>,
    peak_calls: Cell<usize>,
    peak_ever: Cell<usize>,
    forwards: Cell<u64>,
    finals: Cell<u64>,
    reverses: Cell<u64>,
    budget: u64,
    fail: RefCell<Option<Fail>>,
    key: u64,
    /// position handed to the last reverse (or final) call
    last: Cell<Option<u64>>,
    steps: u64,
    digest: Cell<u64>,
    /// reversals run inside the user functions of this one: what is judged, how deep, how many left
    inner: Cell<Option<(What, u64, u64)>>,
    inner_done: Cell<u64>,
    inner_fail: RefCell<Option<Fail>>,
}

impl Log {
    fn complain(&self, sig: &str, text: String) {
        let mut f = self.fail.borrow_mut();
        if f.is_none() {
            *f = Some(Fail { sig: sig.into(), detail: text });
        }
    }
    fn born(&self, i: u64) {
        let mut l = self.live.borrow_mut();
        let e = l.entry(i).or_insert(0);
        *e += 1;
        if *e == 1 {
            self.distinct.set(self.distinct.get() + 1);
        }
        self.peak_ever.set(self.peak_ever.get().max(self.distinct.get()));
    }
    fn gone(&self, i: u64) {
        let mut l = self.live.borrow_mut();
        let e = l.get_mut(&i).unwrap();
        *e -= 1;
        if *e == 0 {
            l.remove(&i);
            self.distinct.set(self.distinct.get() - 1);
        }
    }
    fn called(&self) {
        self.peak_calls.set(self.peak_calls.get().max(self.distinct.get()));
        if let Some((what, depth, left)) = self.inner.get() {
            let calls = self.forwards.get() * 3 + self.reverses.get() * 5 + self.finals.get();
            let h = hash_u64(self.key, calls);
            if left == 0 || h % 4 != 0 {
                return;
            }
            self.inner.set(Some((what, depth, left - 1)));
            let (n, c) = ((h >> 8) % 30, 2 + ((h >> 20) % 6) as usize);
            let mut obs = Obs::default();
            if let Err(f) = judge_inside(what, n, c, h, &mut obs, depth - 1) {
                let mut g = self.inner_fail.borrow_mut();
                if g.is_none() {
                    *g = Some(Fail { sig: f.sig, detail: format!("inside another reversal: {}", f.detail) });
                }
            }
            self.inner_done.set(self.inner_done.get() + 1);
        }
    }
}

/// A state that cannot be made up: its data depends on the whole way to it
struct State {
    i: u64,
    data: u64,
    log: Rc<Log>,
}
impl State {
    fn make(i: u64, data: u64, log: &Rc<Log>) -> State {
        log.born(i);
        State { i, data, log: log.clone() }
    }
}
impl Clone for State {
    fn clone(&self) -> State {
        State::make(self.i, self.data, &self.log)
    }
}
impl Drop for State {
    fn drop(&mut self) {
        self.log.gone(self.i);
    }
}
impl std::fmt::Debug for State {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "state {}", self.i)
    }
}

struct TooMuch;

/// The least number of forward steps of any schedule that visits states steps..0 and holds at most
/// `slots` states, with the first one held: dynamic program
pub struct Optimum {
    /// best[c][l]: l states to visit, c slots of which one holds the first
    best: Vec<Vec<u64>>,
}
impl Optimum {
    pub fn new(slots: usize, len: usize) -> Self {
        // One slot beyond the first state: walk from the first state to each.
        let mut best = vec![vec![]; slots + 1];
        best[1] = (0..=len as u64).map(|l| if l > 0 { l * (l - 1) / 2 } else { 0 }).collect();
        for c in 2..=slots {
            let mut row = vec![0; len + 1];
            for l in 2..=len {
                // advance k steps, hold that state, reverse the rest with a slot less, then the front
                let (mut b, mut arg) = (u64::MAX, 0);
                for k in 1..l {
                    let v = k as u64 + best[c - 1][l - k] + row[k];
                    if v < b {
                        b = v;
                        arg = k;
                    }
                }
                let _ = arg;
                row[l] = b;
            }
            best[c] = row;
        }
        Optimum { best }
    }
    pub fn get(&self, nsteps: usize, ncheckpoints: usize) -> u64 {
        self.best[ncheckpoints - 1][nsteps + 1]
    }
}

/// Closed form of the same minimum (binomial checkpointing), checked against the dynamic program
pub fn closed(nsteps: u64, ncheckpoints: u64) -> u64 {
    let (c, r) = (ncheckpoints as u128 - 1, nsteps as u128 + 1);
    if r <= 1 {
        return 0;
    }
    fn choose(n: u128, k: u128) -> u128 {
        let k = k.min(n - k);
        let mut v: u128 = 1;
        for i in 0..k {
            v = match v.checked_mul(n - i) {
                Some(w) => w / (i + 1),
                None => return u128::MAX,
            };
        }
        v
    }
    let beta = |c: u128, t: i128| if t < 0 { 0 } else { choose(c + t as u128, c) };
    let mut t: i128 = 0;
    while beta(c, t) < r {
        t += 1;
    }
    (t as u128 * r - beta(c + 1, t - 1)) as u64
}

/// The largest prefix the dynamic program and the closed form were compared on
pub fn check_closed(slots: usize, len: usize) -> Optimum {
    let o = Optimum::new(slots, len);
    for c in 2..=slots + 1 {
        for n in 0..len {
            assert_eq!(o.get(n, c), closed(n as u64, c as u64), "reference: {} steps, {} checkpoints", n, c);
        }
    }
    o
}

struct Seen {
    log: Rc<Log>,
    result: Result<(u64, u64), String>,
    optimum: u64,
}

fn reverse(n: u64, c: usize, key: u64, inner: Option<(What, u64, u64)>) -> Seen {
    let optimum = closed(n, c as u64);
    let log = Rc::new(Log {
        live: Default::default(),
        distinct: Cell::new(0),
        peak_calls: Cell::new(0),
        peak_ever: Cell::new(0),
        forwards: Cell::new(0),
        finals: Cell::new(0),
        reverses: Cell::new(0),
        budget: optimum * 8 + 200_000,
        fail: RefCell::new(None),
        key,
        last: Cell::new(None),
        steps: n,
        digest: Cell::new(0),
        inner: Cell::new(inner),
        inner_done: Cell::new(0),
        inner_fail: RefCell::new(None),
    });
    // the right states
    let mut datas = Vec::with_capacity(n as usize + 1);
    let mut d = hash_u64(key, 77);
    for i in 0..=n {
        datas.push(d);
        d = hash_u64(d, i);
    }
    let datas = Rc::new(datas);
    let s0 = State::make(0, datas[0], &log);
    let (l1, l2, l3) = (log.clone(), log.clone(), log.clone());
    let (d2, d3) = (datas.clone(), datas.clone());
    let result = attempt(|| {
        reverse_sequence(
            s0,
            n as usize,
            c,
            move |s: State| {
                l1.called();
                l1.forwards.set(l1.forwards.get() + 1);
                if l1.forwards.get() > l1.budget {
                    std::panic::panic_any(TooMuch);
                }
                if s.i >= l1.steps {
                    l1.complain("seq:beyond", format!("stepped forward from state {} of {}", s.i, l1.steps));
                }
                let next = (s.i + 1, hash_u64(s.data, s.i));
                let log = s.log.clone();
                drop(s);
                State::make(next.0, next.1, &log)
            },
            move |s: State, r: (u64, u64)| {
                l2.called();
                l2.reverses.set(l2.reverses.get() + 1);
                let want = l2.last.get();
                if want != Some(s.i + 1) {
                    l2.complain("seq:order", format!("reversed state {} after state {:?}", s.i, want));
                }
                if s.i as usize >= d2.len() || d2[s.i as usize] != s.data {
                    l2.complain("seq:state", format!("state {} arrived altered", s.i));
                }
                if r != (s.i + 1, l2.digest.get()) {
                    l2.complain("seq:result", format!("reversing state {} got the result {:?}, not that of the previous call {:?}", s.i, r, (s.i + 1, l2.digest.get())));
                }
                l2.last.set(Some(s.i));
                l2.digest.set(hash_u64(hash_u64(r.1, s.data), l2.key));
                (s.i, l2.digest.get())
            },
            move |s: State| {
                l3.called();
                l3.finals.set(l3.finals.get() + 1);
                if s.i != l3.steps || l3.last.get().is_some() {
                    l3.complain("seq:final", format!("final function called with state {} of {} after {:?}", s.i, l3.steps, l3.last.get()));
                }
                if s.i as usize >= d3.len() || d3[s.i as usize] != s.data {
                    l3.complain("seq:state", format!("state {} arrived altered at the final function", s.i));
                }
                l3.last.set(Some(s.i));
                l3.digest.set(hash_u64(s.data, l3.key));
                (s.i, l3.digest.get())
            },
        )
    });
    Seen { log, result, optimum }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum What {
    Order,
    Memory,
    Steps,
}

fn judge(what: What, n: u64, c: usize, key: u64, obs: &mut Obs) -> Res {
    judge_inside(what, n, c, key, obs, 0)
}

/// The same with further reversals run in its user functions
fn judge_inside(what: What, n: u64, c: usize, key: u64, obs: &mut Obs, depth: u64) -> Res {
    let s = reverse(n, c, key, (depth > 0).then_some((what, depth, 6)));
    let l = &s.log;
    obs.add("reversals inside user functions of others", l.inner_done.get());
    obs.add("reversals", 1);
    obs.add("forward calls", l.forwards.get());
    obs.add("reverse calls", l.reverses.get());
    obs.max("steps", n);
    obs.max("checkpoints", c as u64);
    let at = format!("{} steps with {} checkpoints", n, c);
    if let Some(f) = l.inner_fail.borrow().clone() {
        return Err(Fail { sig: f.sig, detail: format!("{}: {}", at, f.detail) });
    }
    match what {
        What::Order => {
            let r = match &s.result {
                Err(_) if l.forwards.get() > l.budget => fail!("seq:runaway", "{}: {} forward steps and no end (the least possible is {})", at, l.forwards.get(), s.optimum),
                Err(m) => fail!("panic:reverse_sequence", "{}: {}", at, m),
                Ok(r) => *r,
            };
            if let Some(f) = l.fail.borrow().clone() {
                return Err(Fail { sig: f.sig, detail: format!("{}: {}", at, f.detail) });
            }
            ensure!(l.finals.get() == 1, "seq:final", "{}: final function called {} times", at, l.finals.get());
            ensure!(l.reverses.get() == n, "seq:count", "{}: reverse function called {} times", at, l.reverses.get());
            ensure!(l.last.get() == Some(0), "seq:order", "{}: the last state reversed is {:?}", at, l.last.get());
            ensure!(r == (0, l.digest.get()), "seq:return", "{}: returned {:?}, the last call gave {:?}", at, r, (0, l.digest.get()));
        }
        What::Memory => {
            ensure!(l.peak_calls.get() <= c, "seq:held", "{}: {} distinct states alive during a call", at, l.peak_calls.get());
            ensure!(l.distinct.get() == 0, "seq:kept", "{}: {} states still alive afterwards", at, l.distinct.get());
            if let Err(m) = &s.result {
                fail!("panic:reverse_sequence", "{}: {}", at, m);
            }
            obs.max("states alive at a call", l.peak_calls.get() as u64);
            obs.max("states alive at any time", l.peak_ever.get() as u64);
            obs.add("reversals that used every checkpoint", (l.peak_calls.get() == c) as u64);
        }
        What::Steps => {
            if let (Err(m), true) = (&s.result, l.forwards.get() <= l.budget) {
                fail!("panic:reverse_sequence", "{}: {}", at, m);
            }
            ensure!(l.forwards.get() == s.optimum, "seq:optimum", "{}: {} forward steps{}, the least possible is {}", at, l.forwards.get(), if s.result.is_err() { " and no end" } else { "" }, s.optimum);
            ensure!(c as u64 <= n || l.forwards.get() == n, "seq:once", "{}: {} forward steps with room for every state", at, l.forwards.get());
            obs.add("reversals with room for every state", (c as u64 > n) as u64);
        }
    }
    Ok(())
}

fn random_pair(rng: &mut Rng, thorough: bool) -> (u64, usize) {
    let top: u64 = if thorough { 60_000 } else { 6_000 };
    loop {
        let large = rng.chance(0.02);
        let top = if large { top * 40 } else { top };
        let c = match rng.below(6) {
            0..=3 if large => rng.range(300, 3000),
            0 => 2,
            1 => 3,
            2 => rng.range(4, 9),
            3 => rng.range(10, 60),
            4 => rng.range(60, 800),
            _ => rng.range(2, 24),
        };
        let n = match rng.below(5) {
            // binomial boundaries
            0 | 1 => {
                let t = rng.range(1, 14) as u64;
                let mut b: u64 = 1;
                for i in 0..(c as u64 - 1).min(t) {
                    b = b * (c as u64 - 1 + t - i) / (i + 1);
                    if b > 1 << 40 {
                        break;
                    }
                }
                (b + rng.below(5) as u64).saturating_sub(3)
            }
            2 => (c as u64 + rng.below(5) as u64).saturating_sub(3),
            3 => rng.below(300) as u64,
            _ => rng.below(top as usize) as u64,
        };
        if n > top {
            continue;
        }
        let work = closed(n, c as u64);
        if work < if thorough { 6_000_000 } else { 500_000 } {
            return (n, c);
        }
    }
}

fn run_all(run: &Run, what: What, rule: &str) -> i32 {
    let (gn, gc) = if run.quick() { (90u64, 24usize) } else { (420, 70) };
    // reference against reference
    let _ = check_closed(if run.quick() { 24 } else { 40 }, if run.quick() { 300 } else { 900 });
    // every pair up to a bound: one case per number of checkpoints
    run.cases(0, gc as u64 - 1, 8, |case, _rng, obs| {
        let c = case as usize + 2;
        for n in 0..=gn {
            if closed(n, c as u64) < 200_000 {
                judge(what, n, c, hash_u64(n, c as u64), obs)?;
            }
        }
        obs.mark(&format!("every number of steps from 0 to {} with {} checkpoints", gn, c));
        Ok(())
    });
    // every small pair around "as many checkpoints as states"
    run.cases(1 << 20, 4, 4, |case, _rng, obs| {
        let k = case - (1 << 20);
        for n in 0..=gn {
            for d in 0..6u64 {
                let c = (n + 1 + d + k * 6) as i64 - 9;
                if c >= 2 {
                    judge(what, n, c as usize, n, obs)?;
                }
            }
        }
        obs.mark(&format!("checkpoints close to the number of states, part {}", k));
        Ok(())
    });
    // far more checkpoints than states, up to "no limit"
    run.cases(1 << 21, 8, 4, |case, _rng, obs| {
        let k = case - (1 << 21);
        let c = [usize::MAX, usize::MAX - 1, usize::MAX / 2, isize::MAX as usize, usize::MAX / 64, 1 << 20, 1 << 16, 1000][k as usize];
        for n in [0, 1, 2, 3, 7, 20, 90] {
            judge(what, n, c, n, obs)?;
        }
        obs.mark(&format!("{} checkpoints", c));
        Ok(())
    });
    // many checkpoints, about as many steps
    run.cases(1 << 22, run.pick(8, 32), 8, |case, rng, obs| {
        let k = case - (1 << 22);
        let c = [65_534usize, 65_535, 65_536, 65_537, 32_768, 40_000, 20_000, 50_000][k as usize % 8] + if k >= 8 { rng.below(3000) } else { 0 };
        let n = (c as u64 + [0, 1, 2, 5, 3, 9, 30_000, 700][(k as usize + k as usize / 8) % 8]).saturating_sub(2);
        judge(what, n, c, n, obs)?;
        obs.mark(&format!("{} steps with {} checkpoints", n, c));
        Ok(())
    });
    // so many that counting schedules leaves 32 bits
    run.cases(1 << 23, run.pick(4, 24), 8, |case, rng, obs| {
        let c = [92_700usize, 130_000, 100_000, 66_000][case as usize % 4] + rng.below(2000);
        let n = c as u64 + 1 + [40_000, 3, 0, 150_000][(case / 4 + case) as usize % 4] + rng.below(1000) as u64;
        judge(what, n, c, n, obs)?;
        obs.mark(&format!("{} steps with {} checkpoints", n, c));
        Ok(())
    });
    // reversals whose user functions run reversals themselves, up to three deep
    run.cases((1 << 24) - (1 << 20), run.pick(600, 20_000), 8, |_case, rng, obs| {
        let (n, c) = (rng.below(120) as u64, rng.range(2, 12));
        let depth = 1 + rng.below(3) as u64;
        obs.mark(&format!("{} steps with {} checkpoints and others inside, {} deep", n, c, depth));
        judge_inside(what, n, c, rng.u64(), obs, depth)
    });
    let thorough = !run.quick();
    let n = run.pick(3000, 40_000);
    run.cases(1 << 24, n, 8, |_case, rng, obs| {
        let (n, c) = random_pair(rng, thorough);
        obs.mark(&format!("{} steps with {} checkpoints", n, c));
        judge(what, n, c, rng.u64(), obs)
    });
    run.finish(rule)
}

pub fn p16(run: &Run) -> i32 {
    run_all(run, What::Order, "every number of steps and checkpoints up to a bound, then random pairs of which many sit on binomial boundaries; states carry their position and a hash of the whole way to them, results a hash of the calls so far, so that every call is checked for position, data and the previous result. Non-trivial: every reversal; calls counted")
}
pub fn p17(run: &Run) -> i32 {
    run_all(run, What::Memory, "the same reversals with states that count their copies and drops; distinct positions alive are read at the start of every call of a user function, and after the end. Non-trivial: every reversal")
}
pub fn p18(run: &Run) -> i32 {
    run_all(run, What::Steps, "the same reversals with forward steps counted, against the least number any schedule needs: a dynamic program over all schedules, and its closed form (compared with it in every run) beyond. Non-trivial: every reversal")
}
