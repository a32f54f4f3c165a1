//! Memory kept after everything made is gone: P28.
use crate::prog::*;
use crate::report::*;
use crate::rng::Rng;
use crate::util::*;
use advantage::drivers::*;
use advantage::{ADouble, AContext, AFloat, DMatrix, DVector, Function, FunctionChain, Tape};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::Relaxed};

type AD = AFloat<f64>;

/// Counts what is allocated and not freed while switched on
pub struct Counting;
static ON: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicI64 = AtomicI64::new(0);
static ALLOCS: AtomicU64 = AtomicU64::new(0);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ON.load(Relaxed) {
            LIVE.fetch_add(l.size() as i64, Relaxed);
            ALLOCS.fetch_add(1, Relaxed);
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if ON.load(Relaxed) {
            LIVE.fetch_add(l.size() as i64, Relaxed);
            ALLOCS.fetch_add(1, Relaxed);
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.load(Relaxed) {
            LIVE.fetch_sub(l.size() as i64, Relaxed);
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if ON.load(Relaxed) {
            LIVE.fetch_add(n as i64 - l.size() as i64, Relaxed);
            ALLOCS.fetch_add(1, Relaxed);
        }
        System.realloc(p, l, n)
    }
}

/// Sizes stay the same over the repetitions of a case, contents do not
struct Plan {
    n: usize,
    ops: usize,
    m: usize,
    k: usize,
    style: u64,
}

fn smooth(rng: &mut Rng, p: &Plan) -> (Prog, Vec<f64>) {
    let cfg = Cfg { n: p.n, ops: p.ops, m: p.m, smooth: true, abs_only: false, kink_p: 0.0, points: 1, special: 0.2, plain: true };
    let (q, pts) = gen(rng, &cfg);
    (q, pts[0].clone())
}

fn kinked(rng: &mut Rng, p: &Plan) -> (Prog, Vec<f64>) {
    let cfg = Cfg { n: p.n, ops: p.ops, m: p.m, smooth: false, abs_only: true, kink_p: 0.25, points: 1, special: 0.2, plain: true };
    let (q, pts) = gen(rng, &cfg);
    (q, pts[0].clone())
}

/// Gives up in the middle of its evaluation
struct GivesUp {
    p: Prog,
    at: usize,
    calls: AtomicUsize,
    good_calls: usize,
}
impl Function for GivesUp {
    fn n(&self) -> usize {
        self.p.n
    }
    fn m(&self) -> usize {
        self.p.m()
    }
    fn eval(&self, x: DVector<ADouble>) -> DVector<ADouble> {
        let good = self.calls.fetch_add(1, Relaxed) < self.good_calls;
        let mut v: Vec<AD> = vec![];
        for (i, node) in self.p.nodes.iter().enumerate() {
            if !good && i == self.at {
                panic!("this function gives up");
            }
            v.push(step(node, x.as_slice(), &v));
        }
        if !good {
            panic!("this function gives up at the end");
        }
        DVector::from_vec(self.p.outs.iter().map(|o| v[*o]).collect())
    }
}

fn record_on(ctx: &mut AContext, q: &Prog, x: &[f64]) -> Vec<AD> {
    let mut xs: Vec<AD> = x.iter().map(|v| AD::from(*v)).collect();
    for a in xs.iter_mut() {
        ctx.set_indep(a);
    }
    let y = q.eval(&xs);
    for a in &y {
        ctx.set_dep(a);
    }
    y
}

fn contexts(rng: &mut Rng, p: &Plan) {
    let mut ctxs: Vec<AContext> = vec![];
    let mut vars: Vec<AD> = vec![];
    let mut ids = vec![];
    for _ in 0..p.k {
        let (q, x) = kinked(rng, p);
        let mut c = AContext::new();
        vars.extend(record_on(&mut c, &q, &x));
        ids.push(c.cid());
        if rng.chance(0.5) {
            ctxs.push(AContext::from_cid(c.cid()).unwrap());
        }
        if let Some(other) = AContext::from_cid(ids[rng.below(ids.len())]) {
            ctxs.push(other);
        }
        ctxs.push(c);
        if rng.chance(0.3) {
            let i = rng.below(ctxs.len());
            ctxs.swap_remove(i);
        }
    }
    let mut tapes: Vec<Box<dyn Tape>> = vec![];
    while !ctxs.is_empty() {
        let i = rng.below(ctxs.len());
        if rng.chance(0.3) {
            tapes.push(Box::new(ctxs[i].tape()));
        }
        ctxs.swap_remove(i);
        // what is left is used
        for _ in 0..3 {
            if !vars.is_empty() {
                let a = vars[rng.below(vars.len())];
                let b = a * a + 1.0;
                let _ = num::Float::sin(b);
                if AContext::from_cid(ids[rng.below(ids.len())]).is_some() {
                    vars.push(b);
                }
            }
        }
    }
    for id in ids {
        let _ = AContext::from_cid(id);
        let _ = AContext::from_cid(id + 1_000_000 + rng.below(1 << 40));
    }
}

fn tapes(rng: &mut Rng, p: &Plan) {
    let (q, x) = kinked(rng, p);
    let (s, xs) = smooth(rng, p);
    let mut t = tape_some(&q, &x, p.style).unwrap_or_else(|e| panic!("{}", e.detail));
    let mut u = tape_of(&s, &xs).unwrap_or_else(|e| panic!("{}", e.detail));
    for _ in 0..3 {
        let x = DVector::from_fn(p.n, |_, _| nice(rng, 0.2));
        let _ = t.zero_order(&x);
        let _ = u.zero_order(&x);
        let _ = u.first_order_forward(&x);
        let _ = t.first_order_forward(&x);
        let _ = u.first_order_reverse(&DVector::from_fn(p.m, |_, _| nice(rng, 0.2)));
        let _ = (t.x(), t.y(), u.x(), u.y(), t.num_abs());
    }
    let mut c = AContext::new();
    let _ = record_on(&mut c, &q, &x);
    let a = c.tape();
    let b = a.clone();
    let _ = (a.y(), b.x(), c.operations(), c.values(), c.indeps(), c.deps());
}

fn drivers(rng: &mut Rng, p: &Plan) {
    let (q, x) = smooth(rng, p);
    let f = ProgFn::new(q);
    let x = dv(&x);
    let _ = jacobian_forward(&f, &x);
    let t = f.tape(&x);
    let _ = jacobian_reverse(&*t);
    let _ = f.eval_float(x);
}

fn forms(rng: &mut Rng, p: &Plan) {
    let (q, x) = kinked(rng, p);
    let f = ProgFn::new(q);
    let x = dv(&x);
    let dx = DVector::from_fn(p.n, |_, _| nice(rng, 0.3));
    let _ = abs_normal(&f, &x);
    let signs: Vec<u8> = (0..p.k).map(|_| rng.below(256) as u8).collect();
    let g = generalized_jacobian(&f, &x, &dx, &signs, None);
    let id = GeneralizedJacobian { homogenous: DMatrix::identity(p.m, p.m), inhomogenous: DVector::zeros(p.m), multiplicity: g.multiplicity };
    let _ = generalized_jacobian_tape(f.tape(&x), &dx, &signs, Some(id));
    let mut t = AbsNormalTape::new(f.tape(&x));
    {
        let (zt, jt, lt, yt) = (AbsNormalZ::new(&t), AbsNormalJ::new(&t), AbsNormalL::new(&t), AbsNormalY::new(&t));
        let r = DMatrix::from_fn(p.n, p.k, |_, _| nice(rng, 0.2));
        let _ = (zt.mul_right(&r), jt.mul_right(&r));
        if t.s() > 0 {
            let _ = (lt.row(0), lt.column(0), yt.column(t.s() - 1));
        }
        let _ = jt.mul_left(&DMatrix::from_fn(p.k, p.m, |_, _| nice(rng, 0.2)));
    }
    let s = t.s();
    let xz = DVector::from_fn(p.n + s, |_, _| nice(rng, 0.2));
    let _ = t.zero_order(&xz);
    let _ = (t.x(), t.y(), t.z());
}

fn chains(rng: &mut Rng, p: &Plan) {
    let same = Plan { n: p.n, ops: p.ops, m: p.n, k: p.k, style: 0 };
    let mut chain = FunctionChain::new(ProgFn::new(kinked(rng, &same).0));
    for _ in 0..p.k {
        let q = ProgFn::new(kinked(rng, &same).0);
        if rng.chance(0.5) {
            chain.append(q);
        } else {
            chain.append_boxed(Box::new(FunctionChain::from_boxed(Box::new(q))));
        }
    }
    let x = DVector::from_fn(p.n, |_, _| nice(rng, 0.3));
    let _ = chain.eval_float(x.clone());
    let _ = chain.tape(&x);
    let dx = DVector::from_fn(p.n, |_, _| nice(rng, 0.3));
    let _ = generalized_jacobian_chain(&chain, x, dx, Some(rng.range(2, p.k + 4)).filter(|c| c % 2 == 0));
    let _ = chain.iter().count();
    let bad = Plan { n: p.n + 1, ops: p.ops, m: p.m, k: 0, style: 0 };
    let _ = attempt(|| chain.append(ProgFn::new(kinked(rng, &bad).0)));
}

fn sequences(rng: &mut Rng, p: &Plan) {
    let steps = p.ops;
    let c = rng.range(2, p.k + 4);
    let stop = if rng.chance(0.5) { usize::MAX } else { rng.below(4 * steps + 2) };
    let calls = AtomicUsize::new(0);
    let tick = || {
        if calls.fetch_add(1, Relaxed) == stop {
            panic!("this sequence gives up");
        }
    };
    let fill = rng.u64();
    let _ = attempt(|| {
        reverse_sequence(
            vec![fill; p.n + 1],
            steps,
            c,
            |mut s: Vec<u64>| {
                tick();
                s[0] = s[0].wrapping_add(1);
                s
            },
            |s: Vec<u64>, r: Vec<u64>| {
                tick();
                vec![s[0] ^ r[0]; 3]
            },
            |s: Vec<u64>| {
                tick();
                s
            },
        )
    });
}

fn refusals(rng: &mut Rng, p: &Plan) {
    let (q, x) = kinked(rng, p);
    let (mut a, mut b) = (AContext::new(), AContext::new());
    let ya = record_on(&mut a, &q, &x);
    let yb = record_on(&mut b, &q, &x);
    let (i, j) = (rng.below(ya.len().max(1)), rng.below(yb.len().max(1)));
    let (u, v) = (a.new_indep(1.5), b.new_indep(rng.unit()));
    let _ = attempt(|| u + v);
    let _ = attempt(|| num::Float::max(u, v));
    let _ = attempt(|| a.set_dep(&v));
    if !ya.is_empty() {
        let _ = attempt(|| ya[i] * yb[j]);
        let _ = attempt(|| b.set_dep(&ya[i]));
    }
    let mut t = a.tape();
    let _ = attempt(|| t.zero_order(&DVector::zeros(p.n + 7)));
    let _ = attempt(|| t.first_order_forward(&DVector::zeros(p.n + 7)));
    let _ = attempt(|| t.first_order_reverse(&DVector::from_element(p.m, 1.0)));
    let f = ProgFn::new(q);
    let x = dv(&x);
    let _ = attempt(|| jacobian_reverse(&*f.tape(&x)));
    let _ = attempt(|| jacobian_forward(&f, &DVector::zeros(p.n + 1)));
    let _ = attempt(|| generalized_jacobian(&f, &x, &DVector::zeros(p.n + 1), &[], None));
    let n = AbsNormalTape::new(f.tape(&x));
    let _ = attempt(|| AbsNormalJ::new(&n).mul_right(&DMatrix::<f64>::zeros(p.n + 2, 2)));
    let _ = attempt(|| AbsNormalZ::new(&n).mul_left(&DMatrix::<f64>::zeros(2, n.s() + 1)));
    let _ = attempt(|| reverse_sequence(vec![1u8; 40], 3, 1, |s| s, |_, r| r, |s| s));
    if rng.chance(0.5) {
        drop(a);
        let _ = attempt(|| u + v);
    }
}

fn threads(rng: &mut Rng, p: &Plan) {
    let (tx, rx) = std::sync::mpsc::channel::<(AContext, Vec<AD>)>();
    let mut hs = vec![];
    for _ in 0..p.k.min(3) {
        let tx = tx.clone();
        let (q, x) = kinked(rng, p);
        let give = rng.chance(0.5);
        let die = rng.chance(0.2);
        hs.push(std::thread::spawn(move || {
            let mut c = AContext::new();
            let y = record_on(&mut c, &q, &x);
            let t = c.tape();
            let _ = t.y();
            let _ = AContext::from_cid(c.cid() + 100_000);
            if give {
                let _ = tx.send((c, y));
            }
            if die {
                let _ = attempt(|| panic!("this thread gives up"));
                std::panic::resume_unwind(Box::new(1u8));
            }
        }));
    }
    drop(tx);
    let h = std::thread::spawn(move || {
        for (mut c, y) in rx {
            let w: AD = y.iter().fold(AD::from(0.0), |a, b| a + *b);
            c.set_dep(&w);
            drop(c);
            let _ = w + 1.0;
        }
    });
    for t in hs {
        let _ = t.join();
    }
    let _ = h.join();
}

fn giving_up(rng: &mut Rng, p: &Plan) {
    let (q, x) = smooth(rng, p);
    let at = rng.below(q.nodes.len() + 1);
    let mk = |good_calls| GivesUp { p: q.clone(), at, calls: AtomicUsize::new(0), good_calls };
    let x0 = dv(&x);
    let _ = attempt(|| mk(0).tape(&x0));
    let _ = attempt(|| jacobian_forward(&mk(rng.below(p.n + 1)), &x0));
    let _ = attempt(|| abs_normal(&mk(0), &x0));
    let _ = attempt(|| generalized_jacobian(&mk(0), &x0, &x0, &[], None));
    let mut c = AContext::new();
    let _ = attempt(|| {
        let _ = record_on(&mut c, &q, &x);
        if at % 2 == 0 {
            panic!("this function gives up");
        }
        c.record(advantage::OpCode::Sin, x[0], Some(0), None)
    });
    let _ = c.tape();
    // both parts of a chain
    let n = p.n;
    let square = Plan { n, ops: p.ops, m: n, k: 0, style: 0 };
    let (q, _) = kinked(rng, &square);
    let mut chain = FunctionChain::new(ProgFn::new(q.clone()));
    chain.append(GivesUp { p: q, at, calls: AtomicUsize::new(0), good_calls: rng.below(3) });
    let _ = attempt(|| generalized_jacobian_chain(&chain, x0.clone(), x0.clone(), Some(2)));
    let _ = attempt(|| chain.eval_float(x0.clone()));
}

/// Windows of 16, 32, 64, ... repetitions; memory that grows by a byte or more per repetition in all
/// of them is retained, buffers and bounded caches do not grow for ever.
const WINDOWS: u32 = 9;

pub fn p28(run: &Run) -> i32 {
    ON.store(true, Relaxed);
    let kinds: [(&'static str, fn(&mut Rng, &Plan)); 10] = [
        ("recordings dropped in any order, leftover variables, lookups of dead ids", contexts),
        ("tapes replayed, swept and copied", tapes),
        ("Jacobians", drivers),
        ("abs-normal forms and generalized Jacobians", forms),
        ("function chains", chains),
        ("checkpointed reversals, finished and given up", sequences),
        ("refused requests", refusals),
        ("threads that record and end", threads),
        ("functions that give up", giving_up),
        ("everything", |rng, p| {
            contexts(rng, p);
            forms(rng, p);
            refusals(rng, p);
            sequences(rng, p);
        }),
    ];
    let n = run.pick(1_000, 12_000);
    run.cases(0, n, 1, |case, rng, obs| {
        let (what, f) = kinds[(case % kinds.len() as u64) as usize];
        let small = rng.chance(0.5);
        let p = Plan { n: rng.range(1, 4), ops: if small { rng.range(2, 8) } else { rng.range(8, 40) }, m: rng.range(1, 4), k: rng.range(1, 4), style: rng.u64() };
        obs.mark(&format!("{}: {} arguments, {} operations, {} results, {} objects, style {}", what, p.n, p.ops, p.m, p.k, p.style));
        let seed = rng.u64();
        let mut rep = 0u64;
        let mut go = |k: u64| -> i64 {
            let before = LIVE.load(Relaxed);
            for _ in 0..k {
                f(&mut Rng::new(crate::rng::hash_u64(seed, rep)), &p);
                rep += 1;
            }
            LIVE.load(Relaxed) - before
        };
        let a0 = ALLOCS.load(Relaxed);
        go(if case < 40 { 16 } else { 6 });
        let mut grown = vec![];
        for w in 0..WINDOWS {
            let k = 16u64 << w;
            let g = go(k);
            if g < k as i64 {
                break;
            }
            grown.push((k, g));
        }
        obs.add("repetitions", rep);
        obs.add("allocations followed", ALLOCS.load(Relaxed) - a0);
        obs.max("longest run of growing windows", grown.len() as u64);
        ensure!(grown.len() < WINDOWS as usize, format!("retained:{}", case % kinds.len() as u64), "{}: every repetition leaves memory behind although all its objects are gone: {} bytes more after {:?} (repetitions, bytes)", what, grown.iter().map(|g| g.1).sum::<i64>(), grown);
        Ok(())
    });
    ON.store(false, Relaxed);
    run.finish("workloads of ten kinds (recordings and handles dropped in any order, tapes, every driver, chains, checkpointed reversals finished and given up, refusals, threads that end, user functions that panic) repeated with fixed sizes and fresh contents while every allocation and release in the process is counted; a violation is growth in every one of nine windows of doubling length. Distinct: sizes and kinds")
}
