//! P06 Jacobian drivers, P25 parallel drivers.
use crate::prog::*;
use crate::refs;
use crate::report::*;
use crate::rng::{hash_u64, Rng};
use crate::util::*;
use advantage::drivers::*;
use advantage::{DMatrix, Function, FunctionChain, Tape};
use std::sync::atomic::Ordering;

/// True Jacobian with error bounds, column by column from the chain rule
fn reference(p: &Prog, x: &[f64]) -> Result<(DMatrix<f64>, DMatrix<f64>), Fail> {
    let vals = ad_values(p, x)?;
    let mut j = DMatrix::zeros(p.m(), p.n);
    let mut b = DMatrix::zeros(p.m(), p.n);
    for c in 0..p.n {
        let mut e = vec![0.0; p.n];
        e[c] = 1.0;
        let (d, err) = refs::forward(p, &vals, &e);
        for (i, o) in p.outs.iter().enumerate() {
            j[(i, c)] = d[*o];
            b[(i, c)] = err[*o];
        }
    }
    Ok((j, b))
}

pub fn p06(run: &Run) -> i32 {
    let n = run.pick(40_000, 800_000);
    run.cases_and_large(n, run.pick(40, 800), 8, |case, rng, obs| {
        let large = (case >= LARGE).then(|| (case - LARGE) % 5);
        let (nn, ops, m) = match rng.below(30) {
            _ if large == Some(0) => (rng.range(257, 700), rng.range(200, 900), rng.range(1, 4)),
            _ if large == Some(1) => (rng.range(1, 4), rng.range(200, 900), rng.range(257, 700)),
            _ if large == Some(2) => (rng.range(257, 330), rng.range(200, 900), rng.range(257, 330)),
            _ if large == Some(3) => (rng.range(1025, 1300), rng.range(1000, 2000), rng.range(1, 9)),
            _ if large == Some(4) => (rng.range(1, 6), rng.range(1000, 2000), rng.range(1025, 1300)),
            0 => (rng.range(50, 150), rng.range(20, 200), rng.range(1, 4)),
            1 => (rng.range(1, 4), rng.range(20, 200), rng.range(50, 150)),
            2 => (rng.range(30, 80), rng.range(20, 200), rng.range(30, 80)),
            3 => (rng.range(1, 5), rng.range(1, 10), 0),
            4 => (0, rng.range(0, 4), rng.range(0, 3)),
            5 => (1, rng.range(1, 30), 1),
            // arguments handed through, in any order and number
            6 => (rng.range(1, 6), 0, rng.range(1, 6)),
            _ => (rng.range(1, 9), rng.range(3, 50), rng.range(1, 9)),
        };
        let cfg = Cfg { n: nn, ops, m, smooth: true, abs_only: false, kink_p: 0.0, points: 2, special: 0.2, plain: false };
        let (p, pts) = gen(rng, &cfg);
        obs.mark(&p.text(&pts[0]));
        let (want, err) = reference(&p, &pts[0])?;
        let f = ProgFn::new(p.clone());
        let x = dv(&pts[0]);
        let fw = lib("jacobian_forward", || jacobian_forward(&f, &x))?;
        mat_close(&fw, &want, &err, 2.0, "jacobian:forward", "forward Jacobian")?;
        // on the recording made here, or moved here
        let style = if rng.chance(0.5) { 0 } else { rng.u64() };
        let mut t = tape_some(&p, &pts[if rng.chance(0.5) { 0 } else { 1 }], style)?;
        lib("zero_order", || t.zero_order(&x))?;
        let rv = lib("jacobian_reverse", || jacobian_reverse(&*t))?;
        // bounds from the adjoint sums
        let vals = ad_values(&p, &pts[0])?;
        let mut rb = DMatrix::zeros(p.m(), p.n);
        for i in 0..p.m() {
            let mut w = vec![0.0; p.m()];
            w[i] = 1.0;
            let (b, a) = refs::reverse(&p, &vals, &w);
            for j in 0..p.n {
                rb[(i, j)] = 1e-9 * a[j] + err[(i, j)];
                let _ = b;
            }
        }
        mat_close(&rv, &want, &rb, 2.0, "jacobian:reverse", "reverse Jacobian")?;
        mat_close(&fw, &rv, &rb, 4.0, "jacobian:agree", "forward against reverse Jacobian")?;
        obs.add("Jacobian entries compared", 2 * (p.n * p.m()) as u64);
        obs.max("rows", p.m() as u64);
        obs.max("columns", p.n as u64);
        Ok(())
    });
    run.finish("smooth random programs of all shapes (no, one and up to 150 rows and columns), both drivers against the analytic Jacobian with error bounds and against each other, tapes recorded here or moved here. Non-trivial: every program; entries counted")
}

// ------------------------------------------------------------ P25

struct Job {
    p: Prog,
    x: Vec<f64>,
    dx: Vec<f64>,
    left: DMatrix<f64>,
    right: DMatrix<f64>,
    chain: Vec<Prog>,
    smooth: bool,
    ncp: Option<usize>,
}

fn randm(rng: &mut Rng, r: usize, c: usize) -> DMatrix<f64> {
    DMatrix::from_fn(r, c, |_, _| nice(rng, 0.3))
}

fn job(rng: &mut Rng, large: bool) -> Job {
    let smooth = rng.chance(0.4);
    let big = rng.chance(0.3);
    let (nn, ops, m) = if large { (rng.range(60, 600), rng.range(100, 400), rng.range(60, 300)) } else { (rng.range(1, if big { 40 } else { 9 }), rng.range(3, 50), rng.range(1, if big { 40 } else { 9 })) };
    let cfg = Cfg { n: nn, ops, m, smooth, abs_only: true, kink_p: 0.3, points: 1, special: 0.2, plain: false };
    let (p, pts) = gen(rng, &cfg);
    let dx = (0..p.n).map(|_| nice(rng, 0.3)).collect();
    let mut x = pts[0].clone();
    // also where nothing has a derivative
    if rng.chance(0.15) && !x.is_empty() {
        let i = rng.below(x.len());
        x[i] = *rng.pick(&[f64::NAN, f64::INFINITY, -1e300, 0.0]);
    }
    let k = if large { rng.range(65, 400) } else { rng.range(1, 20) };
    let mut chain = vec![];
    let mut n = p.n;
    for _ in 0..rng.range(1, 5) {
        let (ops, m) = (rng.range(2, 12), rng.range(1, 5));
        let q = gen_dyadic(rng, n, ops, m, 0.3, false);
        n = q.m();
        chain.push(q);
    }
    let (m, nn) = (p.m(), p.n);
    let (left, right) = (randm(rng, k, m), randm(rng, nn, k));
    let ncp = if rng.chance(0.4) { None } else { Some(rng.range(2, 6)) };
    Job { p, x, dx, left, right, chain, smooth, ncp }
}

/// Every parallel driver on this job, slowed down by `key`; bits of all results
fn drive(j: &Job, key: u64, obs: Option<&mut Obs>) -> Result<Vec<Vec<u64>>, Fail> {
    let mut f = ProgFn::new(j.p.clone());
    f.delay = key;
    let x = dv(&j.x);
    let dx = dv(&j.dx);
    let mut out = vec![];
    let fw = lib("jacobian_forward", || jacobian_forward(&f, &x))?;
    let calls = f.calls.load(Ordering::SeqCst);
    ensure!(calls == j.p.n, "parallel:calls", "the forward driver evaluated a function of {} arguments {} times", j.p.n, calls);
    // every column is what that column alone gives
    for c in 0..j.p.n {
        let mut e = vec![0.0; j.p.n];
        e[c] = 1.0;
        let col = tapeless(&j.p, &j.x, &e)?;
        for (i, o) in j.p.outs.iter().enumerate() {
            ensure!(refs::same(fw[(i, c)], col[*o].dvalue()), "parallel:place", "entry ({},{}) of the forward Jacobian is {:e} but that column gives {:e}", i, c, fw[(i, c)], col[*o].dvalue());
        }
    }
    out.push(bits(fw.as_slice()));
    let raw = lib("record", || f.tape(&x))?;
    let slow = SlowTape::new(raw, key);
    if j.smooth {
        let rv = lib("jacobian_reverse", || jacobian_reverse(&slow))?;
        for i in 0..j.p.m() {
            let mut e = vec![0.0; j.p.m()];
            e[i] = 1.0;
            let row = slow.inner.first_order_reverse(&dv(&e));
            for c in 0..j.p.n {
                ensure!(refs::same(rv[(i, c)], row[c]), "parallel:place", "entry ({},{}) of the reverse Jacobian is {:e} but that row gives {:e}", i, c, rv[(i, c)], row[c]);
            }
        }
        out.push(bits(rv.as_slice()));
    }
    let at = AbsNormalTape::new(Box::new(slow));
    let (m, n, s) = (at.m(), at.n(), at.s());
    let (zt, lt, jt, yt) = (AbsNormalZ::new(&at), AbsNormalL::new(&at), AbsNormalJ::new(&at), AbsNormalY::new(&at));
    let jr = lib("J.mul_right", || jt.mul_right(&j.right))?;
    let jl = lib("J.mul_left", || jt.mul_left(&j.left))?;
    for c in 0..jr.ncols() {
        let col = jt.first_order_forward(&dv(j.right.column(c).as_slice()));
        for i in 0..m {
            ensure!(refs::same(jr[(i, c)], col[i]), "parallel:place", "entry ({},{}) of a product is {:e} but that column gives {:e}", i, c, jr[(i, c)], col[i]);
        }
    }
    for r in 0..jl.nrows() {
        let row: Vec<f64> = j.left.row(r).iter().copied().collect();
        let row = jt.first_order_reverse(&dv(&row));
        for c in 0..n {
            ensure!(refs::same(jl[(r, c)], row[c]), "parallel:place", "entry ({},{}) of a product is {:e} but that row gives {:e}", r, c, jl[(r, c)], row[c]);
        }
    }
    out.push(bits(jr.as_slice()));
    out.push(bits(jl.as_slice()));
    out.push(mbits(&lib("Y.mul_left", || yt.mul_left(&j.left))?).2);
    out.push(mbits(&lib("Z.mul_right", || zt.mul_right(&j.right))?).2);
    out.push(mbits(&lib("L.mul_left", || lt.mul_left(&DMatrix::identity(s, s)))?).2);
    let a = lib("abs_normal", || abs_normal(&f, &x))?;
    out.push(bits(&[a.a.as_slice(), a.zmat.as_slice(), a.lmat.as_slice(), a.b.as_slice(), a.jmat.as_slice(), a.ymat.as_slice()].concat()));
    let g = lib("generalized_jacobian", || generalized_jacobian(&f, &x, &dx, &[0b0110_1001], None))?;
    out.push(bits(&[g.homogenous.as_slice(), g.inhomogenous.as_slice(), &[g.multiplicity as f64]].concat()));
    let mk = |q: &Prog| {
        let mut f = ProgFn::new(q.clone());
        f.delay = key;
        f
    };
    let mut chain = FunctionChain::new(mk(&j.chain[0]));
    for q in &j.chain[1..] {
        chain.append(mk(q));
    }
    let xr = x.map(|v| (v * 8.0).round().clamp(-32.0, 32.0) / 8.0);
    let dxr = dx.map(|v| (v * 8.0).round().clamp(-32.0, 32.0) / 8.0);
    let g = lib("generalized_jacobian_chain", || generalized_jacobian_chain(&chain, xr, dxr, j.ncp))?;
    out.push(bits(&[g.homogenous.as_slice(), g.inhomogenous.as_slice(), &[g.multiplicity as f64]].concat()));
    if let Some(obs) = obs {
        obs.add("columns and rows checked in place", (j.p.n + jr.ncols() + jl.nrows()) as u64);
    }
    Ok(out)
}

/// Every driver on a small function of its own, bits of all results
fn inside(f: &ProgFn, x: &[f64], dx: &[f64], ncp: usize) -> Vec<u64> {
    let (n, m) = (f.n(), f.m());
    let (x, dx) = (dv(x), dv(dx));
    let mut out = bits(jacobian_forward(f, &x).as_slice());
    let k = AbsNormalTape::new(f.tape(&x));
    out.extend(bits(AbsNormalJ::new(&k).mul_right(&DMatrix::<f64>::identity(n, n)).as_slice()));
    out.extend(bits(AbsNormalY::new(&k).mul_left(&DMatrix::<f64>::identity(m, m)).as_slice()));
    out.extend(bits(jacobian_reverse(&AbsNormalJ::new(&k)).as_slice()));
    let a = abs_normal(f, &x);
    out.extend(bits(&[a.a.as_slice(), a.zmat.as_slice(), a.lmat.as_slice(), a.b.as_slice(), a.jmat.as_slice(), a.ymat.as_slice()].concat()));
    let g = generalized_jacobian(f, &x, &dx, &[0b0101_1010], None);
    out.extend(bits(&[g.homogenous.as_slice(), g.inhomogenous.as_slice(), &[g.multiplicity as f64]].concat()));
    if n == m {
        let mut chain = FunctionChain::new(f.clone());
        chain.append(f.clone());
        chain.append(f.clone());
        let g = generalized_jacobian_chain(&chain, x, dx, Some(ncp));
        out.extend(bits(&[g.homogenous.as_slice(), g.inhomogenous.as_slice(), &[g.multiplicity as f64]].concat()));
    }
    out.push(reverse_sequence(1u64, 9, ncp, |x| x.wrapping_mul(7) + 3, |x, r: u64| r.wrapping_mul(31) ^ x, |x| x));
    out
}

/// A function that itself calls the drivers, on another function of other dimensions, in the middle of its evaluation
struct Inner {
    f: ProgFn,
    g: ProgFn,
    x: Vec<f64>,
    dx: Vec<f64>,
    ncp: usize,
    want: Vec<u64>,
    wrong: std::sync::Arc<std::sync::atomic::AtomicUsize>,
    runs: std::sync::Arc<std::sync::atomic::AtomicUsize>,
}
impl Inner {
    fn new(f: Prog, rng: &mut Rng) -> Result<Self, Fail> {
        let (n, ops) = (rng.range(1, 7), rng.range(2, 14));
        let m = if rng.chance(0.5) { n } else { rng.range(1, 7) };
        let g = ProgFn::new(gen_dyadic(rng, n, ops, m, 0.3, true));
        let x: Vec<f64> = (0..n).map(|_| rng.range(0, 16) as f64 / 4.0 - 2.0).collect();
        let dx: Vec<f64> = (0..n).map(|_| rng.range(0, 16) as f64 / 4.0 - 2.0).collect();
        let ncp = rng.range(2, 5);
        let want = lib("drivers", || inside(&g, &x, &dx, ncp))?;
        Ok(Inner { f: ProgFn::new(f), g, x, dx, ncp, want, wrong: Default::default(), runs: Default::default() })
    }
    fn again(&self) -> Self {
        Inner {
            f: self.f.clone(),
            g: self.g.clone(),
            x: self.x.clone(),
            dx: self.dx.clone(),
            ncp: self.ncp,
            want: self.want.clone(),
            wrong: self.wrong.clone(),
            runs: self.runs.clone(),
        }
    }
}
impl Function for Inner {
    fn n(&self) -> usize {
        self.f.n()
    }
    fn m(&self) -> usize {
        self.f.m()
    }
    fn eval(&self, x: advantage::DVector<advantage::ADouble>) -> advantage::DVector<advantage::ADouble> {
        let p = &self.f.p;
        let at = p.nodes.len() / 2;
        let mut v = vec![];
        for (i, node) in p.nodes.iter().enumerate() {
            if i == at {
                self.runs.fetch_add(1, Ordering::SeqCst);
                if inside(&self.g, &self.x, &self.dx, self.ncp) != self.want {
                    self.wrong.fetch_add(1, Ordering::SeqCst);
                }
            }
            let r = step(node, x.as_slice(), &v);
            v.push(r);
        }
        advantage::DVector::from_vec(p.outs.iter().map(|o| v[*o]).collect())
    }
}

/// Every driver on a function, bits of all results
fn whole(f: &dyn Function, chain: &FunctionChain, x: &[f64], dx: &[f64], smooth: bool) -> Result<Vec<Vec<u64>>, Fail> {
    let (x, dx) = (dv(x), dv(dx));
    let mut out = vec![bits(lib("jacobian_forward", || jacobian_forward(f, &x))?.as_slice())];
    let t = lib("record", || f.tape(&x))?;
    out.push(t.ops_iter().map(|o| o.vid as u64).collect());
    out.push(bits(t.values()));
    if smooth {
        out.push(bits(lib("jacobian_reverse", || jacobian_reverse(&*t))?.as_slice()));
    }
    let a = lib("abs_normal", || abs_normal(f, &x))?;
    out.push(bits(&[a.a.as_slice(), a.zmat.as_slice(), a.lmat.as_slice(), a.b.as_slice(), a.jmat.as_slice(), a.ymat.as_slice()].concat()));
    let g = lib("generalized_jacobian", || generalized_jacobian(f, &x, &dx, &[0b0110_1001], None))?;
    out.push(bits(&[g.homogenous.as_slice(), g.inhomogenous.as_slice(), &[g.multiplicity as f64]].concat()));
    let g = lib("generalized_jacobian_chain", || generalized_jacobian_chain(chain, x, dx, Some(2)))?;
    out.push(bits(&[g.homogenous.as_slice(), g.inhomogenous.as_slice(), &[g.multiplicity as f64]].concat()));
    Ok(out)
}

pub fn p25(run: &Run) -> i32 {
    let n = run.pick(400, 15_000);
    let pools: Vec<rayon::ThreadPool> = [1usize, 2, 3, 5, 8, 16].iter().map(|k| rayon::ThreadPoolBuilder::new().num_threads(*k).build().unwrap()).collect();
    run.cases_and_large(n, run.pick(6, 80), 4, |case, rng, obs| {
        let large = case >= LARGE;
        match if large { 0 } else { case % 8 } {
            0..=5 => {
                let j = job(rng, large);
                obs.max("columns of one Jacobian", j.p.n as u64);
                obs.max("rows of one Jacobian", j.p.m() as u64);
                obs.mark(&j.p.text(&j.x));
                let base = pools[0].install(|| drive(&j, 0, Some(obs)))?;
                let rounds = 4;
                for r in 0..rounds {
                    let k = rng.range(1, pools.len() - 1);
                    let key = rng.u64() | 1;
                    let got = pools[k].install(|| drive(&j, key, None))?;
                    ensure!(got == base, "parallel:bits", "with {} workers and shuffled delays (round {}) the results differ from those of one worker", pools[k].current_num_threads(), r);
                    obs.add("runs compared bit by bit", 1);
                }
                // from a thread outside any pool
                let got = drive(&j, rng.u64() | 1, None)?;
                ensure!(got == base, "parallel:bits", "on the global pool the results differ from those of one worker");
                obs.add("runs compared bit by bit", 1);
            }
            6 => {
                // several computations at once, in one pool and across pools
                let jobs: Vec<Job> = (0..4).map(|_| job(rng, false)).collect();
                obs.mark(&jobs.iter().map(|j| j.p.text(&j.x)).collect::<Vec<_>>().join(" | "));
                let base: Vec<_> = jobs.iter().map(|j| pools[0].install(|| drive(j, 0, None))).collect::<Result<_, _>>()?;
                let keys: Vec<u64> = (0..16).map(|_| rng.u64() | 1).collect();
                let k = rng.range(1, pools.len() - 1);
                use rayon::prelude::*;
                let all: Vec<Res> = pools[k].install(|| {
                    (0..12usize)
                        .into_par_iter()
                        .map(|i| {
                            let got = drive(&jobs[i % 4], hash_u64(keys[i], 1) | 1, None)?;
                            ensure!(got == base[i % 4], "parallel:nested", "computations running at once in one pool of {} disturb each other", pools[k].current_num_threads());
                            Ok(())
                        })
                        .collect()
                });
                for r in all {
                    r?;
                }
                let rs: Vec<Res> = std::thread::scope(|sc| {
                    let hs: Vec<_> = (0..4usize)
                        .map(|i| {
                            let (jobs, base, keys, pools) = (&jobs, &base, &keys, &pools);
                            sc.spawn(move || -> Res {
                                let got = pools[1 + i % (pools.len() - 1)].install(|| drive(&jobs[i], keys[i], None))?;
                                ensure!(got == base[i], "parallel:concurrent", "computations running at once in several pools disturb each other");
                                Ok(())
                            })
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Fail { sig: "panic:parallel".into(), detail: LAST_PANIC_ANY.lock().unwrap().clone() }))).collect()
                });
                for r in rs {
                    r?;
                }
                obs.add("runs compared bit by bit", 16);
            }
            _ => {
                // a function that uses the drivers itself gives what it gives without
                let smooth = rng.chance(0.5);
                let cfg = Cfg { n: rng.range(1, 6), ops: rng.range(3, 20), m: rng.range(1, 6), smooth, abs_only: true, kink_p: 0.2, points: 1, special: 0.2, plain: false };
                let (p, pts) = gen(rng, &cfg);
                obs.mark(&format!("inner drivers {}", p.text(&pts[0])));
                let dx: Vec<f64> = (0..p.n).map(|_| nice(rng, 0.3)).collect();
                let plain = ProgFn::new(p.clone());
                let f = Inner::new(p, rng)?;
                let base = pools[0].install(|| whole(&plain, &FunctionChain::new(plain.clone()), &pts[0], &dx, smooth))?;
                for _ in 0..3 {
                    let k = rng.below(pools.len());
                    let got = pools[k].install(|| whole(&f, &FunctionChain::new(f.again()), &pts[0], &dx, smooth))?;
                    ensure!(got == base, "parallel:inner", "a function that uses the drivers itself gives other results than without (in a pool of {})", pools[k].current_num_threads());
                    obs.add("runs compared bit by bit", 1);
                }
                let (wrong, runs) = (f.wrong.load(Ordering::SeqCst), f.runs.load(Ordering::SeqCst));
                ensure!(wrong == 0, "parallel:inner", "{} of {} driver calls made inside a function that a driver evaluates give other results than outside", wrong, runs);
                obs.add("drivers run inside drivers", runs as u64);
            }
        }
        Ok(())
    });
    run.finish("every parallel driver (both Jacobians, abs-normal products and forms, generalized Jacobians, chains) run with 1 to 16 workers, random pauses in function evaluations and tape sweeps, several computations at once in one and in several pools, and functions that use the drivers themselves; results compared bit by bit with one worker, each row and column with its own sweep, evaluations counted. Non-trivial: at least one comparison")
}
