//! Refusals: P26.
use crate::prog::*;
use crate::report::*;
use crate::rng::{hash_u64, Rng};
use crate::util::*;
use advantage::drivers::*;
use advantage::{AContext, AFloat, DMatrix, DVector, Function, FunctionChain, OpCode, Tape};
use num::Float;

type AD = AFloat<f64>;

/// A recording under way that no refusal may disturb
struct Going {
    p: Prog,
    x: Vec<f64>,
    ctx: AContext,
    xs: Vec<AD>,
    v: Vec<AD>,
    want: Image,
}

fn record_alone(p: &Prog, x: &[f64]) -> Result<Image, Fail> {
    let mut ctx = AContext::new();
    let mut xs: Vec<AD> = x.iter().map(|v| AD::from(*v)).collect();
    lib("record", || {
        for a in xs.iter_mut() {
            ctx.set_indep(a);
        }
        for y in p.eval(&xs) {
            ctx.set_dep(&y);
        }
        image(&ctx.tape())
    })
}

impl Going {
    fn new(rng: &mut Rng) -> Result<Going, Fail> {
        let cfg = Cfg { n: rng.range(1, 4), ops: rng.range(10, 40), m: rng.range(1, 3), smooth: false, abs_only: false, kink_p: 0.15, points: 1, special: 0.2, plain: false };
        let (p, pts) = gen(rng, &cfg);
        let want = record_alone(&p, &pts[0])?;
        let mut ctx = AContext::new();
        let mut xs: Vec<AD> = pts[0].iter().map(|v| AD::from(*v)).collect();
        for a in xs.iter_mut() {
            ctx.set_indep(a);
        }
        Ok(Going { p, x: pts[0].clone(), ctx, xs, v: vec![], want })
    }
    fn advance(&mut self, k: usize) -> Res {
        for _ in 0..k {
            if self.v.len() < self.p.nodes.len() {
                let node = self.p.nodes[self.v.len()];
                let r = lib("record", || step(&node, &self.xs, &self.v))?;
                self.v.push(r);
            }
        }
        Ok(())
    }
    fn finish(mut self) -> Res {
        self.advance(self.p.nodes.len())?;
        for o in self.p.outs.clone() {
            let y = self.v[o];
            lib("set_dep", || self.ctx.set_dep(&y))?;
        }
        let im = lib("tape", || image(&self.ctx.tape()))?;
        ensure!(im == self.want, "harm:recording", "a recording under way during refusals differs from the same recording made alone ({})", self.p.text(&self.x));
        Ok(())
    }
}

struct World {
    going: Vec<Going>,
    smooth: Box<dyn Tape>,
    kinked: Box<dyn Tape>,
    smooth_f: ProgFn,
    kinked_f: ProgFn,
    xs: Vec<f64>,
    xk: Vec<f64>,
    images: (Image, Image),
    jac: (usize, usize, Vec<u64>),
    sweeps: Vec<u64>,
    gj: Vec<u64>,
}

fn gj_bits(g: &GeneralizedJacobian) -> Vec<u64> {
    let mut b = bits(g.homogenous.as_slice());
    b.extend(bits(g.inhomogenous.as_slice()));
    b.push(g.multiplicity as u64);
    b
}

impl World {
    fn new(rng: &mut Rng) -> Result<World, Fail> {
        let cfg = Cfg { n: rng.range(1, 4), ops: rng.range(3, 30), m: rng.range(1, 4), smooth: true, abs_only: false, kink_p: 0.0, points: 1, special: 0.2, plain: false };
        let (ps, pts) = gen(rng, &cfg);
        let cfg = Cfg { n: rng.range(1, 4), ops: rng.range(3, 20), m: rng.range(1, 4), smooth: false, abs_only: true, kink_p: 0.3, points: 1, special: 0.2, plain: false };
        let (mut pk, ptk) = gen(rng, &cfg);
        // every result is an absolute value of an argument plus something
        for o in pk.outs.iter_mut() {
            let k = pk.nodes.len();
            let i = rng.below(pk.n);
            pk.nodes.extend([Node::U(Un::Abs, i), Node::B(Bi::Add, k, *o)]);
            *o = k + 1;
        }
        let (xs, xk) = (pts[0].clone(), ptk[0].clone());
        let (smooth, kinked) = (tape_of(&ps, &xs)?, tape_of(&pk, &xk)?);
        let images = (image(&*smooth), image(&*kinked));
        let (smooth_f, kinked_f) = (ProgFn::new(ps), ProgFn::new(pk));
        let mut w = World { going: vec![Going::new(rng)?, Going::new(rng)?], smooth, kinked, smooth_f, kinked_f, xs, xk, images, jac: (0, 0, vec![]), sweeps: vec![], gj: vec![] };
        w.jac = w.jacobian()?;
        w.sweeps = w.sweep()?;
        w.gj = w.generalized()?;
        Ok(w)
    }
    fn jacobian(&self) -> Result<(usize, usize, Vec<u64>), Fail> {
        let a = lib("jacobian_forward", || jacobian_forward(&self.smooth_f, &dv(&self.xs)))?;
        lib("jacobian_reverse", || jacobian_reverse(&*self.smooth))?;
        Ok(mbits(&a))
    }
    fn sweep(&self) -> Result<Vec<u64>, Fail> {
        let dx = DVector::from_fn(self.xs.len(), |i, _| 0.5 + i as f64);
        let yb = DVector::from_fn(self.smooth.num_deps(), |i, _| 0.25 - i as f64);
        let dk = DVector::from_fn(self.xk.len(), |i, _| 0.5 - i as f64);
        let mut b = bits(lib("forward", || self.smooth.first_order_forward(&dx))?.as_slice());
        b.extend(bits(lib("reverse", || self.smooth.first_order_reverse(&yb))?.as_slice()));
        b.extend(bits(lib("forward", || self.kinked.first_order_forward(&dk))?.as_slice()));
        Ok(b)
    }
    fn generalized(&self) -> Result<Vec<u64>, Fail> {
        let dk = DVector::from_fn(self.xk.len(), |i, _| 0.5 - i as f64);
        Ok(gj_bits(&lib("generalized_jacobian", || generalized_jacobian(&self.kinked_f, &dv(&self.xk), &dk, &[1], None))?))
    }
    fn check(&mut self, rng: &mut Rng, deep: bool, after: &str) -> Res {
        // new contexts can be created and used
        let (im, found) = lib("new context after a refusal", || {
            let mut c = AContext::new();
            let x: AD = c.new_indep(1.5);
            c.set_dep(&(x * x));
            (image(&c.tape()), AContext::from_cid(c.cid()).is_some())
        })?;
        ensure!(found && im.ops.len() == 1 && im.ops[0].opcode == OpCode::Mul && im.deps.len() == 1, "harm:new", "after {}: a new context records {:?}", after, im);
        for g in self.going.iter_mut() {
            let k = rng.below(4);
            g.advance(k)?;
            ensure!(lib("from_cid", || AContext::from_cid(g.ctx.cid()).is_some())?, "harm:registry", "after {}: a live context cannot be found", after);
        }
        ensure!(image(&*self.smooth) == self.images.0 && image(&*self.kinked) == self.images.1, "harm:tape", "after {}: a tape changed", after);
        ensure!(self.sweep()? == self.sweeps, "harm:sweep", "after {}: a tape answers differently", after);
        if deep {
            ensure!(self.jacobian()? == self.jac, "harm:driver", "after {}: a Jacobian driver answers differently", after);
            ensure!(self.generalized()? == self.gj, "harm:driver", "after {}: the generalized Jacobian differs", after);
        }
        Ok(())
    }
}

const UNSUPPORTED: [&str; 16] = ["floor", "ceil", "round", "trunc", "fract", "signum", "exp_m1", "ln_1p", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "atan2", "rem"];

fn unsupported(k: usize, a: AD, b: AD) -> AD {
    match UNSUPPORTED[k] {
        "floor" => a.floor(),
        "ceil" => a.ceil(),
        "round" => a.round(),
        "trunc" => a.trunc(),
        "fract" => a.fract(),
        "signum" => a.signum(),
        "exp_m1" => a.exp_m1(),
        "ln_1p" => a.ln_1p(),
        "sinh" => a.sinh(),
        "cosh" => a.cosh(),
        "tanh" => a.tanh(),
        "asinh" => a.asinh(),
        "acosh" => a.acosh(),
        "atanh" => a.atanh(),
        "atan2" => a.atan2(b),
        _ => a % b,
    }
}

fn wrong(rng: &mut Rng, right: usize) -> usize {
    loop {
        let k = *rng.pick(&[right + 1, right + 1, right.wrapping_sub(1), right + 2, 2 * right + 1, right + 7]);
        if k != right && k < 1 << 20 {
            return k;
        }
    }
}

/// The recording that refused goes on
fn usable(c: &mut AContext, a: AD, more: usize) -> Res {
    let (x, y, t) = lib("record where something was refused", || {
        let x: AD = c.new_indep(0.75);
        let y = x * a + 1.0;
        c.set_dep(&y);
        let t = c.tape();
        (x, y, image(&t))
    })?;
    ensure!(y.value() == x.value() * a.value() + 1.0, "harm:recording", "the recording that refused computes {} instead of {}", y.value(), x.value() * a.value() + 1.0);
    ensure!(t.indeps.len() == 2 && (1..=1 + more).contains(&t.deps.len()), "harm:recording", "the recording that refused is damaged: {:?}", t);
    let mut p = lib("tape where something was refused", || c.tape())?;
    well_formed(&p)?;
    let was = p.y();
    let k = was.len() - 1;
    ensure!(was[k] == y.value(), "harm:recording", "the recording that refused stores {} for {}", was[k], y.value());
    let x0 = p.x();
    lib("zero_order", || p.zero_order(&dv(&[x0[0], 2.0 * x0[1]])))?;
    ensure!(p.y()[k] == 2.0 * x.value() * a.value() + 1.0, "harm:recording", "a tape of the recording that refused gives {}", p.y()[k]);
    Ok(())
}

/// One invalid request; returns its kind
fn request(w: &mut World, rng: &mut Rng) -> Result<&'static str, Fail> {
    let refuse = |what: &str, f: &mut dyn FnMut()| refused(what, f).map(|_| ());
    match rng.below(13) {
        0 => {
            // variables of two live recordings in one operation
            let (mut c1, mut c2) = (AContext::new(), AContext::new());
            let mut a: AD = c1.new_indep(nice(rng, 0.2).abs() + 0.5);
            let mut b: AD = c2.new_indep(nice(rng, 0.2).abs() + 0.75);
            if rng.chance(0.5) {
                a *= 2.0;
            }
            if rng.chance(0.5) {
                b = b + 1.0;
            }
            let (a0, b0) = (a, b);
            // whatever the values are: zeros, infinities, NaN, equal ones
            for v in [&mut a, &mut b] {
                if rng.chance(0.3) {
                    let odd = [0.0, -0.0, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, 5e-324];
                    *v = *v * 0.0 + odd[rng.below(odd.len())];
                }
            }
            let k = rng.below(BIS.len() + 2);
            let name = if k < BIS.len() { format!("mix:{:?}", BIS[k]) } else { "mix:MulAdd".to_string() };
            if k < BIS.len() {
                let node = Node::B(BIS[k], 0, 1);
                refuse(&name, &mut || {
                    step(&node, &[], &[a, b]);
                })?;
            } else if k == BIS.len() {
                refuse(&name, &mut || {
                    a.mul_add(AD::from(2.0), b);
                })?;
            } else {
                refuse(&name, &mut || {
                    a.mul_add(b, AD::from(2.0));
                })?;
            }
            usable(&mut c1, a0, 0)?;
            usable(&mut c2, b0, 0)?;
            Ok("operations on variables of two recordings")
        }
        1 => {
            let (mut c1, mut c2) = (AContext::new(), AContext::new());
            let a: AD = c1.new_indep(1.0);
            let b: AD = c2.new_indep(2.0);
            let foreign = if rng.chance(0.5) { b } else { b * 2.0 };
            if rng.chance(0.5) {
                refuse("mark:foreign", &mut || c1.set_dep(&foreign))?;
            } else {
                refuse("mark:foreign", &mut || c1.set_dep_slice(&[a, foreign]))?;
            }
            // the variable's own recording is another one
            let t = lib("record after a refusal", || {
                c2.set_dep(&(b + 1.0));
                image(&c2.tape())
            })?;
            ensure!(t.deps.len() == 1 && t.indeps.len() == 1, "harm:recording", "the variable's own recording is damaged: {:?}", t);
            // a mark before the foreign one in the same slice may or may not have been made
            usable(&mut c1, a, 1)?;
            Ok("marks of variables of another recording")
        }
        2 => {
            let smooth = rng.chance(0.5);
            let (t, im, x) = if smooth { (&mut w.smooth, &w.images.0, &w.xs) } else { (&mut w.kinked, &w.images.1, &w.xk) };
            let k = wrong(rng, x.len());
            let bad: Vec<f64> = (0..k).map(|_| nice(rng, 0.2)).collect();
            refuse("zero_order:length", &mut || t.zero_order(&dv(&bad)))?;
            ensure!(image(&**t) == *im, "harm:point", "a refused re-evaluation with {} of {} arguments changed the tape", k, x.len());
            let x = x.clone();
            lib("zero_order", || t.zero_order(&dv(&x)))?;
            Ok("re-evaluations with the wrong number of arguments")
        }
        3 => {
            let t = &w.smooth;
            if rng.chance(0.5) {
                let k = wrong(rng, w.xs.len());
                refuse("forward:length", &mut || {
                    t.first_order_forward(&DVector::from_element(k, 1.0));
                })?;
            } else {
                let k = wrong(rng, t.num_deps());
                refuse("reverse:length", &mut || {
                    t.first_order_reverse(&DVector::from_element(k, 1.0));
                })?;
            }
            Ok("sweeps with directions or weights of the wrong size")
        }
        4 | 5 => {
            let t = AbsNormalTape::new(tape_of(&w.kinked_f.p, &w.xk)?);
            macro_rules! view {
                ($t:ident, $n:expr) => {{
                    let v = $t::new(&t);
                    let (r, c) = (v.nrows(), v.ncols());
                    // also factors with nothing in them
                    let k = rng.below(5);
                    match rng.below(4) {
                        0 => {
                            let q = wrong(rng, c);
                            refuse(concat!("right:", $n), &mut || {
                                v.mul_right(&DMatrix::from_element(q, k, 0.5));
                            })?
                        }
                        1 => {
                            let q = wrong(rng, r);
                            refuse(concat!("left:", $n), &mut || {
                                v.mul_left(&DMatrix::from_element(k, q, 0.5));
                            })?
                        }
                        2 => {
                            let q = r + rng.below(3);
                            refuse(concat!("row:", $n), &mut || {
                                v.row(q);
                            })?
                        }
                        _ => {
                            let q = c + rng.below(3);
                            refuse(concat!("column:", $n), &mut || {
                                v.column(q);
                            })?
                        }
                    }
                    let ok = lib("mul_right", || v.mul_right(&DMatrix::identity(c, c)))?;
                    ensure!(ok.shape() == (r, c), "harm:driver", "after a refused product {} is {:?} instead of {}x{}", $n, ok.shape(), r, c);
                }};
            }
            match rng.below(4) {
                0 => view!(AbsNormalZ, "Z"),
                1 => view!(AbsNormalL, "L"),
                2 => view!(AbsNormalJ, "J"),
                _ => view!(AbsNormalY, "Y"),
            }
            Ok("products with factors of the wrong size")
        }
        6 => {
            let smooth = rng.chance(0.3);
            let (f, x) = if smooth { (&w.smooth_f, &w.xs) } else { (&w.kinked_f, &w.xk) };
            let (n, m) = (f.n(), f.m());
            let dx = DVector::from_element(n, 0.5);
            let good = |h: usize| GeneralizedJacobian { homogenous: DMatrix::from_element(2, h, 0.5), inhomogenous: DVector::from_element(2, 1.0), multiplicity: 0 };
            match rng.below(5) {
                0 => {
                    let q = wrong(rng, n);
                    refuse("generalized:direction", &mut || {
                        generalized_jacobian(f, &dv(x), &DVector::from_element(q, 0.5), &[0], None);
                    })?
                }
                1 => {
                    let q = wrong(rng, n);
                    refuse("generalized:point", &mut || {
                        generalized_jacobian(f, &DVector::from_element(q, 0.5), &dx, &[0], None);
                    })?
                }
                2 => {
                    let q = wrong(rng, n);
                    let mut t = Some(tape_of(&f.p, x)?);
                    refuse("generalized:direction", &mut || {
                        generalized_jacobian_tape(t.take().unwrap(), &DVector::from_element(q, 0.5), &[0], None);
                    })?
                }
                3 => {
                    let q = wrong(rng, m);
                    refuse("generalized:next", &mut || {
                        generalized_jacobian(f, &dv(x), &dx, &[0], Some(good(q)));
                    })?
                }
                _ => {
                    let mut g = good(m);
                    g.inhomogenous = DVector::from_element(*rng.pick(&[1, 3, 4]), 1.0);
                    refuse("generalized:next", &mut || {
                        generalized_jacobian(f, &dv(x), &dx, &[0], Some(g.clone()));
                    })?
                }
            }
            Ok("generalized Jacobians with parts of the wrong size")
        }
        7 => {
            let c = rng.below(2);
            if rng.chance(0.6) {
                let n = *rng.pick(&[0, 1, 2, 5, 40]);
                refuse("checkpoints:sequence", &mut || {
                    reverse_sequence(0usize, n, c, |x| x + 1, |x, r: usize| x + r, |x| x);
                })?;
            } else {
                let chain = FunctionChain::new(w.kinked_f.clone());
                refuse("checkpoints:chain", &mut || {
                    generalized_jacobian_chain(&chain, dv(&w.xk), DVector::from_element(w.xk.len(), 0.5), Some(c));
                })?;
            }
            Ok("fewer than two checkpoints")
        }
        8 => {
            let t = &w.kinked;
            let m = t.num_deps();
            let mut yb = DVector::from_element(m, 1.0);
            if rng.chance(0.5) {
                yb = DVector::zeros(m);
                // also with weights that never reach it
                if rng.chance(0.7) {
                    yb[rng.below(m)] = -0.5;
                }
            }
            if rng.chance(0.6) {
                refuse("reverse:abs", &mut || {
                    t.first_order_reverse(&yb);
                })?;
            } else {
                refuse("reverse:abs", &mut || {
                    jacobian_reverse(&**t);
                })?;
            }
            Ok("reverse sweeps through an absolute value")
        }
        9 | 10 => {
            let k = rng.below(UNSUPPORTED.len());
            let (a, b) = if rng.chance(0.5) {
                let g = &w.going[0];
                (g.xs[0], *rng.pick(&g.xs))
            } else {
                // whatever the operands are
                let any = |rng: &mut Rng| if rng.chance(0.4) { *rng.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 0.0, -0.0, 1.0, 4.0, 1e300, 1e-310]) } else { nice(rng, 0.3) };
                (AD::new(any(rng), nice(rng, 0.5)), AD::new(any(rng), nice(rng, 0.5)))
            };
            refuse(&format!("unsupported:{}", UNSUPPORTED[k]), &mut || {
                unsupported(k, a, b);
            })?;
            Ok("unsupported operations")
        }
        11 => {
            let mut chain = FunctionChain::new(w.smooth_f.clone());
            let m = w.smooth_f.m();
            let q = wrong(rng, m);
            let bad = ProgFn::new(Prog { n: q, nodes: (0..q.max(1)).map(|i| if q == 0 { Node::K(1.0) } else { Node::In(i) }).collect(), outs: vec![0] });
            refuse("chain:append", &mut || chain.append_boxed(Box::new(bad.clone())))?;
            ensure!(chain.len() == 1 && chain.m() == m, "chain:append", "a refused function was appended");
            let x = dv(&w.xs);
            let y = lib("eval", || chain.eval_float(x))?;
            ensure!(y.len() == m, "chain:append", "the chain is damaged after refusing a function");
            let beyond = chain.len() + rng.below(4);
            refuse("chain:nth", &mut || {
                chain.nth(beyond);
            })?;
            Ok("functions that do not fit a chain")
        }
        _ => {
            let n = w.xs.len();
            let q = wrong(rng, n);
            let f = &w.smooth_f;
            match rng.below(3) {
                0 => refuse("jacobian:point", &mut || {
                    jacobian_forward(f, &DVector::from_element(q, 0.5));
                })?,
                1 => refuse("abs_normal:point", &mut || {
                    abs_normal(f, &DVector::from_element(q, 0.5));
                })?,
                _ => {
                    let chain = FunctionChain::new(f.clone());
                    refuse("chain:direction", &mut || {
                        generalized_jacobian_chain(&chain, dv(&w.xs), DVector::from_element(q, 0.5), None);
                    })?
                }
            }
            Ok("points and directions of the wrong size")
        }
    }
}

fn history(rng: &mut Rng, len: usize, obs: &mut Obs) -> Res {
    let mut w = World::new(rng)?;
    let mut text = String::new();
    for k in 0..len {
        let kind = request(&mut w, rng)?;
        obs.add(kind, 1);
        obs.add("refusals", 1);
        text.push_str(kind);
        text.push_str("; ");
        let deep = k % 4 == 3;
        w.check(rng, deep, kind)?;
    }
    for g in w.going {
        g.finish()?;
    }
    obs.mark(&format!("{}{}", text, rng.u64()));
    Ok(())
}

pub fn p26(run: &Run) -> i32 {
    let n = run.pick(20_000, 400_000);
    run.cases(0, n, 4, |case, rng, obs| {
        let len = rng.range(2, 12);
        if case % 4 != 3 {
            return history(rng, len, obs);
        }
        // refusals and valid work on several threads at once
        let seed = rng.u64();
        let all: Vec<(Res, Obs)> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..3u64)
                .map(|i| {
                    s.spawn(move || {
                        let mut o = Obs::default();
                        let mut r = Rng::new(hash_u64(seed, i));
                        let res = history(&mut r, len, &mut o);
                        (res, o)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| (Err(Fail { sig: "panic".into(), detail: "valid work on another thread panicked during refusals".into() }), Obs::default()))).collect()
        });
        obs.mark(&format!("three threads, {}", all[0].1.sample.clone().unwrap_or_default()));
        for (r, o) in all {
            r?;
            for (k, v) in o.counts {
                obs.add(k, v);
            }
        }
        obs.add("histories with three threads", 1);
        Ok(())
    });
    run.finish("random histories of invalid requests of 13 kinds among valid work, on one thread and on three at once; each must panic, and after each one new contexts, recordings under way (compared at the end with the same recordings made alone), tapes, sweeps and drivers are checked bit by bit. Non-trivial: every history; requests counted by kind")
}
