//! P03 replay, P04 forward, P05 reverse, P07 recording, P10 snapshots.
use crate::prog::*;
use crate::refs::{self, close, same};
use crate::report::*;
use crate::rng::Rng;
use crate::util::*;
use num::Float;
use advantage::drivers::*;
use advantage::{AContext, AFloat, DMatrix, Function, OpCode, Operation, Tape};
use Node::*;
use std::collections::HashMap;
type AD = AFloat<f64>;

fn sizes(case: u64, rng: &mut Rng) -> (usize, usize, usize) {
    if case >= LARGE {
        return match (case - LARGE) % 6 {
            0 => (rng.range(1, 4), 66_000 + rng.below(3000), rng.range(1, 4)),
            1 => (66_000 + rng.below(3000), 300, rng.range(1, 5)),
            2 => (rng.range(1, 4), 20_000, 66_000 + rng.below(3000)),
            3 => (rng.range(250, 1100), rng.range(4_000, 9_000), rng.range(250, 1100)),
            4 => (rng.range(1, 30), rng.range(9_000, 40_000), rng.range(1, 30)),
            _ => (2, 140_000, 2),
        };
    }
    match rng.below(40) {
        0 => (rng.range(1, 3), rng.range(300, 1500), rng.range(1, 3)),
        1 => (rng.range(20, 120), rng.range(20, 200), rng.range(20, 150)),
        2 => (0, rng.range(0, 5), rng.range(0, 3)),
        3 => (1, 0, 1),
        4 => (rng.range(1, 8), rng.range(1, 30), 0),
        _ => (rng.range(1, 6), rng.range(2, 60), rng.range(1, 6)),
    }
}

/// A scale far from one
fn extreme(rng: &mut Rng) -> f64 {
    *rng.pick(&[1e-290, 1e-300, 1e-305, 1e-308, 1e-310, 1e-310, 1e-312, 1e290, 1e150, 1e-150])
}

/// The tape holds exactly this evaluation
fn holds(t: &dyn Tape, p: &Prog, x: &[f64], fresh: &Image, when: &str) -> Res {
    let (tx, ty) = (t.x(), t.y());
    ensure!(tx.len() == x.len() && (0..x.len()).all(|i| tx[i].to_bits() == x[i].to_bits()), "replay:x", "{}: the stored argument is {:?} instead of {:?}", when, tx.as_slice(), x);
    let y: Vec<AD> = {
        let xs: Vec<AD> = x.iter().map(|v| AD::from(*v)).collect();
        lib("evaluate", || p.eval(&xs))?
    };
    ensure!(ty.len() == y.len(), "replay:y", "{}: {} results stored instead of {}", when, ty.len(), y.len());
    for i in 0..y.len() {
        ensure!(same(ty[i], y[i].value()), "replay:y", "{}: stored result {} is {:e}, direct evaluation gives {:e}", when, i, ty[i], y[i].value());
    }
    let im = image(t);
    ensure!((&im.indeps, &im.deps, &im.ops) == (&fresh.indeps, &fresh.deps, &fresh.ops), "replay:procedure", "{}: the procedure changed", when);
    consistent(t)
}

pub fn p03(run: &Run) -> i32 {
    let n = run.pick(40_000, 600_000);
    run.cases_and_large(n, run.pick(24, 600), 8, |case, rng, obs| {
        let (nn, ops, m) = sizes(case, rng);
        let cfg = Cfg { n: nn, ops, m, smooth: false, abs_only: false, kink_p: 0.15, points: 4, special: 0.3, plain: false };
        let (p, mut pts) = gen(rng, &cfg);
        // points anywhere, also outside every domain
        for _ in 0..3 {
            pts.push((0..nn).map(|_| match rng.below(5) {
                0 => *rng.pick(&[0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e308, -1e-308, 5e-324]),
                1 => rng.uniform(-1e6, 1e6),
                _ => rng.uniform(-4.0, 4.0),
            }).collect());
        }
        // twins that differ in one argument only, or only in the sign of a zero
        let mut twin = vec![usize::MAX; pts.len()];
        for _ in 0..if nn > 0 { 2 } else { 0 } {
            let mut q = pts[rng.below(pts.len())].clone();
            let i = rng.below(nn);
            q[i] = *rng.pick(&[0.0, -0.0]);
            let mut r = q.clone();
            r[i] = if rng.chance(0.6) { -q[i] } else { nice(rng, 0.3) };
            twin.push(pts.len() + 1);
            twin.push(pts.len());
            pts.push(q);
            pts.push(r);
        }
        let start = if case % 4 == 0 { rng.range(4, 6) } else { rng.below(4) };
        obs.mark(&p.text(&pts[start]));
        let style = if rng.chance(0.5) { 0 } else { rng.u64() };
        let mut t = tape_some(&p, &pts[start], style)?;
        let fresh = image(&*t);
        well_formed(&*t)?;
        holds(&*t, &p, &pts[start], &fresh, "after recording")?;
        let mut trail = vec![start];
        for _ in 0..rng.range(2, 9) {
            let last = twin[trail[trail.len() - 1]];
            let k = if last != usize::MAX && rng.chance(0.6) { last } else { rng.below(pts.len()) };
            trail.push(k);
            lib("zero_order", || t.zero_order(&dv(&pts[k])))?;
            obs.add("re-evaluations checked", 1);
            let when = format!("after re-evaluations at points {:?}", trail);
            holds(&*t, &p, &pts[k], &fresh, &when)?;
            // the whole state is that of a recording made here
            let other = tape_some(&p, &pts[k], style)?;
            let (a, b) = (t.values(), other.values());
            if image(&*other).ops == fresh.ops {
                obs.add("whole states compared", 1);
                for i in 0..a.len() {
                    ensure!(same(a[i], b[i]), "replay:state", "{}: stored value {} is {:e}, a recording made here has {:e}", when, i, a[i], b[i]);
                }
            }
        }
        obs.max("operations on one tape", fresh.ops.len() as u64);
        Ok(())
    });
    run.finish("random programs over all operations recorded at one point and re-evaluated at sequences of points, inside and outside the operations' domains, infinities and NaN included; stored argument, results and every intermediate value compared exactly with direct evaluation and with a fresh recording. Non-trivial: at least two re-evaluations compared")
}

/// a smooth program with further results that have a value but no derivative at the point: they must not touch the others
pub fn edge_results(rng: &mut Rng, obs: &mut Obs, reverse: bool) -> Res {
    let cfg = Cfg { n: rng.range(1, 5), ops: rng.range(3, 30), m: rng.range(1, 4), smooth: true, abs_only: false, kink_p: 0.0, points: 1, special: 0.3, plain: false };
    let (p, pts) = gen(rng, &cfg);
    let x = &pts[0];
    let mut q = p.clone();
    let i = rng.below(p.n);
    // results of q: those of p (their places) and those without a derivative
    let mut regular: Vec<Option<usize>> = (0..p.m()).map(Some).collect();
    for _ in 0..rng.range(1, 3) {
        q.nodes.push(K(x[i]));
        q.nodes.push(B(Bi::Sub, i, q.nodes.len() - 1));
        let z = q.nodes.len() - 1;
        let shifted = |q: &mut Prog, c: f64| {
            q.nodes.push(K(c));
            let k = q.nodes.len() - 1;
            q.nodes.push(B(Bi::Add, z, k));
            k + 1
        };
        let (node, finite) = match rng.below(8) {
            0 => (U(Un::Sqrt, z), true),
            1 => (U(Un::Cbrt, z), true),
            2 => (B(Bi::Hypot, z, z), true),
            3 => (U(Un::Asin, shifted(&mut q, *rng.pick(&[1.0, -1.0]))), true),
            4 => (U(Un::Acos, shifted(&mut q, *rng.pick(&[1.0, -1.0]))), true),
            5 => {
                q.nodes.push(K(0.25));
                (B(Bi::Powf, z, q.nodes.len() - 1), true)
            }
            6 => (U(Un::Ln, z), false),
            _ => (U(Un::Recip, z), false),
        };
        q.nodes.push(node);
        let mut o = q.nodes.len() - 1;
        if rng.chance(0.4) {
            // used further
            q.nodes.push(F(Fl::Mul, o, 3.0));
            o += 1;
        }
        let at = rng.below(q.outs.len() + 1);
        q.outs.insert(at, o);
        regular.insert(at, if finite { None } else { Some(usize::MAX) });
    }
    let t = tape_some(&q, x, if rng.chance(0.5) { 0 } else { rng.u64() })?;
    let vals = ad_values(&p, x)?;
    if reverse {
        let w: Vec<f64> = (0..p.m()).map(|_| nice(rng, 0.4)).collect();
        let wq: Vec<f64> = regular.iter().map(|r| r.filter(|k| *k < usize::MAX).map_or(0.0, |k| w[k])).collect();
        let xb = lib("first_order_reverse", || t.first_order_reverse(&dv(&wq)))?;
        let (b, a) = refs::reverse(&p, &vals, &w);
        for k in 0..p.n {
            ensure!(
                close(xb[k], b[k], 1e-9 * a[k]),
                "reverse:edge",
                "adjoint of argument {} for weights {:?} is {:e}, expected {:e}: results of weight zero without a derivative at the point contribute ({} at {:?})",
                k, wq, xb[k], b[k], q.text(x), x
            );
        }
        obs.add("results without a derivative given weight zero", regular.iter().filter(|r| r.map_or(true, |k| k == usize::MAX)).count() as u64);
        let j = lib("jacobian_reverse", || advantage::drivers::jacobian_reverse(&*t))?;
        for (r, k) in regular.iter().enumerate().filter_map(|(r, k)| k.filter(|k| *k < usize::MAX).map(|k| (r, k))) {
            let mut e = vec![0.0; p.m()];
            e[k] = 1.0;
            let (b, a) = refs::reverse(&p, &vals, &e);
            for c in 0..p.n {
                ensure!(close(j[(r, c)], b[c], 1e-9 * a[c]), "jacobian:edge", "Jacobian entry ({}, {}) is {:e}, expected {:e}: other results have no derivative at the point ({} at {:?})", r, c, j[(r, c)], b[c], q.text(x), x);
            }
        }
    } else {
        for still in [true, false] {
            let mut dx: Vec<f64> = (0..p.n).map(|_| nice(rng, 0.4)).collect();
            if still {
                dx[i] = 0.0;
            }
            let dy = lib("first_order_forward", || t.first_order_forward(&dv(&dx)))?;
            let v: Vec<AD> = tapeless(&q, x, &dx)?;
            let (d, e) = refs::forward(&p, &vals, &dx);
            for (r, k) in regular.iter().enumerate() {
                match k {
                    Some(k) if *k < usize::MAX => {
                        let o = p.outs[*k];
                        ensure!(close(dy[r], d[o], 2.0 * e[o]), "forward:edge", "derivative of result {} is {:e}, expected {:e}: other results have no derivative at the point ({} at {:?})", r, dy[r], d[o], q.text(x), x);
                    }
                    None if still => {
                        let w = v[q.outs[r]].dvalue();
                        ensure!(dy[r] == 0.0 && w == 0.0, "forward:edge-still", "result {} does not move along {:?} but has derivative {:e} on the tape, {:e} without ({} at {:?})", r, dx, dy[r], w, q.text(x), x);
                        obs.add("results without a derivative along still directions", 1);
                    }
                    _ => {}
                }
            }
        }
    }
    Ok(())
}

pub fn p04(run: &Run) -> i32 {
    let n = run.pick(60_000, 1_500_000);
    run.cases_and_large(n, run.pick(24, 600), 8, |case, rng, obs| {
        let (nn, ops, m) = sizes(case, rng);
        let smooth = rng.chance(0.6);
        let cfg = Cfg { n: nn, ops, m, smooth, abs_only: false, kink_p: 0.15, points: 3, special: 0.3, plain: false };
        let (p, pts) = gen(rng, &cfg);
        obs.mark(&p.text(&pts[0]));
        let style = if rng.chance(0.5) { 0 } else { rng.u64() };
        let mut t = tape_some(&p, &pts[0], style)?;
        let mut at = 0;
        for round in 0..rng.range(2, 5) {
            if round > 0 && rng.chance(0.7) {
                at = rng.below(3);
                lib("zero_order", || t.zero_order(&dv(&pts[at])))?;
            }
            let vals = ad_values(&p, &pts[at])?;
            let mut dirs: Vec<Vec<f64>> = vec![(0..nn).map(|_| nice(rng, 0.4)).collect(), vec![0.0; nn]];
            if nn > 0 {
                let mut e = vec![0.0; nn];
                e[rng.below(nn)] = 1.0;
                dirs.push(e);
                dirs.push((0..nn).map(|_| rng.uniform(-1.0, 1.0) * 1e4).collect());
                if smooth {
                    let s = extreme(rng);
                    dirs.push((0..nn).map(|_| nice(rng, 0.4) * s).collect());
                }
            }
            for dx in dirs {
                let dy = lib("first_order_forward", || t.first_order_forward(&dv(&dx)))?;
                ensure!(dy.len() == p.m(), "forward:shape", "{} results instead of {}", dy.len(), p.m());
                let (d, e) = refs::forward(&p, &vals, &dx);
                if dx.iter().any(|v| v.abs() < 1e-290 && *v != 0.0) {
                    obs.add("directions near the smallest numbers", 1);
                }
                let tl = tapeless(&p, &pts[at], &dx)?;
                let deps = p.deps();
                for (i, o) in p.outs.iter().enumerate() {
                    // beyond the range of floats nothing is determined
                    if !e[*o].is_finite() {
                        obs.add("derivatives out of range", 1);
                        continue;
                    }
                    ensure!(
                        close(dy[i], d[*o], 2.0 * e[*o]),
                        "forward:derivative",
                        "derivative of result {} along {:?} at {:?} is {:e}, expected {:e} (allowed error {:e})",
                        i, dx, pts[at], dy[i], d[*o], 2.0 * e[*o]
                    );
                    let w = tl[*o].dvalue();
                    ensure!(close(dy[i], w, 2.0 * e[*o]), "forward:tapeless", "derivative of result {} along {:?} is {:e} on the tape but {:e} without", i, dx, dy[i], w);
                    ensure!(deps[*o] || dy[i] == 0.0, "forward:constant", "constant result {} has derivative {}", i, dy[i]);
                    obs.add("derivatives compared", 1);
                }
                if dx.iter().all(|v| *v == 0.0) {
                    ensure!(dy.iter().all(|v| *v == 0.0), "forward:zero", "the zero direction gives {:?}", dy.as_slice());
                }
            }
        }
        obs.max("operations on one tape", t.ops_iter().count() as u64);
        crate::p_scalar::far_operation(rng, obs, false)?;
        edge_results(rng, obs, false)
    });
    run.finish("random programs (smooth and piecewise smooth, up to thousands of operations, up to 120 arguments) recorded at one point, moved by re-evaluation, forward sweeps along random, basis, zero and large directions against the analytic chain rule with error bounds carried along and against tapeless mode. Non-trivial: at least one derivative compared (programs without results only have their shape checked)")
}

pub fn p05(run: &Run) -> i32 {
    let n = run.pick(60_000, 1_500_000);
    run.cases_and_large(n, run.pick(24, 600), 8, |case, rng, obs| {
        let (nn, ops, m) = sizes(case, rng);
        let cfg = Cfg { n: nn, ops, m, smooth: true, abs_only: false, kink_p: 0.0, points: 3, special: 0.3, plain: false };
        let (mut p, pts) = gen(rng, &cfg);
        // inputs and constants as results, the same value as several results
        if rng.chance(0.3) && p.m() > 0 {
            for _ in 0..rng.range(1, 3) {
                let o = if rng.chance(0.5) { rng.below(p.nodes.len().min(nn.max(1))) } else { *rng.pick(&p.outs) };
                let at = rng.below(p.outs.len() + 1);
                p.outs.insert(at, o);
            }
        }
        obs.mark(&p.text(&pts[0]));
        let mut sorted = p.outs.clone();
        sorted.sort();
        obs.add("repeated results", sorted.windows(2).filter(|w| w[0] == w[1]).count() as u64);
        obs.add("inputs among the results", p.outs.iter().filter(|o| matches!(p.nodes[**o], In(_))).count() as u64);
        let style = if rng.chance(0.5) { 0 } else { rng.u64() };
        let mut t = tape_some(&p, &pts[0], style)?;
        let mut at = 0;
        for round in 0..rng.range(2, 4) {
            if round > 0 && rng.chance(0.7) {
                at = rng.below(3);
                lib("zero_order", || t.zero_order(&dv(&pts[at])))?;
            }
            let vals = ad_values(&p, &pts[at])?;
            let mm = p.m();
            let mut ws: Vec<Vec<f64>> = vec![(0..mm).map(|_| nice(rng, 0.4)).collect(), vec![0.0; mm]];
            if mm > 0 {
                let mut e = vec![0.0; mm];
                e[rng.below(mm)] = 1.0;
                ws.push(e);
                let s = extreme(rng);
                ws.push((0..mm).map(|_| nice(rng, 0.4) * s).collect());
            }
            for w in ws {
                let xb = lib("first_order_reverse", || t.first_order_reverse(&dv(&w)))?;
                ensure!(xb.len() == nn, "reverse:shape", "{} adjoints instead of {}", xb.len(), nn);
                let (b, a) = refs::reverse(&p, &vals, &w);
                for i in 0..nn {
                    // beyond the range of floats nothing is determined
                    if !a[i].is_finite() {
                        obs.add("adjoints out of range", 1);
                        continue;
                    }
                    ensure!(
                        close(xb[i], b[i], 1e-9 * a[i]),
                        "reverse:adjoint",
                        "adjoint of argument {} for weights {:?} at {:?} is {:e}, expected {:e} (allowed error {:e})",
                        i, w, pts[at], xb[i], b[i], 1e-9 * a[i]
                    );
                    obs.add("adjoints compared", 1);
                }
                // transposed: weights . (J dx) = (J^T weights) . dx, unless huge weights bring back what
                // is below the range on the way forward
                if w.iter().any(|w| w.abs() > 1e9) {
                    continue;
                }
                let dx: Vec<f64> = (0..nn).map(|_| nice(rng, 0.4)).collect();
                let dy = lib("first_order_forward", || t.first_order_forward(&dv(&dx)))?;
                let l: f64 = (0..mm).map(|i| w[i] * dy[i]).sum();
                let r: f64 = (0..nn).map(|i| xb[i] * dx[i]).sum();
                let scale: f64 = (0..nn).map(|i| a[i] * dx[i].abs()).sum();
                ensure!(!scale.is_finite() || close(l, r, 1e-8 * scale + 1e-300), "reverse:transpose", "weights.(J dx) = {:e} but (J^T weights).dx = {:e}", l, r);
            }
        }
        obs.max("operations on one tape", t.ops_iter().count() as u64);
        crate::p_scalar::far_operation(rng, obs, true)?;
        edge_results(rng, obs, true)
    });
    run.finish("smooth random programs with shared subexpressions, repeated operands, inputs, constants and repeated values among the results; reverse sweeps for random, unit and zero weights at recorded and re-evaluated points against analytic adjoints, and the transpose identity with the forward sweep. Non-trivial: at least one adjoint compared")
}

// ------------------------------------------------------------ P07

fn opcode_of(node: &Node) -> Option<OpCode> {
    Some(match node {
        U(u, _) => match u {
            Un::Sin => OpCode::Sin,
            Un::Cos => OpCode::Cos,
            Un::Tan => OpCode::Tan,
            Un::Abs => OpCode::Abs,
            Un::Exp => OpCode::Exp,
            Un::Ln => OpCode::Ln,
            Un::Asin => OpCode::Asin,
            Un::Acos => OpCode::Acos,
            Un::Atan => OpCode::Atan,
            _ => return None,
        },
        B(b, _, _) => match b {
            Bi::Add | Bi::AddA => OpCode::Add,
            Bi::Sub | Bi::SubA => OpCode::Sub,
            Bi::Mul | Bi::MulA => OpCode::Mul,
            Bi::Div | Bi::DivA => OpCode::Div,
            Bi::Powf => OpCode::Powf,
            _ => return None,
        },
        F(f, _, _) => match f {
            Fl::Add | Fl::AddA | Fl::RAdd => OpCode::Add,
            Fl::Sub | Fl::SubA | Fl::RSub => OpCode::Sub,
            Fl::Mul | Fl::MulA | Fl::RMul => OpCode::Mul,
            Fl::Div | Fl::DivA | Fl::RDiv => OpCode::Div,
        },
        _ => return None,
    })
}

/// Operands are values of variables, or numbers that were never recorded
#[derive(Clone, Copy, Debug)]
enum Arg {
    Vid(usize),
    Num(f64),
}

/// One program being recorded on one context, with an independent account of what must be on it
struct Recording {
    ctx: AContext,
    vars: Vec<AD>,
    vid: Vec<Option<usize>>,
    indeps: Vec<usize>,
    deps: Vec<Arg>,
    seen_ops: usize,
    nabs: usize,
}

impl Recording {
    fn new(default: bool) -> Self {
        Recording { ctx: if default { AContext::default() } else { AContext::new() }, vars: vec![], vid: vec![], indeps: vec![], deps: vec![], seen_ops: 0, nabs: 0 }
    }
    fn arg(&self, i: usize) -> Arg {
        match self.vid[i] {
            Some(v) => Arg::Vid(v),
            None => Arg::Num(self.vars[i].value()),
        }
    }
    fn matches(&self, got: Option<usize>, want: Arg, ops: &[Operation], vals: &[f64]) -> bool {
        match (got, want) {
            (Some(g), Arg::Vid(v)) => g == v,
            (Some(g), Arg::Num(c)) => ops.iter().any(|o| o.vid == g && o.opcode == OpCode::Const) && same(vals[g], c),
            _ => false,
        }
    }
    /// mark the newest variable as a result, to learn its index
    fn probe(&mut self, v: &AD) -> Result<usize, Fail> {
        lib("set_dep", || self.ctx.set_dep(v))?;
        let k = *self.ctx.deps().last().unwrap();
        Ok(k)
    }
    fn push(&mut self, node: &Node, x: &[f64], declare: bool, rng: &mut Rng) -> Res {
        let before = self.seen_ops;
        let v = if let In(i) = node {
            let mut v = AD::new(x[*i], nice(rng, 0.3));
            if declare {
                let n0 = self.ctx.indeps().len();
                if rng.chance(0.3) {
                    v = self.ctx.new_indep(x[*i]);
                } else {
                    self.ctx.set_indep(&mut v);
                }
                let ids = self.ctx.indeps();
                ensure!(ids.len() == n0 + 1, "record:indep", "declaring an argument lists {} arguments after {}", ids.len(), n0);
                self.indeps.push(ids[n0]);
                self.vid.push(Some(ids[n0]));
                ensure!(same(v.value(), x[*i]), "record:indep", "declaring an argument changed its value");
            } else {
                self.vid.push(None);
            }
            self.vars.push(v);
            ensure!(self.ctx.operations().len() == before, "record:extra", "declaring an argument recorded an operation");
            return Ok(());
        } else {
            let vars = std::mem::take(&mut self.vars);
            let r = lib(&node.name(), || step(node, &[], &vars));
            self.vars = vars;
            r?
        };
        let (args, k) = node.args();
        let live = args[..k].iter().any(|a| self.vid[*a].is_some());
        let ops = self.ctx.operations();
        let vals = self.ctx.values();
        let new = &ops[before..];
        self.seen_ops = ops.len();
        if !live {
            ensure!(new.is_empty(), "record:unrelated", "{:?} on unrecorded numbers recorded {:?}", node, new);
            self.vars.push(v);
            self.vid.push(None);
            return Ok(());
        }
        let real: Vec<&Operation> = new.iter().filter(|o| o.opcode != OpCode::Const).collect();
        self.nabs += real.iter().filter(|o| o.opcode == OpCode::Abs).count();
        match *node {
            // powers by a plain exponent and the remaining composite operations may be recorded in any way
            _ if !node.is_elementary() => {
                ensure!(!real.is_empty(), "record:missing", "{:?} recorded nothing", node);
                self.vars.push(v);
                let vid = self.probe(&v)?;
                self.deps.push(Arg::Vid(vid));
                self.vid.push(Some(vid));
                ensure!(real.iter().any(|o| o.vid == vid), "record:missing", "the result of {:?} is value {} which it did not record ({:?})", node, vid, new);
                ensure!(same(vals[vid], v.value()), "record:value", "{:?} stored {} but computed {}", node, vals[vid], v.value());
            }
            U(Un::SinCos0, a) | U(Un::SinCos1, a) => {
                let want = if matches!(node, U(Un::SinCos0, _)) { OpCode::Sin } else { OpCode::Cos };
                let Some(op) = real.iter().find(|o| o.opcode == want) else {
                    crate::fail!("record:missing", "{:?} recorded {:?}", node, new);
                };
                ensure!(self.matches(op.arg1, self.arg(a), &ops, &vals), "record:operand", "{:?} recorded {:?}", node, op);
                let vid = op.vid;
                self.vars.push(v);
                self.vid.push(Some(vid));
                let p = self.probe(&v)?;
                self.deps.push(Arg::Vid(vid));
                ensure!(p == vid, "record:identity", "the result of {:?} refers to value {} instead of {}", node, p, vid);
            }
            _ => {
                ensure!(real.len() == 1, "record:count", "{:?} recorded {} operations: {:?}", node, real.len(), new);
                let op = real[0];
                ensure!(Some(op.opcode) == opcode_of(node), "record:opcode", "{:?} recorded {:?}", node, op);
                let want: Vec<Arg> = match *node {
                    F(f, a, c) => {
                        if matches!(f, Fl::RAdd | Fl::RSub | Fl::RMul | Fl::RDiv) {
                            vec![Arg::Num(c), self.arg(a)]
                        } else {
                            vec![self.arg(a), Arg::Num(c)]
                        }
                    }
                    _ => args[..k].iter().map(|a| self.arg(*a)).collect(),
                };
                let got = [op.arg1, op.arg2];
                ensure!(got.iter().flatten().count() == want.len(), "record:arity", "{:?} recorded {:?}", node, op);
                let straight = (0..want.len()).all(|i| self.matches(got[i], want[i], &ops, &vals));
                ensure!(straight, "record:operand", "{:?} recorded {:?} instead of operands {:?}", node, op, want);
                ensure!(same(vals[op.vid], v.value()), "record:value", "{:?} stored {} but computed {}", node, vals[op.vid], v.value());
                let consts = new.iter().filter(|o| o.opcode == OpCode::Const).count();
                let plain = want.iter().filter(|a| matches!(a, Arg::Num(_))).count();
                ensure!(consts <= plain, "record:extra", "{:?} recorded {} constants for {} plain operands", node, consts, plain);
                self.vars.push(v);
                self.vid.push(Some(op.vid));
            }
        }
        Ok(())
    }
    fn redeclare(&mut self, i: usize) -> Res {
        let (before, ops, mut v) = (self.ctx.indeps(), self.ctx.operations(), self.vars[i]);
        lib("set_indep", || self.ctx.set_indep(&mut v))?;
        let ids = self.ctx.indeps();
        ensure!(ids.len() == before.len() + 1 && ids[..before.len()] == before[..], "record:indep", "declaring a variable again turned the arguments {:?} into {:?}", before, ids);
        let id = ids[before.len()];
        ensure!(!before.contains(&id) && Some(id) != self.vid[i] && !ops.iter().any(|o| o.vid == id), "record:indep", "a variable declared again is value {}, which is not new", id);
        ensure!(self.ctx.operations() == ops && same(v.value(), self.vars[i].value()), "record:indep", "declaring a variable again recorded an operation or changed its value");
        self.indeps.push(id);
        self.vid[i] = Some(id);
        self.vars[i] = v;
        Ok(())
    }
    fn mark(&mut self, i: usize) -> Res {
        let v = self.vars[i];
        let a = self.arg(i);
        lib("set_dep", || if i % 2 == 0 { self.ctx.set_dep(&v) } else { self.ctx.set_dep_slice(&[v]) })?;
        self.deps.push(a);
        self.seen_ops = self.ctx.operations().len();
        Ok(())
    }
    /// Several results at once, repeated ones and constants among them
    fn mark_all(&mut self, which: &[usize]) -> Res {
        let v: Vec<AD> = which.iter().map(|i| self.vars[*i]).collect();
        lib("set_dep_slice", || self.ctx.set_dep_slice(&v))?;
        for i in which {
            let a = self.arg(*i);
            self.deps.push(a);
        }
        let n = self.ctx.deps().len();
        ensure!(n == self.deps.len(), "record:deps", "{} results listed after {} at once, {} marked", n, which.len(), self.deps.len());
        self.seen_ops = self.ctx.operations().len();
        Ok(())
    }
    fn finish(&self, obs: &mut Obs) -> Res {
        let t = self.ctx.tape();
        well_formed(&t)?;
        consistent(&t)?;
        ensure!(t.indeps() == &self.indeps[..], "record:indeps", "arguments listed {:?}, declared {:?}", t.indeps(), self.indeps);
        ensure!(t.num_indeps() == self.indeps.len(), "record:indeps", "{} arguments counted, {} declared", t.num_indeps(), self.indeps.len());
        ensure!(t.num_abs() == self.nabs, "record:abs", "{} absolute values counted, {} recorded", t.num_abs(), self.nabs);
        ensure!(t.num_deps() == self.deps.len(), "record:deps", "{} results listed, {} marked", t.num_deps(), self.deps.len());
        let (ops, vals) = (self.ctx.operations(), self.ctx.values());
        ensure!(ops == t.ops_iter().collect::<Vec<_>>() && bits(&vals) == bits(t.values()) && self.ctx.indeps() == t.indeps() && self.ctx.deps() == t.deps(), "record:views", "the tape and the context show different recordings");
        for (i, a) in self.deps.iter().enumerate() {
            ensure!(self.matches(Some(t.deps()[i]), *a, &ops, &vals), "record:deps", "result {} refers to value {} instead of {:?}", i, t.deps()[i], a);
        }
        obs.add("operations on tapes", ops.len() as u64);
        obs.max("operations on one tape", ops.len() as u64);
        obs.add("constants on tapes", ops.iter().filter(|o| o.opcode == OpCode::Const).count() as u64);
        Ok(())
    }
}

/// A recording continued through the operation-level interface
fn by_hand(rng: &mut Rng, ctx: &mut AContext, obs: &mut Obs) -> Res {
    const ALL: [OpCode; 16] = [
        OpCode::Const, OpCode::Add, OpCode::Sub, OpCode::Mul, OpCode::Div, OpCode::Powf, OpCode::Sin, OpCode::Cos,
        OpCode::Tan, OpCode::Abs, OpCode::Exp, OpCode::Ln, OpCode::Asin, OpCode::Acos, OpCode::Atan, OpCode::Abs,
    ];
    for _ in 0..rng.range(1, 12) {
        let (ops, vals, indeps, deps) = (ctx.operations(), ctx.values(), ctx.indeps(), ctx.deps());
        let opcode = if vals.is_empty() { OpCode::Const } else { *rng.pick(&ALL) };
        let mut op = Operation { opcode, vid: 0, arg1: None, arg2: None };
        if opcode != OpCode::Const {
            op.arg1 = Some(rng.below(vals.len()));
            if is_binary(opcode) {
                op.arg2 = Some(rng.below(vals.len()));
            }
        }
        let val = op_value(&op, &vals).unwrap_or_else(|| nice(rng, 0.3));
        op.vid = if rng.chance(0.15) {
            lib("record", || ctx.record(op.opcode, val as f32, op.arg1, op.arg2))?
        } else {
            lib("record", || ctx.record(op.opcode, val, op.arg1, op.arg2))?
        };
        let (o2, v2) = (ctx.operations(), ctx.values());
        ensure!(o2.len() == ops.len() + 1 && o2[..ops.len()] == ops[..] && o2[ops.len()] == op, "record:by-hand", "{:?} entered by hand recorded {:?}", op, o2.get(ops.len()));
        ensure!(v2.len() > vals.len() && bits(&v2[..vals.len()]) == bits(&vals) && op.vid >= vals.len() && op.vid < v2.len(), "record:by-hand", "{:?} entered by hand turned {} values into {}", op, vals.len(), v2.len());
        ensure!(same(v2[op.vid], val) || same(v2[op.vid], val as f32 as f64), "record:by-hand", "{:?} entered with value {} holds {}", op, val, v2[op.vid]);
        ensure!(ctx.indeps() == indeps && ctx.deps() == deps, "record:by-hand", "{:?} entered by hand changed the arguments or results", op);
        obs.add("operations entered by hand", 1);
    }
    well_formed(&ctx.tape())
}

pub fn p07(run: &Run) -> i32 {
    let n = run.pick(60_000, 1_500_000);
    run.cases_and_large(n, run.pick(24, 600), 8, |case, rng, obs| {
        if case % 3 == 2 || case >= LARGE {
            // function objects
            let (nn, ops, m) = sizes(case, rng);
            let cfg = Cfg { n: nn, ops, m, smooth: false, abs_only: false, kink_p: 0.2, points: 1, special: 0.4, plain: false };
            let (p, pts) = gen(rng, &cfg);
            obs.mark(&p.text(&pts[0]));
            let t = tape_of(&p, &pts[0])?;
            well_formed(&*t)?;
            consistent(&*t)?;
            ensure!(t.num_indeps() == nn && t.num_deps() == p.m(), "record:shape", "{} arguments and {} results of {} and {}", t.num_indeps(), t.num_deps(), nn, p.m());
            let y: Vec<AD> = p.eval(&pts[0].iter().map(|v| AD::from(*v)).collect::<Vec<_>>());
            let (tx, ty, depends) = (t.x(), t.y(), p.deps());
            let mut value_of: HashMap<usize, usize> = HashMap::new();
            let mut node_of: HashMap<usize, usize> = HashMap::new();
            for i in 0..p.m() {
                ensure!(same(ty[i], y[i].value()), "record:y", "stored result {} is {} instead of {}", i, ty[i], y[i].value());
                let (o, d) = (p.outs[i], t.deps()[i]);
                if depends[o] {
                    let d2 = *value_of.entry(o).or_insert(d);
                    let o2 = *node_of.entry(d).or_insert(o);
                    ensure!(d2 == d && o2 == o, "record:deps", "result {} is node {} and value {}; node {} was value {} and value {} was node {} before", i, o, d, o, d2, d, o2);
                }
            }
            for i in 0..p.m() {
                if !depends[p.outs[i]] {
                    ensure!(!node_of.contains_key(&t.deps()[i]), "record:deps", "result {} is a constant but value {} is node {}", i, t.deps()[i], node_of[&t.deps()[i]]);
                }
            }
            for i in 0..nn {
                ensure!(same(tx[i], pts[0][i]), "record:x", "stored argument {} is {}", i, tx[i]);
            }
            obs.add("operations on tapes", t.ops_iter().count() as u64);
            return Ok(());
        }
        // several recordings interleaved on one thread, arguments declared late, results marked early
        let k = rng.range(1, 3);
        let mut all = vec![];
        for _ in 0..k {
            let cfg = Cfg { n: rng.range(1, 6), ops: rng.range(3, 50), m: rng.range(0, 4), smooth: false, abs_only: false, kink_p: 0.15, points: 1, special: 0.4, plain: false };
            let (p, pts) = gen(rng, &cfg);
            let declare: Vec<bool> = (0..p.n).map(|_| rng.chance(0.8)).collect();
            all.push((p, pts[0].clone(), declare, 0usize, Recording::new(rng.chance(0.3))));
        }
        obs.mark(&all.iter().map(|a| a.0.text(&a.1)).collect::<Vec<_>>().join(" | "));
        loop {
            let left: Vec<usize> = (0..k).filter(|i| all[*i].3 < all[*i].0.nodes.len()).collect();
            if left.is_empty() {
                break;
            }
            let i = *rng.pick(&left);
            let (p, x, declare, pos, r) = &mut all[i];
            let node = p.nodes[*pos];
            let dec = matches!(node, In(j) if declare[j]);
            r.push(&node, x, dec, rng)?;
            *pos += 1;
            obs.add("operations watched", 1);
            // a variable given another tangent, or read through a mutable borrow, stays the one recorded
            if rng.chance(0.05) {
                let j = rng.below(r.vars.len());
                lib("dvalue_mut", || {
                    *r.vars[j].dvalue_mut() = nice(rng, 0.3);
                    let v = *r.vars[j].value_mut();
                    *r.vars[j].value_mut() = v;
                })?;
                obs.add("tangents set in place", 1);
            }
            if rng.chance(0.05) {
                let j = rng.below(r.vars.len());
                r.mark(j)?;
            }
            if rng.chance(0.02) {
                let mut which: Vec<usize> = (0..rng.below(6)).map(|_| rng.below(r.vars.len())).collect();
                if rng.chance(0.5) && !which.is_empty() {
                    which.push(*which.last().unwrap());
                    which.push(which[0]);
                }
                r.mark_all(&which)?;
                obs.add("results marked several at once", which.len() as u64);
            }
            // a variable that is recorded already becomes an argument, again or for the first time
            if rng.chance(0.02) {
                let j = rng.below(r.vars.len());
                r.redeclare(j)?;
                obs.add("variables declared again", 1);
            }
            // tapes of unfinished recordings, whatever was recorded last
            if rng.chance(0.15) || dec {
                let t = r.ctx.tape();
                well_formed(&t)?;
                obs.add("unfinished recordings checked", 1);
            }
        }
        for (p, _, _, _, r) in all.iter_mut() {
            if rng.chance(0.5) {
                r.mark_all(&p.outs)?;
            } else {
                for o in p.outs.clone() {
                    r.mark(o)?;
                }
            }
            // a further argument declared after everything else, vectors of arguments
            if rng.chance(0.3) {
                let n0 = r.ctx.indeps().len();
                let count = match rng.below(8) {
                    0 => 0,
                    1 => rng.range(60, 300),
                    _ => rng.range(1, 6),
                };
                let (value, before) = (nice(rng, 0.5), r.ctx.operations().len());
                let v: Vec<AD> = r.ctx.new_indep_vec(count, value);
                let ids = r.ctx.indeps();
                ensure!(v.len() == count && ids.len() == n0 + count, "record:indep", "{} further arguments gave {} variables, {} listed", count, v.len(), ids.len() - n0);
                ensure!(r.ctx.operations().len() == before, "record:extra", "declaring {} arguments recorded an operation", count);
                let vals = r.ctx.values();
                ensure!(ids[n0..].iter().all(|i| same(vals[*i], value)), "record:indep", "{} further arguments of {} hold {:?}", count, value, ids[n0..].iter().map(|i| vals[*i]).collect::<Vec<_>>());
                r.indeps.extend(&ids[n0..]);
                well_formed(&r.ctx.tape())?;
                let marked = rng.chance(0.5);
                for (j, a) in v.iter().enumerate() {
                    ensure!(same(a.value(), value) && a.dvalue() == 0.0, "record:indep", "a new argument has value {} and first-order value {}", a.value(), a.dvalue());
                    if !marked {
                        continue;
                    }
                    let w = r.probe(a)?;
                    r.deps.push(Arg::Vid(ids[n0 + j]));
                    ensure!(w == ids[n0 + j], "record:identity", "new argument {} refers to value {} instead of {}", j, w, ids[n0 + j]);
                }
            }
            r.finish(obs)?;
            // operations entered by hand
            if rng.chance(0.3) {
                by_hand(rng, &mut r.ctx, obs)?;
            }
        }
        Ok(())
    });
    run.finish("random programs recorded operation by operation on one to three interleaved contexts, with unrecorded numbers mixed in, arguments declared late and results marked early; after every operation the newly recorded entries are compared with an independent account (opcode, operands, constants, value), and the finished tape is checked for structure, order, counts and stored values. Non-trivial: at least one operation watched")
}

// ------------------------------------------------------------ P10

/// Everything that may be asked of a tape, as bits
fn answers(t: &dyn Tape, seed: u64, smooth: bool) -> Result<Vec<u64>, Fail> {
    let mut r = Rng::new(seed);
    let dx: Vec<f64> = (0..t.num_indeps()).map(|_| nice(&mut r, 0.3)).collect();
    let yb: Vec<f64> = (0..t.num_deps()).map(|_| nice(&mut r, 0.3)).collect();
    let mut out = vec![];
    out.extend(bits(lib("first_order_forward", || t.first_order_forward(&dv(&dx)))?.as_slice()));
    if smooth {
        out.extend(bits(lib("first_order_reverse", || t.first_order_reverse(&dv(&yb)))?.as_slice()));
        out.extend(bits(lib("jacobian_reverse", || jacobian_reverse(t))?.as_slice()));
    }
    out.extend(bits(t.x().as_slice()));
    out.extend(bits(t.y().as_slice()));
    out.push(t.max_id() as u64);
    out.push(t.num_abs() as u64);
    Ok(out)
}

/// A tape that must not change, shared by an abs-normal view
#[derive(Debug)]
struct Shared(std::sync::Arc<Box<dyn Tape>>);
impl Tape for Shared {
    fn indeps(&self) -> &[usize] {
        self.0.indeps()
    }
    fn deps(&self) -> &[usize] {
        self.0.deps()
    }
    fn values(&self) -> &[f64] {
        self.0.values()
    }
    fn values_mut(&mut self) -> &mut [f64] {
        panic!("a query asked for write access to the tape's values")
    }
    fn ops_iter<'a>(&'a self) -> Box<dyn DoubleEndedIterator<Item = Operation> + 'a> {
        self.0.ops_iter()
    }
}

fn middle(case: u64, rng: &mut Rng) -> (usize, usize, usize) {
    if case < LARGE {
        return (rng.range(1, 5), rng.range(4, 40), rng.range(1, 4));
    }
    match rng.below(3) {
        0 => (rng.range(1, 5), rng.range(1000, 3000), rng.range(1, 4)),
        1 => (rng.range(257, 400), rng.range(300, 800), rng.range(1, 9)),
        _ => (rng.range(1, 9), rng.range(300, 800), rng.range(257, 400)),
    }
}

fn snapshot_history(case: u64, rng: &mut Rng, obs: &mut Obs) -> Res {
    let smooth = rng.chance(0.6);
    let (n, ops, m) = middle(case, rng);
    let cfg = Cfg { n, ops, m, smooth, abs_only: false, kink_p: 0.2, points: 3, special: 0.2, plain: false };
    let (p, pts) = gen(rng, &cfg);
    obs.mark(&p.text(&pts[0]));
    let mut ctx = AContext::new();
    let mut xs: Vec<AD> = pts[0].iter().map(|v| AD::from(*v)).collect();
    for x in xs.iter_mut() {
        ctx.set_indep(x);
    }
    let mut v: Vec<AD> = vec![];
    let cut = rng.below(p.nodes.len() + 1);
    for node in p.nodes[..cut].iter() {
        let r = step(node, &xs, &v);
        v.push(r);
    }
    if cut > 0 {
        let o = rng.below(cut);
        ctx.set_dep(&v[o]);
    }
    // a tape taken half way
    let early = ctx.tape();
    let mut early2 = early.clone();
    let early_im = image(&early);
    well_formed(&early)?;
    let early_ans = answers(&early, 7, smooth)?;
    for node in p.nodes[cut..].iter() {
        let r = step(node, &xs, &v);
        v.push(r);
    }
    for o in p.outs.iter() {
        ctx.set_dep(&v[*o]);
    }
    let mut late = ctx.tape();
    let late_im = image(&late);
    let (mut indeps, mut deps) = (late_im.indeps.clone(), late_im.deps.clone());
    let late_ans = answers(&late, 9, smooth)?;
    let mut copies: Vec<(Box<dyn Tape>, Image)> = vec![];
    let mut late_state = (late_im.clone(), late_ans);
    let mut early2_im = early_im.clone();
    for _ in 0..rng.range(3, 10) {
        let what = rng.below(8);
        match what {
            0 => {
                let k = rng.below(v.len());
                let w = if rng.chance(0.5) { v[k] } else { v[k].sin() + 1.0 };
                ctx.set_dep(&w);
                deps.push(*ctx.deps().last().unwrap());
                ensure!(ctx.deps()[..deps.len() - 1] == deps[..deps.len() - 1], "snapshot:context", "declaring a result changed earlier ones");
                v.push(w);
            }
            1 => {
                let mut extra = AD::new(3.0, 0.0);
                ctx.set_indep(&mut extra);
                indeps.push(*ctx.indeps().last().unwrap());
                v.push(extra * 2.0);
            }
            2 => {
                for x in xs.iter_mut().chain(v.iter_mut()) {
                    *x.value_mut() = 99.0;
                    *x.dvalue_mut() = -5.0;
                }
            }
            3 => {
                lib("zero_order", || early2.zero_order(&dv(&pts[1])))?;
                let im = image(&early2);
                ensure!((&im.indeps, &im.deps, &im.ops, im.values.len()) == (&early_im.indeps, &early_im.deps, &early_im.ops, early_im.values.len()), "snapshot:procedure", "re-evaluating changed the procedure");
                early2_im = im;
            }
            4 => {
                let mut c = late.clone();
                lib("zero_order", || c.zero_order(&dv(&pts[2])))?;
                let im = image(&c);
                copies.push((Box::new(c), im));
            }
            5 => {
                let k = rng.below(3);
                lib("zero_order", || late.zero_order(&dv(&pts[k])))?;
                let im = image(&late);
                ensure!((&im.indeps, &im.deps, &im.ops, im.values.len()) == (&late_im.indeps, &late_im.deps, &late_im.ops, late_im.values.len()), "snapshot:procedure", "re-evaluating changed the procedure");
                let a = answers(&late, 9, smooth)?;
                late_state = (im, a);
                if k == 0 {
                    ensure!(late_state.0 == late_im, "snapshot:return", "re-evaluating at the recorded point does not restore the recorded values");
                }
            }
            6 => {
                // the context itself is not touched by its tapes
                let now = ctx.tape();
                let (a, b) = (image(&now), &late_im);
                ensure!(a.indeps == indeps && a.deps == deps, "snapshot:context", "a tape taken now has the arguments {:?} and results {:?} instead of {:?} and {:?}", a.indeps, a.deps, indeps, deps);
                ensure!(a.ops.len() >= b.ops.len() && a.ops[..b.ops.len()] == b.ops[..] && a.values[..b.values.len()] == b.values[..], "snapshot:context", "the context's recording changed");
            }
            _ => {
                if rng.chance(0.5) {
                    let mut other = AContext::new();
                    let mut y = AD::from(1.0);
                    other.set_indep(&mut y);
                    other.set_dep(&(y * y));
                    let _ = other.tape().first_order_forward(&dv(&[1.0]));
                } else {
                    let _ = answers(&late, rng.u64(), smooth)?;
                }
            }
        }
        obs.add("events after the snapshot", 1);
        ensure!(image(&early) == early_im, "snapshot:early", "a tape changed because of event {} elsewhere", what);
        ensure!(image(&early2) == early2_im, "snapshot:clone", "a cloned tape changed because of event {} elsewhere", what);
        ensure!(image(&late) == late_state.0, "snapshot:late", "a tape changed because of event {} elsewhere", what);
        for (c, im) in copies.iter() {
            ensure!(image(&**c) == *im, "snapshot:clone", "a cloned tape changed because of event {} elsewhere", what);
        }
    }
    drop(ctx);
    drop(v);
    ensure!(image(&early) == early_im && image(&late) == late_state.0, "snapshot:drop", "a tape changed when its context was dropped");
    ensure!(answers(&early, 7, smooth)? == early_ans && answers(&late, 9, smooth)? == late_state.1, "snapshot:answers", "a tape answers differently after its context was dropped");
    Ok(())
}

fn queries_pure(case: u64, rng: &mut Rng, obs: &mut Obs, threads: usize) -> Res {
    let smooth = rng.chance(0.5);
    let (n, ops, m) = middle(case, rng);
    let cfg = Cfg { n, ops, m, smooth, abs_only: false, kink_p: 0.25, points: 2, special: 0.2, plain: false };
    let (p, pts) = gen(rng, &cfg);
    obs.mark(&p.text(&pts[0]));
    let f = ProgFn::new(p.clone());
    let style = if rng.chance(0.5) { 0 } else { rng.u64() };
    let mut t = tape_some(&p, &pts[0], style)?;
    lib("zero_order", || t.zero_order(&dv(&pts[1])))?;
    let before = image(&*t);
    let inner = std::sync::Arc::new(t);
    let abs_tape = AbsNormalTape::new(Box::new(Shared(inner.clone())));
    let seed = rng.u64();
    let (nn, m, s) = (p.n, p.m(), abs_tape.s());
    let x1 = dv(&pts[1]);
    let dx = dv(&(0..nn).map(|_| nice(rng, 0.3)).collect::<Vec<_>>());
    let ask = |k: usize| -> Result<Vec<u64>, Fail> {
        match k {
            0 => answers(&**inner, seed, smooth),
            1 => Ok(mbits(&lib("Z.mul_right", || AbsNormalZ::new(&abs_tape).mul_right(&DMatrix::identity(nn, nn)))?).2),
            2 => Ok(mbits(&lib("L.mul_left", || AbsNormalL::new(&abs_tape).mul_left(&DMatrix::identity(s, s)))?).2),
            3 => Ok(mbits(&lib("J.mul_left", || AbsNormalJ::new(&abs_tape).mul_left(&DMatrix::identity(m, m)))?).2),
            4 => Ok(mbits(&lib("Y.mul_right", || AbsNormalY::new(&abs_tape).mul_right(&DMatrix::identity(s, s)))?).2),
            5 => {
                let g = lib("generalized_jacobian_tape", || generalized_jacobian_tape(Box::new(Shared(inner.clone())), &dx, &[0b1010], None))?;
                let mut r = bits(g.homogenous.as_slice());
                r.extend(bits(g.inhomogenous.as_slice()));
                r.push(g.multiplicity as u64);
                Ok(r)
            }
            6 => {
                let a = lib("abs_normal", || abs_normal(&f, &x1))?;
                Ok(bits(&[a.a.as_slice(), a.zmat.as_slice(), a.lmat.as_slice(), a.b.as_slice(), a.jmat.as_slice(), a.ymat.as_slice()].concat()))
            }
            7 => {
                let g = lib("generalized_jacobian", || generalized_jacobian(&f, &x1, &dx, &[], None))?;
                Ok(bits(&[g.homogenous.as_slice(), g.inhomogenous.as_slice()].concat()))
            }
            _ => {
                let j = lib("jacobian_forward", || jacobian_forward(&f, &x1))?;
                Ok(bits(j.as_slice()))
            }
        }
    };
    let first: Vec<Vec<u64>> = (0..9).map(|k| ask(k)).collect::<Result<_, _>>()?;
    let order: Vec<usize> = (0..18).map(|_| rng.below(9)).collect();
    for k in order.iter() {
        ensure!(ask(*k)? == first[*k], "pure:repeat", "asking query {} again gives another answer", k);
        ensure!(image(&**inner) == before, "pure:changed", "query {} changed the tape", k);
        obs.add("queries repeated", 1);
    }
    if threads > 1 {
        let errs: Vec<Res> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..threads)
                .map(|w| {
                    let (ask, first, order) = (&ask, &first, &order);
                    sc.spawn(move || -> Res {
                        for (i, k) in order.iter().enumerate() {
                            let k = (k + w) % 9;
                            pause(crate::rng::hash_u64(seed, (i * 16 + w) as u64));
                            ensure!(ask(k)? == first[k], "pure:concurrent", "asking query {} from several threads gives another answer", k);
                        }
                        Ok(())
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Fail { sig: "panic:concurrent".into(), detail: LAST_PANIC_ANY.lock().unwrap().clone() }))).collect()
        });
        for e in errs {
            e?;
        }
        obs.add("concurrent queries", (threads * order.len()) as u64);
        ensure!(image(&**inner) == before, "pure:changed", "concurrent queries changed the tape");
    }
    Ok(())
}

pub fn p10(run: &Run) -> i32 {
    let n = run.pick(12_000, 120_000);
    run.cases_and_large(n, run.pick(40, 800), 8, |case, rng, obs| match case % 6 {
        0..=3 => snapshot_history(case, rng, obs),
        4 => queries_pure(case, rng, obs, 1),
        _ => queries_pure(case, rng, obs, 4),
    });
    run.finish("histories: tapes taken half way and at the end of a recording, then further recording, new arguments and results, overwritten variables, re-evaluated clones, queries, other contexts, dropping the context; after each event every tape's whole image is compared bit by bit. Queries (sweeps, Jacobians, abs-normal products, generalized Jacobians) repeated in random order, also from four threads at once, must give identical bits and leave the image alone. Non-trivial: at least one event or repeated query")
}

#[allow(unused)]
fn keep(f: &dyn Function) {}
