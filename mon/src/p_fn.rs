//! Function chains: P20.
use crate::p_anf::compose;
use crate::prog::*;
use crate::refs::same;
use crate::report::*;
use crate::rng::Rng;
use crate::util::*;
use advantage::{AContext, AFloat, DVector, Function, FunctionChain};

type AD = AFloat<f64>;

/// The leaves as a chain nested at random; also says how deep
fn nested(rng: &mut Rng, leaves: &[Prog], depth: usize, max: usize) -> (FunctionChain, usize) {
    // some chains have nearly all their functions as direct parts
    let wide = leaves.len() > 60 && rng.chance(0.4);
    let mut parts: Vec<Box<dyn Function>> = vec![];
    let mut deepest = depth;
    let mut i = 0;
    while i < leaves.len() {
        let rest = leaves.len() - i;
        let k = if rng.chance(0.5) { 1 } else { rng.range(1, if wide && depth > 1 { rest.min(3) } else { rest }) };
        if depth < max && rng.chance(if k > 1 { 1.0 } else { 0.2 }) && !(k == leaves.len() && rng.chance(0.5)) {
            let (c, d) = nested(rng, &leaves[i..i + k], depth + 1, max);
            deepest = deepest.max(d);
            parts.push(Box::new(c));
            i += k;
        } else {
            parts.push(Box::new(ProgFn::new(leaves[i].clone())));
            i += 1;
        }
    }
    let mut it = parts.into_iter();
    let mut chain = FunctionChain::from_boxed(it.next().unwrap());
    for f in it {
        chain.append_boxed(f);
    }
    (chain, deepest)
}

fn leaves(rng: &mut Rng, large: bool) -> (Vec<Prog>, Vec<f64>) {
    let len = if large { rng.range(200, 400) } else { *rng.pick(&[1, 1, 2, 2, 3, 4, 5, 7, 12]) };
    let mut n = if rng.chance(0.05) { 0 } else { rng.range(1, 5) };
    let x0: Vec<f64> = (0..n).map(|_| nice(rng, 0.3)).collect();
    let mut out: Vec<Prog> = vec![];
    for _ in 0..len {
        let m = if rng.chance(0.04) { 0 } else { rng.range(1, 5) };
        let cfg = Cfg { n, ops: rng.range(1, 10), m, smooth: false, abs_only: false, kink_p: 0.1, points: 1, special: 0.3, plain: true };
        let (p, _) = gen(rng, &cfg);
        n = p.m();
        out.push(p);
    }
    (out, x0)
}

fn eval_by_hand(leaves: &[Prog], x: &[AD]) -> Vec<AD> {
    let mut v = x.to_vec();
    for p in leaves {
        v = p.eval(&v);
    }
    v
}

pub fn p20(run: &Run) -> i32 {
    let n = run.pick(150_000, 3_000_000);
    run.cases_and_large(n, run.pick(40, 800), 8, |case, rng, obs| {
        let large = case >= LARGE;
        let (ps, x0) = leaves(rng, large);
        let (chain, depth) = lib("chain", || nested(rng, &ps, 1, if large { 150 } else { 6 }))?;
        obs.mark(&format!("{} leaves nested {} deep: {}", ps.len(), depth, compose(&ps).text(&x0)));
        obs.max("leaves", ps.len() as u64);
        obs.max("nesting", depth as u64);
        let (n, m) = (ps[0].n, ps.last().unwrap().m());
        ensure!(chain.n() == n && chain.m() == m, "chain:dims", "chain from {} to {} reports {} and {}", n, m, chain.n(), chain.m());
        ensure!(chain.chain().is_some_and(|c| std::ptr::eq(c, &chain)), "chain:self", "a chain does not give itself as a chain");
        // leaves in order
        ensure!(chain.len() == ps.len(), "chain:len", "length {} with {} leaves", chain.len(), ps.len());
        let mut count = 0;
        for (k, f) in chain.iter().enumerate() {
            ensure!(k < ps.len(), "chain:iter", "iteration gives more than {} leaves", ps.len());
            let g = lib("nth", || chain.nth(k))?;
            for (how, f) in [("iteration", f), ("index", g)] {
                ensure!(f.n() == ps[k].n && f.m() == ps[k].m(), "chain:leaf", "{} {} has dimensions {} and {} instead of {} and {}", how, k, f.n(), f.m(), ps[k].n, ps[k].m());
                ensure!(f.chain().is_none(), "chain:leaf", "{} {} gives a chain, not a leaf", how, k);
                let probe: Vec<AD> = (0..f.n()).map(|i| AD::new(0.37 + i as f64 * 0.61, 1.0)).collect();
                let a = lib("eval", || f.eval(DVector::from_vec(probe.clone())))?;
                let b = ps[k].eval(&probe);
                ensure!(a.len() == b.len() && a.iter().zip(&b).all(|(p, q)| same(p.value(), q.value()) && same(p.dvalue(), q.dvalue())), "chain:leaf", "{} {} evaluates as another leaf", how, k);
            }
            count += 1;
        }
        ensure!(count == ps.len(), "chain:iter", "iteration gives {} of {} leaves", count, ps.len());
        // there is nothing beyond the last leaf
        for k in [ps.len(), ps.len() + 1 + rng.below(70), 2 * ps.len(), usize::MAX] {
            if attempt(|| chain.nth(k).n()).is_ok() {
                fail!("chain:beyond", "index {} of a chain of {} leaves gives a function", k, ps.len());
            }
        }
        obs.add("leaves reached by iteration and by index", count as u64);
        // plain floats
        let by_hand: Vec<f64> = eval_by_hand(&ps, &x0.iter().map(|v| AD::from(*v)).collect::<Vec<_>>()).iter().map(|y| y.value()).collect();
        let y = lib("eval_float", || chain.eval_float(dv(&x0)))?;
        ensure!(y.len() == m && y.iter().zip(&by_hand).all(|(a, b)| same(*a, *b)), "chain:float", "on floats {:?} instead of {:?}", y.as_slice(), by_hand);
        // AD scalars with directions
        let xd: Vec<AD> = x0.iter().map(|v| AD::new(*v, nice(rng, 0.4))).collect();
        let want = eval_by_hand(&ps, &xd);
        let got = lib("eval", || chain.eval(DVector::from_vec(xd.clone())))?;
        ensure!(got.len() == m && got.iter().zip(&want).all(|(a, b)| same(a.value(), b.value()) && same(a.dvalue(), b.dvalue())), "chain:ad", "on AD scalars {:?} instead of {:?}", got.as_slice(), want);
        // taped
        let t = lib("tape", || chain.tape(&dv(&x0)))?;
        let mut ctx = AContext::new();
        let mut xs: Vec<AD> = x0.iter().map(|v| AD::from(*v)).collect();
        for a in xs.iter_mut() {
            ctx.set_indep(a);
        }
        for y in eval_by_hand(&ps, &xs) {
            ctx.set_dep(&y);
        }
        let h = ctx.tape();
        ensure!(image(&*t) == image(&h), "chain:tape", "the chain's tape is not that of its functions one after another");
        let dx = DVector::from_fn(n, |_, _| nice(rng, 0.3));
        let (a, b) = (lib("forward", || t.first_order_forward(&dx))?, lib("forward", || advantage::Tape::first_order_forward(&h, &dx))?);
        ensure!(bits(a.as_slice()) == bits(b.as_slice()), "chain:tape", "the chain's tape differentiates differently");
        // appending
        let mut chain = chain;
        let fit = rng.chance(0.5);
        let k = if fit { m } else { *rng.pick(&[m + 1, m + 2, m.saturating_sub(1), 0]) };
        if k == m || fit {
            let extra = Prog { n: m, nodes: if m == 0 { vec![Node::K(2.0)] } else { (0..m).map(Node::In).collect() }, outs: vec![0] };
            lib("append", || chain.append(ProgFn::new(extra)))?;
            ensure!(chain.len() == ps.len() + 1 && chain.m() == 1, "chain:append", "length {} and {} results after appending", chain.len(), chain.m());
            obs.add("functions appended", 1);
        } else {
            let extra = Prog { n: k, nodes: if k == 0 { vec![Node::K(2.0)] } else { (0..k).map(Node::In).collect() }, outs: vec![0] };
            if rng.chance(0.5) {
                refused("append", || chain.append(ProgFn::new(extra)))?;
            } else {
                let inner = FunctionChain::new(ProgFn::new(extra));
                refused("append", || chain.append(inner))?;
            }
            ensure!(chain.len() == ps.len() && chain.m() == m, "chain:append", "a refused function is part of the chain");
            obs.add("functions that do not fit refused", 1);
        }
        Ok(())
    });
    run.finish("random sequences of 1 to 12 functions (dimension 0 included) nested up to 6 deep, and of 200 to 400 nested up to 150 deep; dimensions, length, iteration and index against the flat list, evaluation on floats, on AD scalars and recording against the functions applied by hand, bit by bit, appending functions that fit and that do not. Non-trivial: every case")
}
