//! Shared monitors over tapes and functions.
use crate::prog::*;
use crate::report::*;

use advantage::{AContext, AFloat, DMatrix, DVector, Function, OpCode, Operation, Tape};

pub fn dv(x: &[f64]) -> DVector<f64> {
    DVector::from_vec(x.to_vec())
}

/// Bits of all numbers; any NaN is the same
pub fn bits(x: &[f64]) -> Vec<u64> {
    x.iter().map(|v| if v.is_nan() { f64::NAN.to_bits() } else { v.to_bits() }).collect()
}
pub fn mbits(x: &DMatrix<f64>) -> (usize, usize, Vec<u64>) {
    (x.nrows(), x.ncols(), bits(x.as_slice()))
}

/// Everything a tape shows
#[derive(Debug, Clone, PartialEq)]
pub struct Image {
    pub indeps: Vec<usize>,
    pub deps: Vec<usize>,
    pub ops: Vec<Operation>,
    pub values: Vec<u64>,
}
pub fn image(t: &dyn Tape) -> Image {
    Image {
        indeps: t.indeps().to_vec(),
        deps: t.deps().to_vec(),
        ops: t.ops_iter().collect(),
        values: bits(t.values()),
    }
}

pub fn is_binary(o: OpCode) -> bool {
    matches!(o, OpCode::Add | OpCode::Sub | OpCode::Mul | OpCode::Div | OpCode::Powf)
}

/// Value of a recorded operation
pub fn op_value(op: &Operation, v: &[f64]) -> Option<f64> {
    let a = v[op.arg1?];
    let b = op.arg2.map(|i| v[i]);
    Some(match op.opcode {
        OpCode::Nop | OpCode::Const => return None,
        OpCode::Add => a + b?,
        OpCode::Sub => a - b?,
        OpCode::Mul => a * b?,
        OpCode::Div => a / b?,
        OpCode::Powf => a.powf(b?),
        OpCode::Sin => a.sin(),
        OpCode::Cos => a.cos(),
        OpCode::Tan => a.tan(),
        OpCode::Abs => a.abs(),
        OpCode::Exp => a.exp(),
        OpCode::Ln => a.ln(),
        OpCode::Asin => a.asin(),
        OpCode::Acos => a.acos(),
        OpCode::Atan => a.atan(),
    })
}

/// Partial derivatives of a recorded smooth operation
pub fn op_partials(op: &Operation, v: &[f64]) -> (f64, f64) {
    let a = v[op.arg1.unwrap()];
    let b = op.arg2.map(|i| v[i]).unwrap_or(0.0);
    match op.opcode {
        OpCode::Add => (1.0, 1.0),
        OpCode::Sub => (1.0, -1.0),
        OpCode::Mul => (b, a),
        OpCode::Div => (1.0 / b, -a / (b * b)),
        OpCode::Powf => (
            if b == 0.0 { 0.0 } else { b * a.powf(b - 1.0) },
            if a > 0.0 { a.ln() * a.powf(b) } else { 0.0 },
        ),
        OpCode::Sin => (a.cos(), 0.0),
        OpCode::Cos => (-a.sin(), 0.0),
        OpCode::Tan => (1.0 + a.tan() * a.tan(), 0.0),
        OpCode::Exp => (a.exp(), 0.0),
        OpCode::Ln => (1.0 / a, 0.0),
        OpCode::Asin => (1.0 / ((1.0 - a) * (1.0 + a)).sqrt(), 0.0),
        OpCode::Acos => (-1.0 / ((1.0 - a) * (1.0 + a)).sqrt(), 0.0),
        OpCode::Atan => (1.0 / (1.0 + a * a), 0.0),
        _ => (f64::NAN, 0.0),
    }
}

/// Structure of a complete evaluation procedure
pub fn well_formed(t: &dyn Tape) -> Res {
    let vals = t.values();
    let n = vals.len();
    let mut defined = vec![false; n];
    for (k, i) in t.indeps().iter().enumerate() {
        ensure!(*i < n, "wf:range", "argument {} has value index {} but there are {} values", k, i, n);
        ensure!(!defined[*i], "wf:twice", "value {} is defined twice (argument {})", i, k);
        defined[*i] = true;
    }
    let mut abs = 0;
    let mut maxid = t.indeps().iter().copied().max().unwrap_or(0);
    for (k, op) in t.ops_iter().enumerate() {
        ensure!(op.vid < n, "wf:range", "operation {} {:?} is out of range ({} values)", k, op, n);
        let want = match op.opcode {
            OpCode::Nop => fail!("wf:nop", "operation {} is {:?}", k, op),
            OpCode::Const => (false, false),
            o => (true, is_binary(o)),
        };
        ensure!((op.arg1.is_some(), op.arg2.is_some()) == want, "wf:arity", "operation {} {:?} has the wrong operands", k, op);
        for a in [op.arg1, op.arg2].iter().flatten() {
            ensure!(*a < n && defined[*a], "wf:order", "operation {} {:?} uses value {} before it is defined", k, op, a);
        }
        ensure!(!defined[op.vid], "wf:twice", "value {} is defined twice (operation {} {:?})", op.vid, k, op);
        defined[op.vid] = true;
        abs += (op.opcode == OpCode::Abs) as usize;
        maxid = maxid.max(op.vid);
    }
    for (k, i) in t.deps().iter().enumerate() {
        ensure!(*i < n && defined[*i], "wf:dep", "result {} refers to value {} which nothing defines", k, i);
    }
    ensure!(t.num_indeps() == t.indeps().len(), "wf:count", "num_indeps {} of {}", t.num_indeps(), t.indeps().len());
    ensure!(t.num_deps() == t.deps().len(), "wf:count", "num_deps {} of {}", t.num_deps(), t.deps().len());
    ensure!(t.num_abs() == abs, "wf:count", "num_abs {} but {} absolute values are recorded", t.num_abs(), abs);
    ensure!(t.max_id() == maxid, "wf:maxid", "max_id {} but the largest index is {}", t.max_id(), maxid);
    Ok(())
}

/// Every stored value is what its operation gives on the stored operands
pub fn consistent(t: &dyn Tape) -> Res {
    let (v, tx, ty) = (t.values(), t.x(), t.y());
    for op in t.ops_iter() {
        if let Some(r) = op_value(&op, v) {
            ensure!(crate::refs::same(r, v[op.vid]), "wf:value", "value {} is {:?} but {:?} gives {:?}", op.vid, v[op.vid], op, r);
        }
    }
    for (i, k) in t.indeps().iter().enumerate() {
        ensure!(crate::refs::same(tx[i], v[*k]), "wf:x", "x()[{}] is {} but the value is {}", i, tx[i], v[*k]);
    }
    for (i, k) in t.deps().iter().enumerate() {
        ensure!(crate::refs::same(ty[i], v[*k]), "wf:y", "y()[{}] is {} but the value is {}", i, ty[i], v[*k]);
    }
    Ok(())
}

pub fn tape_of(p: &Prog, x: &[f64]) -> Result<Box<dyn Tape>, Fail> {
    let f = ProgFn::new(p.clone());
    lib("record", || f.tape(&dv(x)))
}

/// A tape of the program recorded in one of many ways. Style 0: by the function object. Otherwise by hand,
/// with arguments declared as late as they are needed, operations in between that nothing depends on, results
/// marked as soon as they are known and a second recording going on.
pub fn tape_some(p: &Prog, x: &[f64], style: u64) -> Result<Box<dyn Tape>, Fail> {
    if style == 0 {
        return tape_of(p, x);
    }
    let mut rng = crate::rng::Rng::new(style);
    let rng = &mut rng;
    // declare arguments up to the one needed
    let input = |i: usize| match p.nodes[i] {
        Node::In(k) => k + 1,
        _ => 0,
    };
    let (junk, early, late) = (*rng.pick(&[0.0, 0.1, 0.5]), *rng.pick(&[0.0, 0.2, 1.0]), rng.chance(0.8));
    lib("record", || {
        let mut ctx = AContext::new();
        let mut other = AContext::new();
        let mut w = other.new_indep(0.5f64);
        let mut args: Vec<AFloat<f64>> = vec![];
        // what is not known yet is zero
        let mut v: Vec<AFloat<f64>> = vec![AFloat::new(0.0, 0.0); p.nodes.len()];
        let mut has = vec![false; p.nodes.len()];
        let mut order: Vec<usize> = vec![];
        let mut at: Vec<Vec<usize>> = vec![vec![]; p.n];
        for i in 0..p.nodes.len() {
            if let Node::In(j) = p.nodes[i] {
                at[j].push(i);
            }
        }
        let mut marked = 0;
        let declare = |upto: usize, ctx: &mut AContext, args: &mut Vec<AFloat<f64>>, v: &mut Vec<AFloat<f64>>, has: &mut Vec<bool>, order: &mut Vec<usize>, rng: &mut crate::rng::Rng| {
            while args.len() < upto {
                let k = args.len();
                let mut a = AFloat::new(x[k], rng.uniform(-2.0, 2.0));
                if rng.chance(0.5) {
                    ctx.set_indep(&mut a);
                } else {
                    a = ctx.new_indep(x[k]);
                }
                args.push(a);
                for i in at[k].iter() {
                    v[*i] = a;
                    has[*i] = true;
                    order.push(*i);
                }
            }
        };
        if !late {
            declare(p.n, &mut ctx, &mut args, &mut v, &mut has, &mut order, rng);
        }
        for i in 0..p.nodes.len() {
            let node = &p.nodes[i];
            if !matches!(node, Node::In(_)) {
                let (a, k) = node.args();
                let upto = a[..k].iter().map(|j| input(*j)).max().unwrap_or(0);
                declare(upto, &mut ctx, &mut args, &mut v, &mut has, &mut order, rng);
                v[i] = step(node, &[], &v);
                has[i] = true;
                order.push(i);
            }
            if rng.chance(junk) {
                if !order.is_empty() {
                    let a = v[order[rng.below(order.len())]];
                    let _ = if rng.chance(0.5) { a + 1.0 } else { 0.5 * a };
                }
                w = w * 1.5 + w;
            }
            while marked < p.outs.len() && rng.chance(early) {
                declare(input(p.outs[marked]), &mut ctx, &mut args, &mut v, &mut has, &mut order, rng);
                if !has[p.outs[marked]] {
                    break;
                }
                ctx.set_dep(&v[p.outs[marked]]);
                marked += 1;
            }
        }
        declare(p.n, &mut ctx, &mut args, &mut v, &mut has, &mut order, rng);
        // the rest one at a time or all at once
        if rng.chance(0.5) {
            ctx.set_dep_slice(&p.outs[marked..].iter().map(|o| v[*o]).collect::<Vec<_>>());
        } else {
            for o in p.outs[marked..].iter() {
                ctx.set_dep(&v[*o]);
            }
        }
        let t: Box<dyn Tape> = Box::new(ctx.tape());
        t
    })
}

/// Evaluate on AD scalars that no context records
pub fn tapeless(p: &Prog, x: &[f64], dx: &[f64]) -> Result<Vec<AFloat<f64>>, Fail> {
    let xs: Vec<AFloat<f64>> = x.iter().zip(dx).map(|(a, b)| AFloat::new(*a, *b)).collect();
    lib("evaluate", || p.run(&xs))
}

/// Values of all nodes as AD scalars compute them (composite operations round differently)
pub fn ad_values(p: &Prog, x: &[f64]) -> Result<Vec<f64>, Fail> {
    let xs: Vec<AFloat<f64>> = x.iter().map(|v| AFloat::new(*v, 0.0)).collect();
    Ok(lib("evaluate", || p.run(&xs))?.iter().map(|v| v.value()).collect())
}

/// Value index of a variable, found through the public interface
/// (marks the variable as a result, so use it on contexts made for the purpose)
pub fn vid_of(ctx: &mut AContext, v: &AFloat<f64>) -> usize {
    ctx.set_dep(v);
    *ctx.deps().last().unwrap()
}

/// The abs-normal form of a recording, by dense forward elimination over its operations
pub struct Dense {
    pub n: usize,
    pub m: usize,
    pub s: usize,
    pub z: Vec<f64>,
    pub zm: DMatrix<f64>,
    pub lm: DMatrix<f64>,
    pub jm: DMatrix<f64>,
    pub ym: DMatrix<f64>,
    /// the same with every contribution taken absolutely (bounds for rounding)
    pub za: DMatrix<f64>,
    pub la: DMatrix<f64>,
    pub ja: DMatrix<f64>,
    pub ya: DMatrix<f64>,
}

pub fn dense_anf(t: &dyn Tape) -> Dense {
    let n = t.indeps().len();
    let ops: Vec<Operation> = t.ops_iter().collect();
    let s = ops.iter().filter(|o| o.opcode == OpCode::Abs).count();
    let v = t.values();
    let w = n + s;
    let mut rows: Vec<Option<(Vec<f64>, Vec<f64>)>> = vec![None; v.len()];
    for (k, i) in t.indeps().iter().enumerate() {
        let mut r = vec![0.0; w];
        r[k] = 1.0;
        rows[*i] = Some((r.clone(), r));
    }
    let mut z = vec![];
    let mut zrows = vec![];
    let zero = || (vec![0.0; w], vec![0.0; w]);
    for op in ops.iter() {
        let r = match op.opcode {
            OpCode::Nop => continue,
            OpCode::Const => None,
            OpCode::Abs => {
                let a = op.arg1.unwrap();
                zrows.push(rows[a].clone().unwrap_or_else(zero));
                let mut r = vec![0.0; w];
                r[n + z.len()] = 1.0;
                z.push(v[a]);
                Some((r.clone(), r))
            }
            _ => {
                let (pa, pb) = op_partials(op, v);
                let mut acc = zero();
                for (arg, p) in [(op.arg1, pa), (op.arg2, pb)] {
                    if let Some(a) = arg {
                        if let Some((g, h)) = &rows[a] {
                            for c in 0..w {
                                if h[c] != 0.0 {
                                    acc.0[c] += p * g[c];
                                    acc.1[c] += p.abs() * h[c];
                                }
                            }
                        }
                    }
                }
                Some(acc)
            }
        };
        rows[op.vid] = r;
    }
    let drows: Vec<_> = t.deps().iter().map(|i| rows[*i].clone().unwrap_or_else(zero)).collect();
    let m = drows.len();
    let part = |src: &Vec<(Vec<f64>, Vec<f64>)>, r: usize, c0: usize, c: usize, abs: bool| {
        DMatrix::from_fn(r, c, |i, j| if abs { src[i].1[c0 + j] } else { src[i].0[c0 + j] })
    };
    Dense {
        n,
        m,
        s,
        z,
        zm: part(&zrows, s, 0, n, false),
        lm: part(&zrows, s, n, s, false),
        jm: part(&drows, m, 0, n, false),
        ym: part(&drows, m, n, s, false),
        za: part(&zrows, s, 0, n, true),
        la: part(&zrows, s, n, s, true),
        ja: part(&drows, m, 0, n, true),
        ya: part(&drows, m, n, s, true),
    }
}

/// Compare with per-entry tolerance rel * bound + tiny
pub fn mat_close(got: &DMatrix<f64>, want: &DMatrix<f64>, bound: &DMatrix<f64>, rel: f64, sig: &str, what: &str) -> Res {
    ensure!(
        (got.nrows(), got.ncols()) == (want.nrows(), want.ncols()),
        format!("{}:shape", sig),
        "{} is {}x{}, expected {}x{}",
        what, got.nrows(), got.ncols(), want.nrows(), want.ncols()
    );
    for i in 0..got.nrows() {
        for j in 0..got.ncols() {
            let tol = rel * bound[(i, j)] + 1e-300;
            ensure!(
                crate::refs::close(got[(i, j)], want[(i, j)], tol),
                sig,
                "{}[{},{}] is {:e}, expected {:e} (allowed error {:e})",
                what, i, j, got[(i, j)], want[(i, j)], tol
            );
        }
    }
    Ok(())
}

/// A tape that behaves exactly like the one inside, but slowly and irregularly
#[derive(Debug)]
pub struct SlowTape {
    pub inner: Box<dyn Tape>,
    pub key: u64,
    pub sweeps: std::sync::atomic::AtomicUsize,
}
impl SlowTape {
    pub fn new(inner: Box<dyn Tape>, key: u64) -> Self {
        SlowTape { inner, key, sweeps: Default::default() }
    }
}
impl Tape for SlowTape {
    fn indeps(&self) -> &[usize] {
        self.inner.indeps()
    }
    fn deps(&self) -> &[usize] {
        self.inner.deps()
    }
    fn values(&self) -> &[f64] {
        self.inner.values()
    }
    fn values_mut(&mut self) -> &mut [f64] {
        self.inner.values_mut()
    }
    fn ops_iter<'a>(&'a self) -> Box<dyn DoubleEndedIterator<Item = Operation> + 'a> {
        let c = self.sweeps.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        if self.key != 0 {
            pause(crate::rng::hash_u64(self.key, c as u64));
        }
        self.inner.ops_iter()
    }
}
