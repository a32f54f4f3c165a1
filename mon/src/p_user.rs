//! P27: tapes stored by the user in other ways, single operations, the decomposed tape as a tape.
use crate::prog::*;
use crate::refs::{close, same};
use crate::report::*;
use crate::rng::Rng;
use crate::util::*;
use advantage::drivers::*;
use advantage::{DMatrix, DVector, OpCode, Operation, Tape};

/// The same evaluation procedure with values stored elsewhere, in another valid order, with gaps and no-ops
#[derive(Debug)]
pub struct UserTape {
    ind: Vec<usize>,
    dep: Vec<usize>,
    val: Vec<f64>,
    ops: Vec<Operation>,
    /// slots nothing belongs to
    gaps: Vec<usize>,
    /// where the values of the original went
    map: Vec<usize>,
}
impl Tape for UserTape {
    fn indeps(&self) -> &[usize] {
        &self.ind
    }
    fn deps(&self) -> &[usize] {
        &self.dep
    }
    fn values(&self) -> &[f64] {
        &self.val
    }
    fn values_mut(&mut self) -> &mut [f64] {
        &mut self.val
    }
    fn ops_iter<'a>(&'a self) -> Box<dyn DoubleEndedIterator<Item = Operation> + 'a> {
        Box::new(self.ops.iter().copied())
    }
}

pub fn rearrange(t: &dyn Tape, rng: &mut Rng, large: bool) -> UserTape {
    let old = t.values().len();
    let new = old + *rng.pick(if large { &[0, 300, 5_000, 70_000] } else { &[0, 1, 3, 20] });
    let mut slots: Vec<usize> = (0..new).collect();
    match rng.below(4) {
        0 => {}
        1 => slots.reverse(),
        _ => {
            for i in (1..new).rev() {
                slots.swap(i, rng.below(i + 1));
            }
        }
    }
    let map = slots[..old].to_vec();
    let gaps = slots[old..].to_vec();
    let mut val = vec![0.0; new];
    for (i, v) in t.values().iter().enumerate() {
        val[map[i]] = *v;
    }
    for g in gaps.iter() {
        val[*g] = *rng.pick(&[f64::NAN, 1e300, -7.0, f64::INFINITY]);
    }
    // another order that defines before it uses and meets the kinks in the same order
    let from: Vec<Operation> = t.ops_iter().collect();
    let mut order = vec![];
    if rng.chance(0.7) {
        let mut known = vec![false; old];
        t.indeps().iter().for_each(|i| known[*i] = true);
        let mut left: Vec<usize> = (0..from.len()).collect();
        let greedy = rng.chance(0.5);
        while !left.is_empty() {
            let kink = left.iter().find(|k| from[**k].opcode == OpCode::Abs).copied();
            let ready: Vec<usize> = (0..left.len().min(400))
                .filter(|j| {
                    let op = &from[left[*j]];
                    [op.arg1, op.arg2].iter().flatten().all(|a| known[*a]) && (op.opcode != OpCode::Abs || Some(left[*j]) == kink)
                })
                .collect();
            let j = if greedy { *ready.last().unwrap() } else { *rng.pick(&ready) };
            let k = left.remove(j);
            known[from[k].vid] = true;
            order.push(k);
        }
    } else {
        order.extend(0..from.len());
    }
    let nops = *rng.pick(&[0.0, 0.1, 0.6]);
    let mut ops = vec![];
    for k in order {
        while rng.chance(nops) {
            ops.push(Operation::nop());
        }
        let o = from[k];
        ops.push(rebuilt(&Operation { opcode: o.opcode, vid: map[o.vid], arg1: o.arg1.map(|i| map[i]), arg2: o.arg2.map(|i| map[i]) }));
    }
    if rng.chance(nops) {
        ops.push(Operation::nop());
    }
    UserTape { ind: t.indeps().iter().map(|i| map[*i]).collect(), dep: t.deps().iter().map(|i| map[*i]).collect(), val, ops, gaps, map }
}

/// the operation as its constructor makes it
fn rebuilt(o: &Operation) -> Operation {
    let (v, a, b) = (o.vid, o.arg1.unwrap_or(0), o.arg2.unwrap_or(0));
    match o.opcode {
        OpCode::Nop => Operation::nop(),
        OpCode::Const => Operation::constant(v),
        OpCode::Add => Operation::add(v, a, b),
        OpCode::Sub => Operation::sub(v, a, b),
        OpCode::Mul => Operation::mul(v, a, b),
        OpCode::Div => Operation::div(v, a, b),
        OpCode::Powf => Operation::powf(v, a, b),
        OpCode::Sin => Operation::sin(v, a),
        OpCode::Cos => Operation::cos(v, a),
        OpCode::Tan => Operation::tan(v, a),
        OpCode::Abs => Operation::abs(v, a),
        OpCode::Exp => Operation::exp(v, a),
        OpCode::Ln => Operation::ln(v, a),
        OpCode::Asin => Operation::asin(v, a),
        OpCode::Acos => Operation::acos(v, a),
        OpCode::Atan => Operation::atan(v, a),
    }
}

const CODES: [OpCode; 14] = [
    OpCode::Add, OpCode::Sub, OpCode::Mul, OpCode::Div, OpCode::Powf, OpCode::Sin, OpCode::Cos, OpCode::Tan, OpCode::Abs,
    OpCode::Exp, OpCode::Ln, OpCode::Asin, OpCode::Acos, OpCode::Atan,
];

/// operands where the derivative exists
fn operands(code: OpCode, rng: &mut Rng) -> (f64, f64) {
    let (p, q, r) = (rng.uniform(0.1, 4.0), rng.uniform(0.2, 3.0), rng.uniform(-3.0, 3.0));
    let a = match code {
        OpCode::Asin | OpCode::Acos => rng.uniform(-0.95, 0.95),
        OpCode::Ln => rng.uniform(0.05, 6.0),
        OpCode::Powf => *rng.pick(&[p, 1.0, 2.0]),
        OpCode::Tan => rng.uniform(-1.4, 1.4),
        OpCode::Abs => *rng.pick(&[0.0, 1.5, -2.25, 0.125]),
        _ => nice(rng, 0.3).clamp(-20.0, 20.0),
    };
    let b = match code {
        OpCode::Div => *rng.pick(&[2.0, -1.0, q, -0.5]),
        OpCode::Powf => *rng.pick(&[0.0, 1.0, 2.0, -1.5, r]),
        _ => nice(rng, 0.3).clamp(-20.0, 20.0),
    };
    (a, b)
}

fn one_operation(rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = rng.range(3, 9);
    let mut text = vec![];
    for _ in 0..12 {
        let code = *rng.pick(&CODES);
        let bin = is_binary(code);
        let (a, b) = (rng.below(n), rng.below(n));
        let mut vid = rng.below(n);
        while vid == a || vid == b {
            vid = (vid + 1) % n;
            if n < 4 && a != b && vid != a && vid != b {
                break;
            }
        }
        let mut v: Vec<f64> = (0..n).map(|_| nice(rng, 0.2)).collect();
        let (va, vb) = operands(code, rng);
        v[b] = vb;
        v[a] = va;
        if a == b && code == OpCode::Div {
            v[a] = vb;
        }
        let want = Operation { opcode: code, vid, arg1: Some(a), arg2: if bin { Some(b) } else { None } };
        let op = rebuilt(&want);
        text.push(format!("{:?} on {:?}", op, v));
        obs.mark(&text.join("; "));
        ensure!(op == want, format!("operation:make:{:?}", code), "constructor gives {:?} instead of {:?}", op, want);
        let v0 = v.clone();
        lib("zero_order", || op.zero_order(&mut v))?;
        let r = op_value(&op, &v0).unwrap();
        for i in 0..n {
            let w = if i == vid { r } else { v0[i] };
            ensure!(v[i].to_bits() == w.to_bits() || (i == vid && same(v[i], w)), format!("operation:value:{:?}", code), "{:?} on {:?} leaves {} in slot {} instead of {}", op, v0, v[i], i, w);
        }
        let d0: Vec<f64> = (0..n).map(|_| nice(rng, 0.3)).collect();
        let mut d = d0.clone();
        lib("first_order", || op.first_order(&v, &mut d))?;
        let (x, y) = (v[a], if bin { v[b] } else { 0.0 });
        let (t, tol) = if code == OpCode::Abs {
            ((x + d0[a]).abs() - x.abs(), 1e-14 * (x.abs() + d0[a].abs()))
        } else {
            let (pa, pb) = op_partials(&op, &v);
            let (ta, tb) = (pa * d0[a], if bin { pb * d0[b] } else { 0.0 });
            // sums before dividing cancel as well
            (ta + tb, 1e-11 * (ta.abs() + tb.abs()))
        };
        for i in 0..n {
            if i == vid {
                ensure!(close(d[i], t, tol + 1e-300), format!("operation:tangent:{:?}", code), "{:?} at {} and {} along {} and {} has derivative {:e} instead of {:e}", op, x, y, d0[a], d0[b], d[i], t);
            } else {
                ensure!(d[i].to_bits() == d0[i].to_bits(), format!("operation:tangent:{:?}", code), "{:?} changes slot {} of the derivatives", op, i);
            }
        }
        let b0: Vec<f64> = (0..n).map(|_| nice(rng, 0.3)).collect();
        let mut bar = b0.clone();
        if code == OpCode::Abs {
            refused("first_order_reverse", || op.first_order_reverse(&v, &mut bar))?;
        } else {
            lib("first_order_reverse", || op.first_order_reverse(&v, &mut bar))?;
            let (pa, pb) = op_partials(&op, &v);
            let mut w = b0.clone();
            let mut mag: Vec<f64> = b0.iter().map(|v| v.abs()).collect();
            w[a] += pa * b0[vid];
            mag[a] += (pa * b0[vid]).abs();
            if bin {
                w[b] += pb * b0[vid];
                mag[b] += (pb * b0[vid]).abs();
            }
            for i in 0..n {
                if i == a || (bin && i == b) {
                    ensure!(close(bar[i], w[i], 1e-11 * mag[i] + 1e-300), format!("operation:adjoint:{:?}", code), "{:?} at {} and {} with adjoint {} gives {:e} instead of {:e}", op, x, y, b0[vid], bar[i], w[i]);
                } else if i != vid {
                    ensure!(bar[i].to_bits() == b0[i].to_bits(), format!("operation:adjoint:{:?}", code), "{:?} changes slot {} of the adjoints", op, i);
                }
            }
        }
        obs.add("single operations", 1);
    }
    // the ones that compute nothing
    let v0: Vec<f64> = (0..n).map(|_| nice(rng, 0.3)).collect();
    let k = rng.below(n);
    for op in [Operation::nop(), Operation::constant(k)] {
        let (mut v, mut d, mut bar) = (v0.clone(), v0.clone(), v0.clone());
        lib("zero_order", || op.zero_order(&mut v))?;
        lib("first_order", || op.first_order(&v0, &mut d))?;
        lib("first_order_reverse", || op.first_order_reverse(&v0, &mut bar))?;
        let mut w = v0.clone();
        if op.opcode == OpCode::Const {
            ensure!(op == Operation { opcode: OpCode::Const, vid: k, arg1: None, arg2: None }, "operation:make:Const", "constant({}) is {:?}", k, op);
            w[k] = 0.0;
            bar[k] = v0[k];
        }
        ensure!(bits(&v) == bits(&v0) && bits(&bar) == bits(&v0) && d == w, "operation:idle", "{:?} changes something: {:?} {:?} {:?} from {:?}", op, v, d, bar, v0);
    }
    Ok(())
}

/// forward sweep over a list of operations, with error bounds; `pl`: absolute values by increments, else taken as given
fn sweep(t: &dyn Tape, given: &[Option<f64>], seeds: &[(usize, f64)]) -> (Vec<f64>, Vec<f64>) {
    let v = t.values();
    let (mut d, mut e) = (vec![0.0; v.len()], vec![0.0; v.len()]);
    for (i, s) in seeds {
        d[*i] = *s;
    }
    let mut k = 0;
    for op in t.ops_iter() {
        match op.opcode {
            OpCode::Nop | OpCode::Const => {}
            OpCode::Abs => {
                let a = op.arg1.unwrap();
                match given.get(k).copied().flatten() {
                    Some(w) => d[op.vid] = w,
                    None => {
                        d[op.vid] = (v[a] + d[a]).abs() - v[a].abs();
                        e[op.vid] = e[a] + 1e-14 * (v[a].abs() + d[a].abs());
                    }
                }
                k += 1;
            }
            _ => {
                let (pa, pb) = op_partials(&op, v);
                let (a, b) = (op.arg1.unwrap(), op.arg2);
                let mut s = if d[a] == 0.0 { 0.0 } else { pa * d[a] };
                let mut m = s.abs();
                let mut f = if e[a] == 0.0 { 0.0 } else { pa.abs() * e[a] };
                if let Some(b) = b {
                    if d[b] != 0.0 {
                        s += pb * d[b];
                        m += (pb * d[b]).abs();
                    }
                    if e[b] != 0.0 {
                        f += pb.abs() * e[b];
                    }
                }
                d[op.vid] = s;
                e[op.vid] = 1e-10 * m + f;
            }
        }
    }
    (d, e)
}

/// adjoints of all values and the sums of absolute contributions; absolute values taken as given
fn back(t: &dyn Tape, seeds: &[(usize, f64)]) -> (Vec<f64>, Vec<f64>) {
    let v = t.values();
    let (mut b, mut a) = (vec![0.0; v.len()], vec![0.0; v.len()]);
    for (i, s) in seeds {
        b[*i] += s;
        a[*i] += s.abs();
    }
    let ops: Vec<Operation> = t.ops_iter().collect();
    for op in ops.iter().rev() {
        if matches!(op.opcode, OpCode::Nop | OpCode::Const | OpCode::Abs) {
            continue;
        }
        let (pa, pb) = op_partials(op, v);
        let (w, m) = (b[op.vid], a[op.vid]);
        if m != 0.0 {
            let i = op.arg1.unwrap();
            b[i] += pa * w;
            a[i] += pa.abs() * m;
            if let Some(i) = op.arg2 {
                b[i] += pb * w;
                a[i] += pb.abs() * m;
            }
        }
    }
    (b, a)
}

fn holds(u: &UserTape, t: &dyn Tape, when: &str) -> Res {
    ensure!(bits(u.x().as_slice()) == bits(t.x().as_slice()), "user:x", "{}: stored argument {:?} instead of {:?}", when, u.x().as_slice(), t.x().as_slice());
    ensure!(u.y().len() == t.y().len() && u.y().iter().zip(t.y().iter()).all(|(a, b)| same(*a, *b)), "user:y", "{}: stored results {:?} instead of {:?}", when, u.y().as_slice(), t.y().as_slice());
    for (i, v) in t.values().iter().enumerate() {
        ensure!(same(u.val[u.map[i]], *v), "user:value", "{}: value {} (slot {}) is {:e} instead of {:e}", when, i, u.map[i], u.val[u.map[i]], v);
    }
    Ok(())
}

fn rearranged(rng: &mut Rng, obs: &mut Obs, large: bool) -> Res {
    let smooth = rng.chance(0.4);
    let (n, ops, m) = match rng.below(10) {
        0..=2 if large => (rng.range(1, 4), rng.range(500, 3000), rng.range(1, 4)),
        3..=5 if large => (rng.range(257, 400), rng.range(300, 900), rng.range(1, 9)),
        _ if large => (rng.range(1, 9), rng.range(300, 900), rng.range(257, 400)),
        0 => (rng.range(1, 3), rng.range(60, 250), rng.range(1, 3)),
        1 => (0, rng.range(1, 4), rng.range(1, 2)),
        2 => (rng.range(1, 3), rng.range(2, 9), 0),
        3 => (rng.range(10, 40), rng.range(10, 60), rng.range(10, 40)),
        _ => (rng.range(1, 5), rng.range(3, 40), rng.range(1, 5)),
    };
    let cfg = Cfg { n, ops, m, smooth, abs_only: rng.chance(0.5), kink_p: if smooth { 0.0 } else { 0.3 }, points: 3, special: 0.3, plain: rng.chance(0.4) };
    let (p, pts) = gen(rng, &cfg);
    obs.mark(&p.text(&pts[0]));
    let style = if rng.chance(0.4) { 0 } else { rng.u64() };
    let mut t = tape_some(&p, &pts[0], style)?;
    let mut u = rearrange(&*t, rng, large);
    ensure!((u.num_indeps(), u.num_deps()) == (n, p.m()), "user:count", "{} arguments and {} results instead of {} and {}", u.num_indeps(), u.num_deps(), n, p.m());
    ensure!(u.num_abs() == t.num_abs(), "user:count", "{} absolute values instead of {}", u.num_abs(), t.num_abs());
    let top = u.ind.iter().chain(u.dep.iter()).copied().chain(u.ops.iter().map(|o| o.vid)).max().unwrap_or(0);
    ensure!(u.max_id() == top, "user:maxid", "max_id {} but the largest index is {}", u.max_id(), top);
    holds(&u, &*t, "as stored")?;
    let junk: Vec<u64> = u.gaps.iter().map(|g| u.val[*g].to_bits()).collect();
    for round in 0..rng.range(1, 4) {
        if round > 0 {
            let at = &pts[rng.below(3)];
            lib("zero_order", || t.zero_order(&dv(at)))?;
            lib("zero_order of a user's tape", || u.zero_order(&dv(at)))?;
            holds(&u, &*t, "after a re-evaluation")?;
            ensure!(junk == u.gaps.iter().map(|g| u.val[*g].to_bits()).collect::<Vec<_>>(), "user:gaps", "a re-evaluation changed slots nothing belongs to");
            obs.add("re-evaluations", 1);
        }
        // one direction, one weighting
        let dx: Vec<f64> = (0..n).map(|_| nice(rng, 0.3)).collect();
        let dy = lib("first_order_forward of a user's tape", || u.first_order_forward(&dv(&dx)))?;
        let seeds: Vec<(usize, f64)> = u.ind.iter().copied().zip(dx.iter().copied()).collect();
        let (d, e) = sweep(&u, &[], &seeds);
        for (i, o) in u.dep.iter().enumerate() {
            ensure!(close(dy[i], d[*o], 2.0 * e[*o] + 1e-300), "user:forward", "derivative of result {} along {:?} is {:e} instead of {:e} (allowed error {:e})", i, dx, dy[i], d[*o], 2.0 * e[*o]);
            obs.add("derivatives", 1);
        }
        if smooth {
            let w: Vec<f64> = (0..p.m()).map(|_| nice(rng, 0.3)).collect();
            let xb = lib("first_order_reverse of a user's tape", || u.first_order_reverse(&dv(&w)))?;
            let seeds: Vec<(usize, f64)> = u.dep.iter().copied().zip(w.iter().copied()).collect();
            let (b, a) = back(&u, &seeds);
            for (i, o) in u.ind.iter().enumerate() {
                ensure!(close(xb[i], b[*o], 1e-9 * a[*o] + 1e-300), "user:reverse", "adjoint of argument {} for weights {:?} is {:e} instead of {:e} (allowed error {:e})", i, w, xb[i], b[*o], 1e-9 * a[*o]);
                obs.add("derivatives", 1);
            }
            if round == 0 {
                let j = lib("jacobian_reverse of a user's tape", || jacobian_reverse(&u))?;
                let dn = dense_anf(&u);
                mat_close(&j, &dn.jm, &dn.ja, 1e-9, "user:jacobian", "Jacobian of a user's tape")?;
            }
        }
    }
    // the decomposition, as what it is: a smooth procedure of arguments and absolute values
    let d = dense_anf(&u);
    let (z0, x0, y0) = (d.z.clone(), u.x(), u.y());
    let copy = UserTape { ind: u.ind.clone(), dep: u.dep.clone(), val: u.val.clone(), ops: u.ops.clone(), gaps: vec![], map: vec![] };
    let mut a = lib("AbsNormalTape", || AbsNormalTape::new(Box::new(copy)))?;
    let s = d.s;
    ensure!((a.n(), a.m(), a.s()) == (n, p.m(), s), "user:split:dims", "dimensions {:?} instead of {:?}", (a.n(), a.m(), a.s()), (n, p.m(), s));
    ensure!((a.num_indeps(), a.num_deps(), a.num_abs()) == (n + s, s + p.m(), 0), "user:split:dims", "as a tape: {:?} instead of {:?}", (a.num_indeps(), a.num_deps(), a.num_abs()), (n + s, s + p.m(), 0));
    // AbsNormalTape has its own x and y besides those of the tape
    ensure!(bits(a.x().as_slice()) == bits(x0.as_slice()) && bits(a.y().as_slice()) == bits(y0.as_slice()), "user:split:xy", "argument and results {:?} {:?}", a.x().as_slice(), a.y().as_slice());
    ensure!(bits(a.z().as_slice()) == bits(&z0), "user:split:z", "switching values {:?} instead of {:?}", a.z().as_slice(), z0);
    let big = |f: &dyn Fn(bool) -> [DMatrix<f64>; 4]| {
        let join = |q: [DMatrix<f64>; 4]| {
            DMatrix::from_fn(s + p.m(), n + s, |i, j| match (i < s, j < n) {
                (true, true) => q[0][(i, j)],
                (true, false) => q[1][(i, j - n)],
                (false, true) => q[2][(i - s, j)],
                (false, false) => q[3][(i - s, j - n)],
            })
        };
        (join(f(false)), join(f(true)))
    };
    let (full, bound) = big(&|b| if b { [d.za.clone(), d.la.clone(), d.ja.clone(), d.ya.clone()] } else { [d.zm.clone(), d.lm.clone(), d.jm.clone(), d.ym.clone()] });
    let j = lib("jacobian_reverse of the decomposed tape", || jacobian_reverse(&a))?;
    mat_close(&j, &full, &bound, 1e-9, "user:split:jacobian", "Jacobian of the decomposed tape")?;
    let dxw = DVector::from_fn(n + s, |_, _| nice(rng, 0.3));
    let dzy = lib("first_order_forward of the decomposed tape", || Tape::first_order_forward(&a, &dxw))?;
    let (w, wb) = (&full * &dxw, &bound * dxw.abs());
    for i in 0..s + p.m() {
        ensure!(close(dzy[i], w[i], 1e-9 * wb[i] + 1e-300), "user:split:forward", "derivative {} of the decomposed tape is {:e} instead of {:e}", i, dzy[i], w[i]);
    }
    let wt = DVector::from_fn(s + p.m(), |_, _| nice(rng, 0.3));
    let xb = lib("first_order_reverse of the decomposed tape", || Tape::first_order_reverse(&a, &wt))?;
    let (w, wb) = (full.transpose() * &wt, bound.transpose() * wt.abs());
    for i in 0..n + s {
        ensure!(close(xb[i], w[i], 1e-9 * wb[i] + 1e-300), "user:split:reverse", "adjoint {} of the decomposed tape is {:e} instead of {:e}", i, xb[i], w[i]);
    }
    obs.add("derivatives", (n + 2 * s + p.m()) as u64);
    // at other arguments and other absolute values
    for _ in 0..2 {
        let xw = DVector::from_fn(n + s, |i, _| if i < n { pts[1][i] } else { nice(rng, 0.2).abs() });
        lib("zero_order of the decomposed tape", || a.zero_order(&xw))?;
        let mut v = u.val.clone();
        for i in 0..n {
            v[u.ind[i]] = xw[i];
        }
        let mut k = n;
        for op in u.ops.iter() {
            if op.opcode == OpCode::Abs {
                v[op.vid] = xw[k];
                k += 1;
            } else if let Some(r) = op_value(op, &v) {
                v[op.vid] = r;
            }
        }
        let z: Vec<f64> = u.ops.iter().filter(|o| o.opcode == OpCode::Abs).map(|o| v[o.arg1.unwrap()]).collect();
        let y: Vec<f64> = u.dep.iter().map(|o| v[*o]).collect();
        let ok = |a: &[f64], b: &[f64]| a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(*a, *b));
        ensure!(ok(a.z().as_slice(), &z), "user:split:replay", "switching values at {:?} are {:?} instead of {:?}", xw.as_slice(), a.z().as_slice(), z);
        ensure!(ok(a.y().as_slice(), &y), "user:split:replay", "results at {:?} are {:?} instead of {:?}", xw.as_slice(), a.y().as_slice(), y);
        ensure!(ok(Tape::x(&a).as_slice(), xw.as_slice()), "user:split:replay", "stored argument {:?} instead of {:?}", Tape::x(&a).as_slice(), xw.as_slice());
        ensure!(ok(Tape::y(&a).as_slice(), &[z, y].concat()), "user:split:replay", "stored results {:?}", Tape::y(&a).as_slice());
        obs.add("re-evaluations", 1);
    }
    // generalized Jacobians of the two agree
    if !smooth {
        let dx = DVector::from_fn(n, |_, _| nice(rng, 0.3));
        let signs: Vec<u8> = (0..4).map(|_| rng.u64() as u8).collect();
        let ends = (u.y(), t.y());
        ensure!(ends.0.len() == ends.1.len(), "user:y", "results differ in number");
        let inc = u.first_order_forward(&dx);
        let g = lib("generalized_jacobian_tape of a user's tape", || generalized_jacobian_tape(Box::new(u), &dx, &signs, None))?;
        let h = lib("generalized_jacobian_tape", || generalized_jacobian_tape(t, &dx, &signs, None))?;
        let y = &g.homogenous * &dx + &g.inhomogenous;
        let scale = 1e-7 * (1.0 + g.homogenous.abs().sum() * (1.0 + dx.amax()) + g.inhomogenous.abs().sum() + bound.sum().powi(2));
        if scale.is_finite() && scale < 1e-2 {
            for i in 0..p.m() {
                ensure!(close(y[i], inc[i], scale), "user:generalized", "generalized Jacobian of a user's tape gives the increment {} instead of {}", y[i], inc[i]);
            }
            if g.multiplicity == h.multiplicity && g.multiplicity == 0 && p.m() > 0 && n > 0 {
                let far = (&g.homogenous - &h.homogenous).amax();
                // the same branch unless a kink is missed by rounding only
                if far > scale {
                    obs.add("branches that differ by rounding", 1);
                }
            }
            obs.add("generalized Jacobians", 1);
        }
    }
    Ok(())
}

pub fn p27(run: &Run) -> i32 {
    let n = run.pick(30_000, 700_000);
    run.cases_and_large(n, run.pick(60, 1500), 8, |case, rng, obs| if case % 4 == 0 && case < LARGE { one_operation(rng, obs) } else { rearranged(rng, obs, case >= LARGE) });
    run.finish("case kinds: every elementary operation made by its constructor and applied to arrays it shares with other values, all slots compared; random programs recorded and then stored by a tape of the monitor's own, with values in other places, unused slots, idle operations and another valid order, driven through replays, sweeps, the Jacobian and the generalized Jacobian and decomposed, the decomposed tape replayed and swept as a procedure of arguments and absolute values. Non-trivial: every case")
}
