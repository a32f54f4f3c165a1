//! P01 values, P02 tangents, P11 increments, P24 other scalars.
use crate::prog::*;
use crate::refs::{self, close, same};
use crate::report::*;
use crate::rng::Rng;
use crate::util::*;

use advantage::{AContext, AFloat, DVector, Function, OpCode, Operation, Tape};
use num::{Float, Num, NumCast, One, ToPrimitive, Zero};
use Node::*;
type AD = AFloat<f64>;

/// Variables, some recorded and some not, sharing one live context
pub struct Mix {
    pub ctx: Option<AContext>,
    pub x: Vec<AD>,
}
pub fn mix(rng: &mut Rng, x: &[f64], dx: &[f64], p: f64) -> Mix {
    let mut ctx = AContext::new();
    let v = x
        .iter()
        .zip(dx)
        .map(|(a, b)| {
            let mut v = AD::new(*a, *b);
            if rng.chance(p) {
                ctx.set_indep(&mut v);
            }
            v
        })
        .collect();
    Mix { ctx: Some(ctx), x: v }
}

fn known_value(node: &Node, o: [f64; 3]) -> String {
    match node {
        U(Un::Cbrt, _) if o[0] < 0.0 => "value:Cbrt:negative".into(),
        _ => format!("value:{}", node.name()),
    }
}

fn check_value(node: &Node, o: [f64; 3], got: f64, what: &str) -> Res {
    let (want, tol) = refs::value(node, o);
    let ok = if tol == 0.0 || !tol.is_finite() { same(got, want) } else { close(got, want, tol + 1e-300) };
    ensure!(
        ok,
        known_value(node, o),
        "{} of {:?} gives {:e} on an AD scalar ({}), plain floats give {:e}",
        node.name(), &o[..node.args().1.max(1)], got, what, want
    );
    Ok(())
}

const EXTREME: [f64; 22] = [
    0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 3.0, 1e-8, -1e-8, 1e8, -1e8, 1e-300, -1e-300, 1e300, -1e300,
    f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, 5e-324,
];

/// one application of one node to given operands
fn apply(node: &Node, v: &[AD]) -> Result<AD, Fail> {
    lib(&node.name(), || step(node, &[], v))
}

pub fn all_nodes(c: f64) -> Vec<Node> {
    let mut r: Vec<Node> = UNS.iter().map(|u| U(*u, 0)).collect();
    r.extend(BIS.iter().map(|b| B(*b, 0, 1)));
    r.extend(BIS.iter().map(|b| B(*b, 0, 0)));
    r.extend(FLS.iter().map(|f| F(*f, 0, c)));
    r.extend((-5..=7).map(|n| Powi(0, n)));
    r.push(MulAdd(0, 1, 2));
    r
}

/// an integer exponent far from zero and a base whose power by it neither overflows nor vanishes
pub fn big_power(rng: &mut Rng) -> (i32, f64) {
    let big = [16_777_217, 33_554_433, 16_777_219, 1 << 30, i32::MAX, i32::MAX - 1, i32::MIN, i32::MIN + 1, 65_537, 1_000_003];
    let n = match rng.below(4) {
        0 => *rng.pick(&big),
        1 => -*rng.pick(&big[..7]).max(&-i32::MAX),
        2 => rng.u64() as i32,
        _ => rng.range(8, 400) as i32 * if rng.chance(0.5) { -1 } else { 1 },
    };
    let near = 1.0 + rng.uniform(-120.0, 120.0) / (n as f64).abs().max(400.0);
    let x = *rng.pick(&[1.0, -1.0, near, -near]);
    (n, x)
}

/// is a derived operation asked for something its definition covers without overflow?
fn derived_domain(node: &Node, o: [f64; 3]) -> bool {
    let (_, k) = node.args();
    if !o[..k].iter().all(|x| x.is_finite() && (x.abs() < 1e100 && (*x == 0.0 || x.abs() > 1e-100))) {
        return false;
    }
    let [a, b, _] = o;
    match *node {
        U(u, _) => match u {
            Un::Sqrt => a >= 0.0,
            Un::Exp2 => a.abs() < 1000.0,
            Un::Log2 | Un::Log10 => a > 0.0,
            Un::Recip => true,
            _ => true,
        },
        B(Bi::Log, _, _) => a > 0.0 && b > 0.0,
        Powi(_, n) => a != 0.0 || n >= 0,
        _ => true,
    }
}

/// Everything else a float can be asked
fn queries(rng: &mut Rng, x: f64, y: f64, a: AD, b: AD, obs: &mut Obs) -> Res {
    macro_rules! eqv {
        ($name:expr, $got:expr, $want:expr) => {{
            let (g, w) = ($got, $want);
            obs.add("queries", 1);
            ensure!(g == w, format!("query:{}", $name), "{} of {:e} (and {:e}) gives {:?}, plain floats give {:?}", $name, x, y, g, w);
        }};
    }
    macro_rules! num {
        ($name:expr, $got:expr, $want:expr) => {{
            let g: AD = lib($name, || $got)?;
            let w: f64 = $want;
            obs.add("queries", 1);
            ensure!(same(g.value(), w), format!("query:{}", $name), "{} of {:e} (and {:e}) gives {:e}, plain floats give {:e}", $name, x, y, g.value(), w);
        }};
    }
    macro_rules! constant {
        ($name:expr, $got:expr, $want:expr) => {{
            let g: AD = $got;
            let w: f64 = $want;
            obs.add("queries", 1);
            ensure!(
                same(g.value(), w) && g.value().is_sign_negative() == w.is_sign_negative(),
                format!("const:{}", $name), "constant {} is {:e}, plain floats have {:e}", $name, g.value(), w
            );
            ensure!(g.dvalue() == 0.0, format!("const:{}:tangent", $name), "constant {} has first-order value {}", $name, g.dvalue());
        }};
    }
    eqv!("is_nan", a.is_nan(), x.is_nan());
    eqv!("is_infinite", a.is_infinite(), x.is_infinite());
    eqv!("is_finite", a.is_finite(), x.is_finite());
    eqv!("is_normal", a.is_normal(), x.is_normal());
    eqv!("is_sign_positive", a.is_sign_positive(), x.is_sign_positive());
    eqv!("is_sign_negative", a.is_sign_negative(), x.is_sign_negative());
    eqv!("is_subnormal", a.is_subnormal(), x.is_subnormal());
    eqv!("classify", a.classify(), x.classify());
    eqv!("integer_decode", a.integer_decode(), Float::integer_decode(x));
    eqv!("is_zero", a.is_zero(), x.is_zero());
    eqv!("is_one", a.is_one(), x.is_one());
    eqv!("==", a == b, x == y);
    eqv!("!=", a != b, x != y);
    eqv!("<", a < b, x < y);
    eqv!("<=", a <= b, x <= y);
    eqv!(">", a > b, x > y);
    eqv!(">=", a >= b, x >= y);
    eqv!("partial_cmp", a.partial_cmp(&b), x.partial_cmp(&y));
    eqv!("to_i64", a.to_i64(), x.to_i64());
    eqv!("to_u64", a.to_u64(), x.to_u64());
    eqv!("to_i32", a.to_i32(), x.to_i32());
    eqv!("to_u32", a.to_u32(), x.to_u32());
    eqv!("to_u8", a.to_u8(), x.to_u8());
    eqv!("to_f64", a.to_f64().map(f64::to_bits), x.to_f64().map(f64::to_bits));
    eqv!("to_f32", a.to_f32().map(f32::to_bits), x.to_f32().map(f32::to_bits));
    eqv!("value", a.value().to_bits(), x.to_bits());
    num!("copysign", a.copysign(b), if y.is_nan() { return Ok(()) } else { x.copysign(y) });
    // one of its operands, with everything it carries
    let (lo, hi) = if x <= y { (a, b) } else { (b, a) };
    for (t, w) in [(a, x), (b, y), ((a + b) * 0.5, (x + y) * 0.5), (a - 1.0, x - 1.0), (b + 1.0, y + 1.0)] {
        if x.is_nan() || y.is_nan() || w.is_nan() {
            continue;
        }
        let which = if w < lo.value() { lo } else if w > hi.value() { hi } else { t };
        let g = t.clamp(lo, hi);
        eqv!("clamp", (g.value().to_bits(), g.dvalue().to_bits()), (which.value().to_bits(), which.dvalue().to_bits()));
    }
    num!("from", <AD as From<f64>>::from(x), x);
    num!("numcast", <AD as NumCast>::from(x).unwrap(), x);
    num!("numcast-f32", <AD as NumCast>::from(x as f32).unwrap(), x as f32 as f64);
    let i = rng.u64() as i64 >> rng.below(60);
    num!("numcast-int", <AD as NumCast>::from(i).unwrap(), i as f64);
    constant!("zero", AD::zero(), 0.0);
    constant!("one", AD::one(), 1.0);
    constant!("nan", <AD as Float>::nan(), f64::NAN.copysign(<AD as Float>::nan().value()));
    constant!("infinity", <AD as Float>::infinity(), f64::INFINITY);
    constant!("neg_infinity", <AD as Float>::neg_infinity(), f64::NEG_INFINITY);
    constant!("neg_zero", <AD as Float>::neg_zero(), -0.0);
    constant!("min_value", <AD as Float>::min_value(), f64::MIN);
    constant!("max_value", <AD as Float>::max_value(), f64::MAX);
    constant!("min_positive_value", <AD as Float>::min_positive_value(), f64::MIN_POSITIVE);
    constant!("epsilon", <AD as Float>::epsilon(), f64::EPSILON);
    constant!("from", <AD as From<f64>>::from(x), x);
    if !x.is_nan() {
        constant!("numcast", <AD as NumCast>::from(x).unwrap(), x);
    }
    let k = (x.to_bits() % 35 + 2) as u32;
    let texts = [x.to_string(), format!("{:e}", y), format!("{:?}", x), format!("{:x}.{:x}", x.to_bits() >> 50, y.to_bits() >> 40), format!("-{}", y.to_bits() >> 30), format!("+{}", x.to_bits() % 1000)];
    let fixed = [("12.5", 10), ("-3", 10), ("ff", 16), ("-101", 2), ("7e3", 10), ("1z", 36), ("x", 10), ("", 10), (" 1", 10), ("1 ", 10), ("1_0", 10), ("-0", 10), ("inf", 10), ("-inf", 10), ("NaN", 10), ("1e400", 10), (".5", 10), ("5.", 2), ("FF", 16), ("-", 10)];
    for (s, r) in fixed.into_iter().chain(texts.iter().flat_map(|t| [(t.as_str(), 10), (t.as_str(), 16), (t.as_str(), k)])) {
        // any NaN is the same
        let b = |v: f64| if v.is_nan() { f64::NAN.to_bits() } else { v.to_bits() };
        let g = attempt(|| AD::from_str_radix(s, r).ok().map(|v| (b(v.value()), b(v.dvalue()))));
        let w = attempt(|| <f64 as Num>::from_str_radix(s, r).ok().map(|v| (b(v), 0)));
        ensure!(g.is_ok() == w.is_ok() && g.clone().ok() == w.clone().ok(), "query:from_str_radix", "from_str_radix({:?}, {}) gives {:?}, plain floats give {:?}", s, r, g, w);
    }
    let mut c = a;
    *c.value_mut() = y;
    eqv!("value_mut", (c.value().to_bits(), c.dvalue().to_bits()), (y.to_bits(), a.dvalue().to_bits()));
    *c.dvalue_mut() = x;
    eqv!("dvalue_mut", (c.value().to_bits(), c.dvalue().to_bits()), (y.to_bits(), x.to_bits()));
    Ok(())
}

pub fn p01(run: &Run) -> i32 {
    let n = run.pick(150_000, 5_000_000);
    run.cases(0, n, 8, |case, rng, obs| {
        match case % 3 {
            0 => {
                // programs, step by step
                let cfg = Cfg { n: rng.range(1, 5), ops: rng.range(5, 60), m: 1, smooth: false, abs_only: false, kink_p: 0.15, points: 1, special: 0.3, plain: false };
                let (p, pts) = gen(rng, &cfg);
                obs.mark(&p.text(&pts[0]));
                let dx: Vec<f64> = (0..p.n).map(|_| nice(rng, 0.3)).collect();
                let rec = *rng.pick(&[0.0, 0.5, 1.0]);
                let what = ["unrecorded", "partly recorded", "recorded"][(rec * 2.0) as usize];
                let mut mx = mix(rng, &pts[0], &dx, rec);
                let drop_at = if rec > 0.0 && rng.chance(0.2) { rng.below(p.nodes.len()) } else { usize::MAX };
                let mut v: Vec<AD> = vec![];
                for (i, node) in p.nodes.iter().enumerate() {
                    if i == drop_at {
                        mx.ctx = None;
                        obs.add("context dropped under way", 1);
                    }
                    let r = lib(&node.name(), || step(node, &mx.x, &v))?;
                    let vals: Vec<f64> = v.iter().map(|a| a.value()).collect();
                    let o = if let In(k) = node { [pts[0][*k], 0.0, 0.0] } else { ops_of(node, &vals) };
                    check_value(node, o, r.value(), what)?;
                    v.push(r);
                    obs.add("operations checked", 1);
                }
                obs.max("operations in one program", p.nodes.len() as u64);
                // same code generically on floats and on AD scalars, including branches on comparisons
                let vals: Vec<f64> = v.iter().map(|a| a.value()).collect();
                for _ in 0..6 {
                    let (i, j) = (rng.below(v.len()), rng.below(v.len()));
                    ensure!(v[i].partial_cmp(&v[j]) == vals[i].partial_cmp(&vals[j]), "query:partial_cmp", "{} and {} compare differently", vals[i], vals[j]);
                }
            }
            1 => {
                // every operation on extreme and random operands
                let pickv = |rng: &mut Rng| {
                    if rng.chance(0.5) {
                        *rng.pick(&EXTREME)
                    } else if rng.chance(0.3) {
                        f64::from_bits(rng.u64())
                    } else {
                        nice(rng, 0.1)
                    }
                };
                let x: Vec<f64> = (0..3).map(|_| pickv(rng)).collect();
                let c = pickv(rng);
                let dx: Vec<f64> = (0..3).map(|_| if rng.chance(0.5) { 0.0 } else { nice(rng, 0.2) }).collect();
                obs.mark(&format!("all operations on {:?} and constant {}", x, c));
                for _ in 0..4 {
                    let (e, b) = big_power(rng);
                    let mx = mix(rng, &[b], &dx[..1], 0.5);
                    let r = apply(&Powi(0, e), &mx.x)?;
                    check_value(&Powi(0, e), [b, 0.0, 0.0], r.value(), &format!("exponent {}", e))?;
                    obs.add("large integer powers", 1);
                }
                let mx = mix(rng, &x, &dx, 0.5);
                for node in all_nodes(c) {
                    let o = ops_of(&node, &x);
                    let cst_ok = !matches!(node, F(..)) || !c.is_nan();
                    if !cst_ok {
                        continue;
                    }
                    if !node.is_elementary() && !derived_domain(&node, o) {
                        continue;
                    }
                    let r = match apply(&node, &mx.x) {
                        Ok(r) => r,
                        Err(e) => return Err(e),
                    };
                    obs.add("operations checked", 1);
                    // known findings are recorded and the rest goes on
                    if let Err(f) = check_value(&node, o, r.value(), "mixed") {
                        if f.sig == "value:Cbrt:negative" && r.value().is_nan() {
                            obs.known.push(f);
                        } else {
                            return Err(Fail { sig: f.sig.replace(":negative", ":negative-other"), detail: f.detail });
                        }
                    }
                }
            }
            _ => {
                let pickv = |rng: &mut Rng| if rng.chance(0.5) { *rng.pick(&EXTREME) } else { nice(rng, 0.2) };
                let (x, y) = (pickv(rng), pickv(rng));
                let y = if rng.chance(0.2) { x } else { y };
                obs.mark(&format!("queries on {:?} and {:?}", x, y));
                let d = [nice(rng, 0.3), nice(rng, 0.3)];
                let mx = mix(rng, &[x, y], &d, 0.5);
                queries(rng, x, y, mx.x[0], mx.x[1], obs)?;
            }
        }
        Ok(())
    });
    run.finish("case kinds: random straight-line programs over all operations evaluated step by step on (un)recorded AD scalars against the plain float operation on the same operands; every operation on extreme operands; conversions, comparisons, classification and constants. Non-trivial: at least one operation or query compared")
}

// ---------------------------------------------------------------- P02

fn check_tangent(node: &Node, o: [f64; 3], d: [f64; 3], got: f64) -> Res {
    let (want, tol) = refs::tangent(node, o, d);
    ensure!(
        close(got, want, tol + 1e-300),
        format!("tangent:{}", node.name()),
        "{} at {:?} with operand tangents {:?} has first-order value {:e}, expected {:e} (allowed error {:e})",
        node.name(), o, d, got, want, tol
    );
    let (_, k) = node.args();
    if d[..k].iter().all(|t| *t == 0.0) {
        ensure!(got == 0.0, format!("tangent-zero:{}", node.name()), "{} at {:?} with zero operand tangents has first-order value {:e}", node.name(), o, got);
    }
    Ok(())
}

/// derivative exists and is finite for these operands and tangents (wider than `good`)
fn differentiable(node: &Node, o: [f64; 3], free: [bool; 3]) -> bool {
    let [a, b, _] = o;
    let (_, k) = node.args();
    // squares have to stay in range where the definition takes them
    let (lo, hi) = if matches!(node, B(Bi::Hypot, _, _)) { (1e-140, 1e140) } else { (1e-290, 1e290) };
    if !o[..k].iter().all(|x| x.is_finite() && x.abs() < hi && (*x == 0.0 || x.abs() > lo)) {
        return false;
    }
    match *node {
        In(_) | K(_) => true,
        U(u, _) => match u {
            Un::Sin | Un::Cos | Un::SinCos0 | Un::SinCos1 => a.abs() < 1e6,
            Un::Tan => a.abs() < 1e6 && a.cos().abs() > 1e-3,
            Un::Abs => false,
            Un::Exp | Un::Exp2 => a.abs() < 300.0,
            Un::Ln | Un::Log2 | Un::Log10 => a > 0.0,
            Un::Asin | Un::Acos => a.abs() < 0.99999,
            Un::Sqrt | Un::Cbrt => a > 0.0,
            Un::Recip => a != 0.0,
            _ => true,
        },
        B(op, _, _) => match op {
            Bi::Max | Bi::Min | Bi::AbsSub => false,
            Bi::Div | Bi::DivA => b != 0.0,
            Bi::Log => a > 0.0 && b > 0.0 && b.ln().abs() > 0.05,
            Bi::Hypot => a.hypot(b) > 0.0,
            Bi::Powf => {
                let fits = b == 0.0 || (b.abs() * (a.abs().ln().abs() + 1.0)) < 600.0;
                if a > 0.0 {
                    fits
                } else if free[1] || b != b.round() {
                    a == 0.0 && !free[1] && b > 1.0 && fits
                } else if a == 0.0 {
                    b >= 0.0
                } else {
                    fits
                }
            }
            _ => true,
        },
        F(op, _, c) => match op {
            Fl::Div | Fl::DivA => c != 0.0,
            Fl::RDiv => a != 0.0,
            _ => true,
        },
        Powi(_, n) => (a == 0.0 && n >= 0) || (a != 0.0 && (n.abs() as f64) * (a.abs().ln().abs() + 1.0) < 600.0),
        MulAdd(..) => true,
    }
}

/// does everything the chain rule multiplies and adds stay clear of the ends of the range?
fn fits(node: &Node, o: [f64; 3], d: [f64; 3]) -> bool {
    let ok = |x: f64| x == 0.0 || (x.abs() > 1e-285 && x.abs() < 1e285);
    let (_, k) = node.args();
    let q = refs::partials(node, o);
    let t = refs::tangent(node, o, d).0;
    // a quotient that rounds to zero, or a power below the normal numbers, loses digits on the way
    let v = refs::value(node, o).0;
    let exact_zero = o[..k].iter().any(|x| *x == 0.0) || !matches!(node, U(Un::Recip, _) | B(Bi::Mul | Bi::MulA | Bi::Div | Bi::DivA | Bi::Powf, _, _) | F(..));
    // nothing is asked of the order in which the factors are multiplied
    let free = |x: f64, i: usize| x.is_nan() || (ok(x) && (x != 0.0 || d[i] == 0.0 || exact_zero));
    let orders = match *node {
        U(Un::Recip, _) | F(Fl::RDiv, _, _) => free(d[0] / o[0], 0),
        B(Bi::Div | Bi::DivA, _, _) => (0..2).all(|i| free(d[i] / o[1], i)),
        B(Bi::Powf, _, _) => free(d[0] * o[1], 0) && free(d[0] * v, 0) && free(d[0] / o[0], 0) && free(d[1] * v, 1),
        _ => true,
    };
    orders
        && ok(v) && (v != 0.0 || exact_zero)
        && ok(t)
        && (0..k).all(|i| ok(d[i]) && ok(q[i]) && ok(q[i] * d[i]) && (d[i] == 0.0 || (q[i] == 0.0 && exact_zero) || q[i] * d[i] != 0.0) && ok(v * d[i]) && (v == 0.0 || d[i] == 0.0 || v * d[i] != 0.0))
        && (!matches!(node, B(Bi::Log, _, _)) || (0..k).all(|i| ok(d[i] / o[i])))
        && (!matches!(node, B(Bi::Hypot, _, _)) || (0..k).all(|i| ok(o[i] * d[i]) && (o[i] == 0.0 || d[i] == 0.0 || o[i] * d[i] != 0.0)))
}

/// a number of any magnitude
fn far(rng: &mut Rng) -> f64 {
    rng.uniform(-3.0, 3.0) * 10f64.powf(rng.uniform(-285.0, 285.0))
}

/// can the weight be multiplied in first?
fn weighs(node: &Node, o: [f64; 3], w: f64) -> bool {
    let ok = |x: f64| w == 0.0 || (x.abs() > 1e-285 && x.abs() < 1e285);
    match node {
        B(Bi::Powf, _, _) => o[1] == 0.0 || ok(w * o[1]),
        B(Bi::Hypot, _, _) => o[..2].iter().all(|x| *x == 0.0 || (ok(w / x) && ok(w * x))),
        _ => true,
    }
}

/// one operation on a tape at operands of any magnitude, moved there or recorded there, swept along tangents or adjoints
/// of any magnitude
pub fn far_operation(rng: &mut Rng, obs: &mut Obs, reverse: bool) -> Res {
    for _ in 0..40 {
        let x: Vec<f64> = (0..3).map(|_| if rng.chance(0.2) { nice(rng, 0.2) } else { far(rng) }).collect();
        let nodes = all_nodes(far(rng));
        let node = *rng.pick(&nodes);
        let o = ops_of(&node, &x);
        let (args, k) = node.args();
        let free: [bool; 3] = [true; 3];
        let dx: Vec<f64> = (0..3).map(|i| match rng.below(5) { 0 => 0.0, 1 => nice(rng, 0.2), 2 => x[i] * nice(rng, 0.0), _ => far(rng) }).collect();
        let w = *rng.pick(&[0.0, 1.0, -2.5, dx[0]]);
        let d = ops_of(&node, &dx);
        if node.is_pl() || !differentiable(&node, o, free) {
            continue;
        }
        // reverse: the same products, one weight
        if !(if reverse { fits(&node, o, [1.0; 3]) && fits(&node, o, [w; 3]) && weighs(&node, o, w) } else { fits(&node, o, d) }) {
            continue;
        }
        let p = Prog { n: 3, nodes: vec![In(0), In(1), In(2), node], outs: vec![3] };
        let here = rng.chance(0.5);
        let x0 = if here { x.clone() } else { vec![1.25, 2.5, 0.75] };
        let mut t = tape_of(&p, &x0)?;
        if !here {
            lib("zero_order", || t.zero_order(&dv(&x)))?;
        }
        if reverse {
            let b = lib("first_order_reverse", || t.first_order_reverse(&dv(&[w])))?;
            let q = refs::partials(&node, o);
            for i in 0..3 {
                let (mut want, mut tol) = (0.0, 0.0);
                for j in 0..k {
                    if args[j] == i {
                        want += q[j] * w;
                        tol += (q[j] * w).abs() * 1e-10;
                    }
                }
                ensure!(close(b[i], want, tol), format!("far:reverse:{}", node.name()), "{} at {:?} with weight {:e} has adjoint {:e} for argument {}, expected {:e}", node.name(), o, w, b[i], i, want);
            }
        } else {
            let dy = lib("first_order_forward", || t.first_order_forward(&dv(&dx)))?;
            let (want, tol) = refs::tangent(&node, o, d);
            ensure!(close(dy[0], want, tol), format!("far:forward:{}", node.name()), "{} at {:?} with operand tangents {:?} has derivative {:e}, expected {:e}", node.name(), o, d, dy[0], want);
        }
        obs.add("operations far from one", 1);
        return Ok(());
    }
    Ok(())
}

pub fn p02(run: &Run) -> i32 {
    let n = run.pick(150_000, 5_000_000);
    run.cases(0, n, 8, |case, rng, obs| {
        if case % 2 == 0 {
            let cfg = Cfg { n: rng.range(1, 5), ops: rng.range(5, 60), m: 1, smooth: true, abs_only: false, kink_p: 0.0, points: 1, special: 0.3, plain: false };
            let (p, pts) = gen(rng, &cfg);
            let x = &pts[0];
            let zero = rng.chance(0.1);
            let dx: Vec<f64> = (0..p.n).map(|_| if zero { 0.0 } else { nice(rng, 0.4) }).collect();
            obs.mark(&p.text(x));
            let rec = *rng.pick(&[0.0, 0.5, 1.0]);
            let mx = mix(rng, x, &dx, rec);
            let v: Vec<AD> = lib("evaluate", || p.run(&mx.x))?;
            let vals: Vec<f64> = v.iter().map(|a| a.value()).collect();
            let tans: Vec<f64> = v.iter().map(|a| a.dvalue()).collect();
            let deps = p.deps();
            for (i, node) in p.nodes.iter().enumerate() {
                match node {
                    In(k) => ensure!(tans[i] == dx[*k], "tangent:input", "an input lost its first-order value: {} instead of {}", tans[i], dx[*k]),
                    _ => {
                        check_tangent(node, ops_of(node, &vals), ops_of(node, &tans), tans[i])?;
                        ensure!(deps[i] || tans[i] == 0.0, "tangent:constant", "node {} of constants has first-order value {}", i, tans[i]);
                    }
                }
                obs.add("operations checked", 1);
            }
            // end to end by the chain rule, with error bounds carried along
            let (d, e) = refs::forward(&p, &vals, &dx);
            for i in 0..d.len() {
                ensure!(close(tans[i], d[i], 2.0 * e[i] + 1e-300), "tangent:chain", "node {} has first-order value {:e}, chain rule gives {:e}", i, tans[i], d[i]);
            }
        } else {
            let scale = *rng.pick(&[1.0, 1.0, 10.0, 1e3, 1e-3, 1e6]);
            let pickv = |rng: &mut Rng| if rng.chance(0.3) { *rng.pick(&SPECIAL) } else { rng.uniform(-3.0, 3.0) * scale };
            let x: Vec<f64> = (0..3).map(|_| pickv(rng)).collect();
            let c = pickv(rng);
            let dx: Vec<f64> = (0..3).map(|_| if rng.chance(0.4) { 0.0 } else { nice(rng, 0.2) }).collect();
            obs.mark(&format!("all operations at {:?} along {:?} and constant {}", x, dx, c));
            for _ in 0..4 {
                let (e, b) = big_power(rng);
                let mx = mix(rng, &[b], &dx[..1], 0.5);
                let r = apply(&Powi(0, e), &mx.x)?;
                check_tangent(&Powi(0, e), [b, 0.0, 0.0], [dx[0], 0.0, 0.0], r.dvalue())?;
                obs.add("large integer powers", 1);
            }
            let mx = mix(rng, &x, &dx, 0.5);
            let free = [dx[0] != 0.0, dx[1] != 0.0, dx[2] != 0.0];
            for node in all_nodes(c) {
                let o = ops_of(&node, &x);
                let fr = if let B(_, a, b) = node { [free[a], free[b], false] } else { free };
                if !differentiable(&node, o, fr) {
                    continue;
                }
                let r = apply(&node, &mx.x)?;
                check_tangent(&node, o, ops_of(&node, &dx), r.dvalue())?;
                obs.add("operations checked", 1);
            }
            // operands and tangents of any magnitude
            let x: Vec<f64> = (0..3).map(|_| if rng.chance(0.2) { nice(rng, 0.2) } else { far(rng) }).collect();
            let c = far(rng);
            let dx: Vec<f64> = (0..3).map(|i| match rng.below(5) { 0 => 0.0, 1 => nice(rng, 0.2), 2 => x[i] * nice(rng, 0.0), _ => far(rng) }).collect();
            obs.mark(&format!("all operations at {:?} along {:?} and constant {:e}", x, dx, c));
            let mx = mix(rng, &x, &dx, 0.5);
            let free = [dx[0] != 0.0, dx[1] != 0.0, dx[2] != 0.0];
            for node in all_nodes(c) {
                let (o, d) = (ops_of(&node, &x), ops_of(&node, &dx));
                let fr = if let B(_, a, b) = node { [free[a], free[b], false] } else { free };
                if node.is_pl() || !differentiable(&node, o, fr) || !fits(&node, o, d) {
                    continue;
                }
                let r = apply(&node, &mx.x)?;
                check_tangent(&node, o, d, r.dvalue())?;
                obs.add("operations checked far from one", 1);
            }
            // no increment means none in the result, also at the ends of the domain
            let s = *rng.pick(&[1.0, -1.0]);
            let mx = mix(rng, &[s, 0.0, 0.0], &[0.0; 3], 0.5);
            for node in [U(Un::Asin, 0), U(Un::Acos, 0), U(Un::Sqrt, 1), U(Un::Cbrt, 1), B(Bi::Hypot, 1, 2), B(Bi::Powf, 1, 0), B(Bi::Powf, 1, 2)] {
                let r = apply(&node, &mx.x)?;
                ensure!(r.dvalue() == 0.0 || !r.value().is_finite(), format!("tangent-zero:{}", node.name()), "{} at the end of its domain with zero operand tangents has first-order value {:e}", node.name(), r.dvalue());
            }
            // no increment anywhere means none in the result, also at the smallest numbers there are
            let x: Vec<f64> = (0..3).map(|_| f64::from_bits(rng.below(1 << 52) as u64 + 1)).collect();
            let mx = mix(rng, &x, &[0.0; 3], 0.5);
            for node in [U(Un::Ln, 0), U(Un::Sin, 0), U(Un::Tan, 0), U(Un::Exp, 0), U(Un::Atan, 0), U(Un::Asin, 0), U(Un::Sqrt, 0), U(Un::Log2, 0), B(Bi::Div, 0, 1), B(Bi::Mul, 0, 1), F(Fl::Div, 0, 3.0)] {
                let r = apply(&node, &mx.x)?;
                ensure!(r.dvalue() == 0.0 || !r.value().is_finite(), format!("tangent-zero:{}", node.name()), "{} at {:?} with zero operand tangents has first-order value {:e}", node.name(), x, r.dvalue());
            }
        }
        Ok(())
    });
    run.finish("case kinds: smooth random programs on tangent-carrying AD scalars, checked operation by operation against analytic partial derivatives and end to end; every operation on a grid of points, signs, scales and zero tangents. Non-trivial: at least one operation compared")
}

// ---------------------------------------------------------------- P11

pub fn p11(run: &Run) -> i32 {
    let n = run.pick(100_000, 3_000_000);
    run.cases(0, n, 8, |case, rng, obs| {
        if case % 2 == 0 {
            // exact piecewise-linear code, kinks hit exactly
            let nn = rng.range(1, 5);
            let (ops, m) = (rng.range(4, 40), rng.range(1, 4));
            let p = gen_dyadic(rng, nn, ops, m, 0.35, false);
            let x = dyadic_vec(rng, nn, 0.3);
            let dx = if rng.chance(0.2) { x.iter().map(|a| -a * *rng.pick(&[1.0, 2.0])).collect() } else { dyadic_vec(rng, nn, 0.3) };
            let u = unit(rng);
            let (p, x, dx) = (in_unit(p, u), times(x, u), times(dx, u));
            obs.add("programs far from the unit one", (u != 1.0) as u64);
            let x2: Vec<f64> = x.iter().zip(&dx).map(|(a, b)| a + b).collect();
            obs.mark(&format!("{} dx={:?}", p.text(&x), dx));
            let base: Vec<f64> = p.run(&x);
            let moved: Vec<f64> = p.run(&x2);
            for (i, nd) in p.nodes.iter().enumerate() {
                if let U(Un::Abs, a) = nd {
                    obs.add("absolute values", 1);
                    obs.add("kinks at the base point", (base[*a] == 0.0) as u64);
                    obs.add("kinks at the displaced point", (moved[*a] == 0.0) as u64);
                    obs.add("kinks crossed", (base[*a] * moved[*a] < 0.0) as u64);
                }
                let _ = i;
            }
            let rec = *rng.pick(&[0.0, 1.0]);
            let mx = mix(rng, &x, &dx, rec);
            let v: Vec<AD> = lib("evaluate", || p.run(&mx.x))?;
            for i in 0..v.len() {
                ensure!(
                    close(v[i].value() + v[i].dvalue(), moved[i], 1e-9 * u),
                    "pl:tapeless",
                    "node {} ({}): value {} plus first-order value {} is not the value {} at the displaced argument",
                    i, p.nodes[i].name(), v[i].value(), v[i].dvalue(), moved[i]
                );
            }
            // tape recorded elsewhere, moved here
            let x0 = times(dyadic_vec(rng, nn, 0.2), u);
            let mut t = tape_of(&p, &x0)?;
            let here = rng.chance(0.7);
            if here {
                lib("zero_order", || t.zero_order(&dv(&x)))?;
            }
            let from = if here { &x } else { &x0 };
            let d: Vec<f64> = from.iter().zip(&x2).map(|(a, b)| b - a).collect();
            let dy = lib("first_order_forward", || t.first_order_forward(&dv(&d)))?;
            let y = t.y();
            for (i, o) in p.outs.iter().enumerate() {
                ensure!(
                    close(y[i] + dy[i], moved[*o], 1e-9 * u),
                    "pl:tape",
                    "result {}: stored value {} plus tape increment {} is not the value {} at the displaced argument",
                    i, y[i], dy[i], moved[*o]
                );
            }
        } else {
            let cfg = Cfg { n: rng.range(1, 5), ops: rng.range(5, 50), m: rng.range(1, 4), smooth: false, abs_only: false, kink_p: 0.3, points: 2, special: 0.4, plain: rng.chance(0.4) };
            let (p, pts) = gen(rng, &cfg);
            let dx: Vec<f64> = (0..p.n).map(|_| nice(rng, 0.4) * *rng.pick(&[1.0, 1.0, 0.01, 30.0])).collect();
            obs.mark(&format!("{} dx={:?}", p.text(&pts[0]), dx));
            let v = tapeless(&p, &pts[0], &dx)?;
            let vals: Vec<f64> = v.iter().map(|a| a.value()).collect();
            let tans: Vec<f64> = v.iter().map(|a| a.dvalue()).collect();
            for (i, node) in p.nodes.iter().enumerate() {
                if !matches!(node, In(_)) {
                    let (o, d) = (ops_of(node, &vals), ops_of(node, &tans));
                    if node.is_pl() {
                        obs.add("absolute values", 1);
                        let (want, tol) = refs::tangent(node, o, d);
                        ensure!(close(tans[i], want, tol), format!("increment:{}", node.name()), "{} at {:?} with increments {:?} gives {:e}, expected {:e}", node.name(), o, d, tans[i], want);
                    } else {
                        check_tangent(node, o, d, tans[i])?;
                    }
                }
            }
            let mut t = tape_of(&p, &pts[1])?;
            lib("zero_order", || t.zero_order(&dv(&pts[0])))?;
            let dy = lib("first_order_forward", || t.first_order_forward(&dv(&dx)))?;
            let (d, e) = refs::forward(&p, &vals, &dx);
            for (i, o) in p.outs.iter().enumerate() {
                ensure!(close(dy[i], d[*o], 2.0 * e[*o] + 1e-300), "increment:tape", "result {} has tape increment {:e}, the piecewise linearization gives {:e}", i, dy[i], d[*o]);
                ensure!(close(tans[*o], d[*o], 2.0 * e[*o] + 1e-300), "increment:tapeless", "result {} has increment {:e}, the piecewise linearization gives {:e}", i, tans[*o], d[*o]);
            }
        }
        Ok(())
    });
    run.finish("case kinds: piecewise-linear programs in exact dyadic arithmetic (kinks hit and crossed exactly): value plus first-order value against the plain program at the displaced argument, tapeless and on tapes; smooth programs with absolute values, maxima, minima: local increments and whole linearization. Non-trivial: every program; kinks counted")
}

// ---------------------------------------------------------------- P24

/// value, two first derivatives, mixed second derivative, and bounds for the last three
#[derive(Clone, Copy, Debug, PartialEq)]
struct Hy {
    v: f64,
    a: f64,
    b: f64,
    ab: f64,
}
impl Hy {
    fn of(x: AFloat<AD>) -> Hy {
        Hy { v: x.value().value(), a: x.value().dvalue(), b: x.dvalue().value(), ab: x.dvalue().dvalue() }
    }
    fn sum(self) -> f64 {
        self.ab.abs()
    }
}
/// second-order chain rule for f(u): expectation and magnitude of the terms
fn hy1(u: Hy, f: f64, f1: f64, f2: f64) -> (Hy, f64) {
    (Hy { v: f, a: f1 * u.a, b: f1 * u.b, ab: f1 * u.ab + f2 * u.a * u.b }, (f1 * u.ab).abs() + (f2 * u.a * u.b).abs())
}
fn hy_mul(u: Hy, w: Hy) -> (Hy, f64) {
    (
        Hy { v: u.v * w.v, a: u.a * w.v + u.v * w.a, b: u.b * w.v + u.v * w.b, ab: u.ab * w.v + u.a * w.b + u.b * w.a + u.v * w.ab },
        (u.ab * w.v).abs() + (u.a * w.b).abs() + (u.b * w.a).abs() + (u.v * w.ab).abs(),
    )
}
fn hy_add(u: Hy, w: Hy, s: f64) -> (Hy, f64) {
    (Hy { v: u.v + s * w.v, a: u.a + s * w.a, b: u.b + s * w.b, ab: u.ab + s * w.ab }, u.sum() + w.sum())
}
fn hy_recip(u: Hy) -> (Hy, f64) {
    hy1(u, 1.0 / u.v, -1.0 / (u.v * u.v), 2.0 / (u.v * u.v * u.v))
}
fn hy_ln(u: Hy) -> (Hy, f64) {
    hy1(u, u.v.ln(), 1.0 / u.v, -1.0 / (u.v * u.v))
}
fn hy_pow(u: Hy, c: f64) -> (Hy, f64) {
    let f1 = if c == 0.0 { 0.0 } else { c * u.v.powf(c - 1.0) };
    let f2 = if c == 0.0 || c == 1.0 { 0.0 } else { c * (c - 1.0) * u.v.powf(c - 2.0) };
    hy1(u, u.v.powf(c), f1, f2)
}
fn konst(c: f64) -> Hy {
    Hy { v: c, a: 0.0, b: 0.0, ab: 0.0 }
}

/// expectation for one node and error scale of the second derivative
fn hy_step(node: &Node, x: &[Hy], v: &[Hy]) -> Option<(Hy, f64)> {
    let one = |u: Hy, f: f64, f1: f64, f2: f64| Some(hy1(u, f, f1, f2));
    let chain = |r: (Hy, f64), e: f64| Some((r.0, r.1 + e));
    match *node {
        In(i) => Some((x[i], 0.0)),
        K(c) => Some((konst(c), 0.0)),
        U(u, a) => {
            let h = v[a];
            let t = h.v;
            match u {
                Un::Neg => one(h, -t, -1.0, 0.0),
                Un::Sin | Un::SinCos0 => one(h, t.sin(), t.cos(), -t.sin()),
                Un::Cos | Un::SinCos1 => one(h, t.cos(), -t.sin(), -t.cos()),
                Un::Tan => {
                    let s = 1.0 / (t.cos() * t.cos());
                    one(h, t.tan(), s, 2.0 * t.tan() * s)
                }
                Un::Abs => None,
                Un::Exp => one(h, t.exp(), t.exp(), t.exp()),
                Un::Ln => Some(hy_ln(h)),
                Un::Asin => {
                    let q = (1.0 - t) * (1.0 + t);
                    one(h, t.asin(), q.powf(-0.5), t * q.powf(-1.5))
                }
                Un::Acos => {
                    let q = (1.0 - t) * (1.0 + t);
                    one(h, t.acos(), -q.powf(-0.5), -t * q.powf(-1.5))
                }
                Un::Atan => {
                    let q = 1.0 / (1.0 + t * t);
                    one(h, t.atan(), q, -2.0 * t * q * q)
                }
                Un::Sqrt => Some(hy_pow(h, 0.5)),
                Un::Cbrt => Some(hy_pow(h, 1.0 / 3.0)),
                Un::Exp2 => {
                    let l = 2f64.ln();
                    one(h, t.exp2(), l * t.exp2(), l * l * t.exp2())
                }
                Un::Log2 => one(h, t.log2(), 1.0 / (t * 2f64.ln()), -1.0 / (t * t * 2f64.ln())),
                Un::Log10 => one(h, t.log10(), 1.0 / (t * 10f64.ln()), -1.0 / (t * t * 10f64.ln())),
                Un::Recip => Some(hy_recip(h)),
                Un::ToDeg => one(h, t.to_degrees(), 180.0 / std::f64::consts::PI, 0.0),
                Un::ToRad => one(h, t.to_radians(), std::f64::consts::PI / 180.0, 0.0),
            }
        }
        B(op, a, b) => {
            let (p, q) = (v[a], v[b]);
            match op {
                Bi::Add | Bi::AddA => Some(hy_add(p, q, 1.0)),
                Bi::Sub | Bi::SubA => Some(hy_add(p, q, -1.0)),
                Bi::Mul | Bi::MulA => Some(hy_mul(p, q)),
                Bi::Div | Bi::DivA => {
                    let (r, e) = hy_recip(q);
                    let m = hy_mul(p, r);
                    chain(m, e * p.v.abs())
                }
                Bi::Powf => {
                    if q.a == 0.0 && q.b == 0.0 && q.ab == 0.0 {
                        Some(hy_pow(p, q.v))
                    } else {
                        let (l, e1) = hy_ln(p);
                        let (m, e2) = hy_mul(q, l);
                        let (r, e3) = hy1(m, p.v.powf(q.v), p.v.powf(q.v), p.v.powf(q.v));
                        let f = p.v.powf(q.v).abs();
                        // sum of the absolute contributions, for cancellation between them
                        let ma = (q.a * l.v).abs() + (q.v * l.a).abs();
                        let mb = (q.b * l.v).abs() + (q.v * l.b).abs();
                        chain((r, e3), f * (e1 * q.v.abs() + e2 + ma * mb))
                    }
                }
                Bi::Log => {
                    let (lp, e1) = hy_ln(p);
                    let (lq, e2) = hy_ln(q);
                    let (r, e3) = hy_recip(lq);
                    let m = hy_mul(lp, r);
                    chain(m, e1 * r.v.abs() + lp.v.abs() * (e3 + e2 / (lq.v * lq.v)))
                }
                Bi::Hypot => {
                    let (pp, e1) = hy_mul(p, p);
                    let (qq, e2) = hy_mul(q, q);
                    let (s, e3) = hy_add(pp, qq, 1.0);
                    let (r, e4) = hy_pow(s, 0.5);
                    let sa = (2.0 * p.v * p.a).abs() + (2.0 * q.v * q.a).abs();
                    let sb = (2.0 * p.v * p.b).abs() + (2.0 * q.v * q.b).abs();
                    let h = p.v.hypot(q.v);
                    chain((r, e4), (e1 + e2 + e3) / h + sa * sb / (h * h * h))
                }
                Bi::Max | Bi::Min | Bi::AbsSub => None,
            }
        }
        F(op, a, c) => {
            let h = v[a];
            match op {
                Fl::Add | Fl::AddA | Fl::RAdd => Some(hy_add(h, konst(c), 1.0)),
                Fl::Sub | Fl::SubA => Some(hy_add(h, konst(c), -1.0)),
                Fl::RSub => Some(hy_add(konst(c), h, -1.0)),
                Fl::Mul | Fl::MulA | Fl::RMul => one(h, h.v * c, c, 0.0),
                Fl::Div | Fl::DivA => one(h, h.v / c, 1.0 / c, 0.0),
                Fl::RDiv => {
                    let (r, e) = hy_recip(h);
                    Some((Hy { v: c * r.v, a: c * r.a, b: c * r.b, ab: c * r.ab }, c.abs() * e))
                }
            }
        }
        Powi(a, n) => Some(hy_pow(v[a], n as f64)),
        MulAdd(a, b, c) => {
            let (m, e) = hy_mul(v[a], v[b]);
            chain(hy_add(m, v[c], 1.0), e)
        }
    }
}

/// Recorded nested scalars compute what the others compute; where the inner scalars are recorded,
/// the tape holds the first derivatives and differentiates them again
fn nested_on_tape(rng: &mut Rng, obs: &mut Obs, p: &Prog, x: &[AFloat<AD>], v: &[AFloat<AD>]) -> Res {
    let mut ctx = AContext::new();
    let inner = rng.chance(0.7);
    let mut seeds = vec![];
    let r: Vec<AFloat<AD>> = x
        .iter()
        .map(|x| {
            if !inner {
                let mut y = *x;
                ctx.set_indep(&mut y);
                return y;
            }
            let (mut a, mut b) = (x.value(), x.dvalue());
            seeds.extend([a.dvalue(), b.dvalue()]);
            ctx.set_indep(&mut a);
            ctx.set_indep(&mut b);
            AFloat::new(a, b)
        })
        .collect();
    let w = lib("evaluate nested on a tape", || p.run(&r))?;
    for i in 0..v.len() {
        let (g, h) = (Hy::of(w[i]), Hy::of(v[i]));
        ensure!(same(g.v, h.v) && same(g.a, h.a) && same(g.b, h.b) && same(g.ab, h.ab), "nested:recorded", "node {} {} gives {:?} recorded and {:?} otherwise", i, p.nodes[i].name(), g, h);
    }
    let out = *rng.pick(&p.outs);
    if inner {
        ctx.set_dep(&w[out].value());
        ctx.set_dep(&w[out].dvalue());
    } else {
        ctx.set_dep(&w[out]);
    }
    let t = ctx.tape();
    well_formed(&t)?;
    let h = Hy::of(v[out]);
    ensure!(same(t.y()[0], h.v), "nested:tape", "the tape gives {} instead of {}", t.y()[0], h.v);
    if inner {
        ensure!(same(t.y()[1], h.b), "nested:tape", "the tape gives the derivative {} instead of {}", t.y()[1], h.b);
        let d = lib("first_order_forward", || t.first_order_forward(&dv(&seeds)))?;
        // the sweep may take its terms in another order
        let top = |f: fn(&Hy) -> f64| v.iter().map(|y| f(&Hy::of(*y)).abs()).fold(0.0, |a: f64, b| if b.is_nan() { f64::INFINITY } else { a.max(b) });
        let (ta, tb) = (top(|h| h.a), top(|h| h.ab) + top(|h| h.a) * (1.0 + top(|h| h.b)));
        if !(ta < 1e8 && tb < 1e8) {
            obs.add("derivatives too large to compare", 1);
            return Ok(());
        }
        ensure!(close(d[0], h.a, 1e-7 * ta) && close(d[1], h.ab, 1e-7 * tb), "nested:tape", "the tape differentiates to {} and {} instead of {} and {}", d[0], d[1], h.a, h.ab);
        obs.add("derivatives recorded and differentiated again", 1);
    } else {
        obs.add("nested scalars recorded", 1);
    }
    Ok(())
}

fn nested(rng: &mut Rng, obs: &mut Obs) -> Res {
    let cfg = Cfg { n: rng.range(1, 4), ops: rng.range(3, 25), m: 1, smooth: true, abs_only: false, kink_p: 0.0, points: 1, special: 0.35, plain: false };
    let (p, pts) = gen(rng, &cfg);
    obs.mark(&format!("nested {}", p.text(&pts[0])));
    let x: Vec<AFloat<AD>> = pts[0]
        .iter()
        .map(|x| AFloat::new(AD::new(*x, nice(rng, 0.5)), AD::new(nice(rng, 0.5), if rng.chance(0.7) { 0.0 } else { nice(rng, 0.3) })))
        .collect();
    let v = lib("evaluate nested", || p.run(&x))?;
    if rng.chance(0.25) {
        nested_on_tape(rng, obs, &p, &x, &v)?;
    }
    let xs: Vec<Hy> = x.iter().map(|x| Hy::of(*x)).collect();
    let h: Vec<Hy> = v.iter().map(|x| Hy::of(*x)).collect();
    for (i, node) in p.nodes.iter().enumerate() {
        let Some((w, e)) = hy_step(node, &xs, &h) else { continue };
        // powers must be twice differentiable here
        let ops = ops_of(node, &h.iter().map(|y| y.v).collect::<Vec<_>>());
        let ex = match node {
            B(Bi::Powf, _, _) => ops[1],
            Powi(_, n) => *n as f64,
            _ => 2.0,
        };
        if matches!(node, B(Bi::Powf, _, _) | Powi(..)) && ops[0] == 0.0 && !(ex >= 2.0 || ex == 0.0 || ex == 1.0) {
            continue;
        }
        if [w.v, w.a, w.b, w.ab, e].iter().any(|t| !t.is_finite() || t.abs() > 1e12) || h.iter().take(i).any(|y| [y.a, y.b, y.ab].iter().any(|t| t.abs() > 1e12)) {
            continue;
        }
        let g = h[i];
        // nothing that has to underflow on the way
        if node.args().0[..node.args().1].iter().any(|j| [h[*j].v, h[*j].a, h[*j].b, h[*j].ab].iter().any(|t| *t != 0.0 && t.abs() < 1e-70)) {
            continue;
        }
        // the first-order parts may cancel between the operands
        let (args, k) = node.args();
        let q = refs::partials(node, ops);
        let sa: f64 = (0..k).map(|j| (q[j] * h[args[j]].a).abs()).sum();
        let sb: f64 = (0..k).map(|j| (q[j] * h[args[j]].b).abs()).sum();
        ensure!(close(g.v, w.v, 1e-11 * w.v.abs() + 1e-13 * (ops[0].abs() + ops[1].abs()) * 10.0 + 1e-300), "nested:value", "node {} {} has value {} instead of {}", i, node.name(), g.v, w.v);
        ensure!(close(g.a, w.a, 1e-9 * sa + 1e-300), "nested:first", "node {} {} has inner derivative {} instead of {}", i, node.name(), g.a, w.a);
        ensure!(close(g.b, w.b, 1e-9 * sb + 1e-300), "nested:first", "node {} {} has outer derivative {} instead of {}", i, node.name(), g.b, w.b);
        // the second derivative: terms may cancel, so scale by their magnitudes
        ensure!(
            close(g.ab, w.ab, 1e-8 * e + 1e-300),
            format!("nested:second:{}", node.name()),
            "node {} {:?} at {:?} has second derivative {:e} instead of {:e} (allowed error {:e})",
            i, node, (0..k).map(|j| h[args[j]]).collect::<Vec<_>>(), g.ab, w.ab, 1e-8 * e
        );
        obs.add("second derivatives checked", 1);
    }
    Ok(())
}

fn single(rng: &mut Rng, obs: &mut Obs) -> Res {
    let smooth = rng.chance(0.7);
    let cfg = Cfg { n: rng.range(1, 4), ops: rng.range(3, 25), m: rng.range(1, 3), smooth, abs_only: false, kink_p: 0.2, points: 2, special: 0.3, plain: false };
    let (p, pts) = gen(rng, &cfg);
    let x: Vec<f32> = pts[0].iter().map(|v| *v as f32).collect();
    let dx: Vec<f32> = (0..p.n).map(|_| nice(rng, 0.4) as f32).collect();
    obs.mark(&format!("f32 {}", p.text(&pts[0])));
    // stay where single precision makes sense
    let f: Vec<f32> = p.run(&x);
    let wide: Vec<f64> = f.iter().map(|v| *v as f64).collect();
    let xd: Vec<f64> = x.iter().map(|v| *v as f64).collect();
    let deps = p.deps();
    for (i, node) in p.nodes.iter().enumerate() {
        let (a, k) = node.args();
        let mut fr = [false; 3];
        for j in 0..k {
            fr[j] = deps[a[j]];
        }
        if !matches!(node, In(_)) && !good(node, ops_of(node, &wide), wide[i], fr) {
            obs.add("f32 programs skipped", 1);
            return Ok(());
        }
    }
    let mut ctx = AContext::new();
    let rec = rng.chance(0.7);
    let xs: Vec<AFloat<f32>> = x
        .iter()
        .zip(&dx)
        .map(|(a, b)| {
            let mut v = AFloat::<f32>::new(*a, *b);
            if rec {
                ctx.set_indep(&mut v);
            }
            v
        })
        .collect();
    let v = lib("evaluate f32", || p.run(&xs))?;
    let vals: Vec<f64> = v.iter().map(|a| a.value() as f64).collect();
    let tans: Vec<f64> = v.iter().map(|a| a.dvalue() as f64).collect();
    for (i, node) in p.nodes.iter().enumerate() {
        let o = if let In(k) = node { [xd[*k], 0.0, 0.0] } else { ops_of(node, &vals) };
        let (w, _) = refs::value(node, o);
        let mag = w.abs() + if node.is_elementary() && !node.is_pl() { 0.0 } else { o[0].abs() + o[1].abs() + o[2].abs() };
        let ok = if node.is_elementary() {
            // one single-precision operation
            let xo: Vec<f32> = x.clone();
            let r: f32 = step(node, &xo, &v.iter().map(|a| a.value()).collect::<Vec<f32>>());
            same(r as f64, vals[i])
        } else {
            close(vals[i], w, 4e-5 * (mag + w.abs() * w.abs().max(1e-30).ln().abs()) + if matches!(node, B(Bi::Hypot, _, _)) { 1e-22 } else { 1e-37 })
        };
        ensure!(ok, "f32:value", "node {} {} at {:?} has value {} instead of {}", i, node.name(), o, vals[i], w);
        if let In(k) = node {
            ensure!(tans[i] == dx[*k] as f64, "f32:input", "input {} lost its derivative", k);
            continue;
        }
        let d = ops_of(node, &tans);
        let (w, _) = refs::tangent(node, o, d);
        let tol = if node.is_pl() {
            2e-6 * (0..2).map(|j| o[j].abs() + d[j].abs()).sum::<f64>() + 1e-37
        } else {
            let q = refs::partials(node, o);
            2e-3 * (0..3).map(|j| (q[j] * d[j]).abs()).filter(|t| t.is_finite()).sum::<f64>() + 1e-37
        };
        ensure!(close(tans[i], w, tol), format!("f32:tangent:{}", node.name()), "node {} {} at {:?} along {:?} has derivative {} instead of {}", i, node.name(), o, d, tans[i], w);
        obs.add("f32 operations checked", 1);
    }
    if !rec {
        return Ok(());
    }
    for o in p.outs.iter() {
        ctx.set_dep(&v[*o]);
    }
    let mut t = ctx.tape();
    well_formed(&t)?;
    // every stored value is single precision, and that of its operation
    let stored: Vec<f32> = t.values().iter().map(|v| *v as f32).collect();
    for op in t.ops_iter() {
        let k = op.vid;
        ensure!(same(stored[k] as f64, t.values()[k]), "f32:tape", "stored value {} is {}, no single-precision number", k, t.values()[k]);
        let (Some(i), j) = (op.arg1, op.arg2) else { continue };
        let (a, b) = (stored[i], j.map_or(0.0, |j| stored[j]));
        let w = match op.opcode {
            OpCode::Add => a + b,
            OpCode::Sub => a - b,
            OpCode::Mul => a * b,
            OpCode::Div => a / b,
            OpCode::Powf => a.powf(b),
            OpCode::Sin => a.sin(),
            OpCode::Cos => a.cos(),
            OpCode::Tan => a.tan(),
            OpCode::Abs => a.abs(),
            OpCode::Exp => a.exp(),
            OpCode::Ln => a.ln(),
            OpCode::Asin => a.asin(),
            OpCode::Acos => a.acos(),
            OpCode::Atan => a.atan(),
            _ => continue,
        };
        ensure!(same(w as f64, stored[k] as f64), "f32:tape", "{:?} on {} and {} stores {} instead of {}", op, a, b, stored[k], w);
        obs.add("f32 operations on tapes", 1);
    }
    for (i, o) in p.outs.iter().enumerate() {
        ensure!(same(t.y()[i], vals[*o]), "f32:tape", "stored result {} is {} instead of {}", i, t.y()[i], vals[*o]);
    }
    ensure!(t.x().as_slice() == xd.as_slice(), "f32:tape", "stored argument {:?} instead of {:?}", t.x(), xd);
    // differentiate the recording like a double one
    lib("zero_order", || t.zero_order(&dv(&xd)))?;
    // the same point in double precision may lie outside of a function's domain
    let inside = t.values().iter().all(|v| v.is_finite())
        && t.ops_iter().filter(|op| op.arg1.is_some() && op.opcode != OpCode::Abs).all(|op| {
            let (a, b) = op_partials(&op, t.values());
            a.is_finite() && b.is_finite()
        });
    if !inside {
        obs.add("f32 tapes skipped", 1);
        return Ok(());
    }
    // constants entered the recording in single precision
    let dd: Vec<f64> = dx.iter().map(|v| *v as f64).collect();
    let dense = dense_anf(&t);
    let dy = lib("first_order_forward", || t.first_order_forward(&dv(&dd)))?;
    if dense.s == 0 {
        let w = &dense.jm * dv(&dd);
        let b = &dense.ja * dv(&dd.iter().map(|v| v.abs()).collect::<Vec<_>>());
        for i in 0..p.m() {
            ensure!(close(dy[i], w[i], 1e-8 * b[i] + 1e-300), "f32:forward", "directional derivative of result {} is {} instead of {}", i, dy[i], w[i]);
        }
        let yb: Vec<f64> = (0..p.m()).map(|_| nice(rng, 0.3)).collect();
        let xb = lib("first_order_reverse", || t.first_order_reverse(&dv(&yb)))?;
        let w = dense.jm.transpose() * dv(&yb);
        let b = dense.ja.transpose() * dv(&yb.iter().map(|v| v.abs()).collect::<Vec<_>>());
        for i in 0..p.n {
            ensure!(close(xb[i], w[i], 1e-8 * b[i] + 1e-300), "f32:reverse", "adjoint of argument {} is {} instead of {}", i, xb[i], w[i]);
        }
        // and the recording is that of the program: the same operations as recorded in double precision
        let double = tape_of(&p, &xd)?;
        let (o1, o2): (Vec<Operation>, Vec<Operation>) = (t.ops_iter().collect(), double.ops_iter().collect());
        if o1 == o2 && t.indeps() == double.indeps() && t.deps() == double.deps() {
            obs.add("f32 recordings with the operations of the double one", 1);
        } else {
            // recorded in another way: the derivatives must agree as far as single-precision constants allow
            let plain: Vec<f64> = p.run(&xd);
            let (d, e) = refs::forward(&p, &plain, &dd);
            for (i, o) in p.outs.iter().enumerate() {
                let scale = 1.0 + d[*o].abs() + e[*o] * 1e13;
                ensure!(close(dy[i], d[*o], 1e-2 * scale), "f32:program", "derivative of result {} on the tape is {} but the program's is {}", i, dy[i], d[*o]);
            }
            obs.add("f32 recordings with other operations than the double one", 1);
        }
    }
    obs.add("f32 tapes differentiated", 1);
    Ok(())
}

fn casts(rng: &mut Rng, obs: &mut Obs) -> Res {
    // at zeros of both signs, infinities, NaN, beyond the single-precision range and its steps too
    const ODD: [f64; 15] = [0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, -1e39, 3.4e38, 1e-39, -1e-45, 5e-324, 1e-300, 16777217.0, 0.1, 1.0];
    let (mut x, mut d) = (nice(rng, 0.3), nice(rng, 0.3));
    for v in [&mut x, &mut d] {
        if rng.chance(0.3) {
            *v = ODD[rng.below(ODD.len())];
        }
    }
    let rec = rng.chance(0.8);
    let mut ctx = AContext::new();
    let mut a = AD::new(x, d);
    let mut other = AD::new(0.5, 0.0);
    if rng.chance(0.5) {
        ctx.set_indep(&mut other);
    }
    if rec {
        ctx.set_indep(&mut a);
    }
    let b = if rec && rng.chance(0.5) { a.sin() * 2.0 } else { a };
    let s: AFloat<f32> = lib("cast", || AFloat::<f32>::cast(b))?;
    let back: AD = lib("cast", || AD::cast(s))?;
    let twice: AD = lib("cast", || AD::cast(b))?;
    obs.mark(&format!("cast of {} {} recorded {}", b.value(), b.dvalue(), rec));
    ensure!(same(s.value() as f64, b.value() as f32 as f64) && same(s.dvalue() as f64, b.dvalue() as f32 as f64), "cast:narrow", "casting {:?} gave {:?}", b, s);
    ensure!(same(back.value(), s.value() as f64) && same(back.dvalue(), s.dvalue() as f64), "cast:widen", "casting {:?} gave {:?}", s, back);
    ensure!(same(twice.value(), b.value()) && same(twice.dvalue(), b.dvalue()), "cast:same", "casting {:?} gave {:?}", b, twice);
    // recorded identity: operations on the cast variable use the recorded value
    let before = ctx.operations().len();
    let c = s * s;
    let e = back + 1.0;
    if rec {
        let vid = vid_of(&mut ctx, &b);
        ctx.set_dep(&s);
        ctx.set_dep(&back);
        let deps = ctx.deps();
        let k = deps.len();
        ensure!(deps[k - 1] == vid && deps[k - 2] == vid, "cast:identity", "cast variables refer to values {:?} instead of {}", &deps[k - 2..], vid);
        let ops = ctx.operations();
        let new: Vec<_> = ops[before..].iter().filter(|o| o.opcode != OpCode::Const).collect();
        ensure!(new.len() == 2, "cast:record", "two operations on cast variables recorded {:?}", new);
        ensure!(new[0].opcode == OpCode::Mul && new[0].arg1 == Some(vid) && new[0].arg2 == Some(vid), "cast:record", "square of the cast variable recorded {:?}", new[0]);
        ensure!(new[1].opcode == OpCode::Add && new[1].arg1 == Some(vid), "cast:record", "sum of the cast variable recorded {:?}", new[1]);
        well_formed(&ctx.tape())?;
    } else {
        ensure!(ctx.operations().len() == before, "cast:record", "unrecorded cast variables recorded operations");
    }
    ensure!(same(c.value() as f64, (s.value() * s.value()) as f64) && same(e.value(), back.value() + 1.0), "cast:value", "operations on cast variables give {:?} {:?}", c, e);
    obs.add("casts checked", 3);
    Ok(())
}

/// Nested scalars through the whole machinery: derivative of the derivative of a function object's Jacobian row
fn hessian(rng: &mut Rng, obs: &mut Obs) -> Res {
    // symmetric second derivatives from both nesting orders
    let cfg = Cfg { n: rng.range(2, 4), ops: rng.range(3, 18), m: 1, smooth: true, abs_only: false, kink_p: 0.0, points: 1, special: 0.2, plain: false };
    let (p, pts) = gen(rng, &cfg);
    obs.mark(&format!("hessian {}", p.text(&pts[0])));
    let (i, j) = (rng.below(p.n), rng.below(p.n));
    let e = |i: usize, j: usize| -> Result<f64, Fail> {
        let x: Vec<AFloat<AD>> = (0..p.n).map(|k| AFloat::new(AD::new(pts[0][k], (k == i) as u8 as f64), AD::new((k == j) as u8 as f64, 0.0))).collect();
        Ok(lib("evaluate nested", || p.run(&x))?[p.outs[0]].dvalue().dvalue())
    };
    let (a, b) = (e(i, j)?, e(j, i)?);
    if a.is_finite() && b.is_finite() && a.abs() < 1e6 {
        // bound from the hyper-dual reference with all magnitudes
        obs.add("hessian entries", 1);
        let xs: Vec<Hy> = (0..p.n).map(|k| Hy { v: pts[0][k], a: (k == i) as u8 as f64, b: (k == j) as u8 as f64, ab: 0.0 }).collect();
        let mut h: Vec<Hy> = vec![];
        let mut err: Vec<f64> = vec![];
        for node in p.nodes.iter() {
            let Some((w, e)) = hy_step(node, &xs, &h) else { return Ok(()) };
            if !w.ab.is_finite() || w.ab.abs() > 1e6 || e > 1e6 || !e.is_finite() {
                return Ok(());
            }
            h.push(w);
            err.push(e);
        }
        let scale: f64 = 1.0 + err.iter().cloned().fold(0.0, f64::max);
        let growth = h.iter().map(|y| 1.0 + y.a.abs() + y.b.abs()).fold(1.0, f64::max);
        if scale * growth * growth < 1e4 {
            ensure!(close(a, b, 1e-6 * scale * growth * growth), "nested:symmetry", "second derivatives ({},{}) and ({},{}) differ: {} and {}", i, j, j, i, a, b);
        }
    }
    Ok(())
}

/// ((x^2)+1)^3 and the like at points where inner derivatives vanish
fn vanishing(rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = rng.range(2, 5) as i32;
    let c = rng.uniform(0.5, 2.0);
    obs.mark(&format!("(x^2+{})^{} at 0", c, n));
    let x: AFloat<AD> = AFloat::new(AD::new(0.0, 1.0), AD::new(1.0, 0.0));
    let y = lib("evaluate nested", || (x * x + c).powi(n))?;
    let want = n as f64 * c.powi(n - 1) * 2.0;
    ensure!(close(y.dvalue().dvalue(), want, 1e-9 * want), "nested:vanishing", "second derivative of (x^2+{})^{} at 0 is {} instead of {}", c, n, y.dvalue().dvalue(), want);
    obs.add("vanishing inner derivatives", 1);
    let _ = DVector::<f64>::zeros(0);
    Ok(())
}

/// Kinks away from where they bend are smooth code too
fn nested_kinks(rng: &mut Rng, obs: &mut Obs) -> Res {
    let mut part = |rng: &mut Rng| if rng.chance(0.3) { 0.0 } else { nice(rng, 0.2) };
    let (a, b) = ([part(rng), part(rng), part(rng)], [part(rng), part(rng), part(rng)]);
    let reach: f64 = a.iter().chain(&b).map(|v| v.abs()).sum();
    let sgn = if rng.chance(0.5) { 1.0 } else { -1.0 };
    let far = sgn * (2.0 * reach + rng.uniform(0.5, 20.0));
    let base = if rng.chance(0.3) { 0.0 } else { nice(rng, 0.2) };
    let make = |v: f64, q: &[f64; 3]| -> AFloat<AD> { AFloat::new(AD::new(v, q[0]), AD::new(q[1], q[2])) };
    // x and y differ by more than all the derivatives together
    let (x, y) = (make(base + far, &a), make(base, &b));
    let z = make(far, &a);
    obs.mark(&format!("nested kinks {} {} {:?} {:?}", far, base, a, b));
    let tol = 1e-13 * (far.abs() + base.abs() + reach);
    let side = |g: AFloat<AD>, w: AFloat<AD>, f: f64, what: &str| -> Res {
        let (g, w) = (Hy::of(g), Hy::of(w));
        for (g, w, part) in [(g.v, w.v, "value"), (g.a, w.a, "inner derivative"), (g.b, w.b, "outer derivative"), (g.ab, w.ab, "second derivative")] {
            ensure!(close(g, f * w, tol), format!("nested:kink:{}", what), "{} of {} and {} away from its bend has {} {} instead of {}", what, base + far, base, part, g, f * w);
        }
        Ok(())
    };
    let (hi, lo) = if far > 0.0 { (x, y) } else { (y, x) };
    side(lib("abs", || Float::abs(z))?, z, sgn, "abs")?;
    side(lib("max", || Float::max(x, y))?, hi, 1.0, "max")?;
    side(lib("min", || Float::min(x, y))?, lo, 1.0, "min")?;
    side(lib("max", || Float::max(y, x))?, hi, 1.0, "max")?;
    side(lib("min", || Float::min(y, x))?, lo, 1.0, "min")?;
    obs.add("kinks passed by nested scalars", 5);
    Ok(())
}

/// Three levels: third derivatives against closed forms, and levels that rest change nothing
fn third(rng: &mut Rng, obs: &mut Obs) -> Res {
    type D2 = AFloat<AD>;
    type D3 = AFloat<D2>;
    let x = rng.uniform(0.3, 2.5);
    let c = rng.uniform(-1.5, 1.5);
    let (s1, s2, s3) = (nice(rng, 0.2), nice(rng, 0.2), nice(rng, 0.2));
    let k = |v: f64| -> D2 { AFloat::new(AD::new(v, 0.0), AD::new(0.0, 0.0)) };
    let arg = |s3: f64| -> D3 { AFloat::new(AFloat::new(AD::new(x, s1), AD::new(s2, 0.0)), k(s3)) };
    let con: D3 = AFloat::new(k(c), k(0.0));
    let which = rng.below(9);
    let n = rng.range(2, 6) as i32;
    obs.mark(&format!("third derivative of {} at {} along {} {} {} ({} {})", which, x, s1, s2, s3, c, n));
    let f = |t: D3| -> D3 {
        match which {
            0 => t.powi(n),
            1 => (t * con).exp(),
            2 => (t * con).sin(),
            3 => (t * con).cos(),
            4 => t.recip(),
            5 => t.ln(),
            6 => t.sqrt(),
            7 => t * t.exp(),
            _ => (t * t + con * con) / t,
        }
    };
    let m = n as f64;
    let (v, d3) = match which {
        0 => (x.powi(n), m * (m - 1.0) * (m - 2.0) * x.powi(n - 3)),
        1 => ((c * x).exp(), c * c * c * (c * x).exp()),
        2 => ((c * x).sin(), -c * c * c * (c * x).cos()),
        3 => ((c * x).cos(), c * c * c * (c * x).sin()),
        4 => (1.0 / x, -6.0 / x.powi(4)),
        5 => (x.ln(), 2.0 / x.powi(3)),
        6 => (x.sqrt(), 0.375 * x.powf(-2.5)),
        7 => (x * x.exp(), (x + 3.0) * x.exp()),
        _ => (x + c * c / x, -6.0 * c * c / x.powi(4)),
    };
    let y = lib("evaluate three levels", || f(arg(s3)))?;
    let scale = (s1 * s2 * s3).abs() * (d3.abs() + 10.0 * (1.0 + 1.0 / x.powi(4)) * (1.0 + v.abs()));
    let got = y.dvalue().dvalue().dvalue();
    ensure!(close(y.value().value().value(), v, 1e-12 * (1.0 + v.abs())), "nested:three:value", "three levels give the value {} instead of {}", y.value().value().value(), v);
    ensure!(close(got, d3 * s1 * s2 * s3, 1e-8 * scale + 1e-300), "nested:three", "function {} has third derivative {} at {} instead of {}", which, got, x, d3 * s1 * s2 * s3);
    // the third level does not touch the first two
    let z = lib("evaluate three levels", || f(arg(0.0)))?;
    ensure!(Hy::of(z.value()) == Hy::of(y.value()), "nested:three:value", "two levels depend on the third: {:?} and {:?}", z.value(), y.value());
    ensure!(z.dvalue().value().value() == 0.0 && z.dvalue().dvalue().dvalue() == 0.0, "nested:three", "a level at rest moves: {:?}", z.dvalue());
    obs.add("third derivatives", 1);
    Ok(())
}

pub fn p24(run: &Run) -> i32 {
    let n = run.pick(150_000, 4_000_000);
    run.cases(0, n, 8, |case, rng, obs| match case % 8 {
        0..=2 => nested(rng, obs),
        3..=5 => single(rng, obs),
        6 => {
            casts(rng, obs)?;
            nested_kinks(rng, obs)?;
            third(rng, obs)?;
            vanishing(rng, obs)
        }
        _ => hessian(rng, obs),
    });
    run.finish("case kinds: smooth programs on nested AD scalars, each operation's value, both first and the second derivative against a hyper-dual reference; symmetry of second derivatives; single-precision programs step by step, recorded and differentiated on the tape; casts between precisions; nested scalars recorded and their derivatives differentiated on the tape; kinks away from their bend; third derivatives. Non-trivial: at least one comparison")
}

#[allow(unused)]
fn unused(f: &dyn Function) {
    fn bad() -> Res {
        fail!("x", "y")
    }
    let _ = (f.n(), bad());
}
