//! Reference semantics, written independently of the crate under test.
use crate::prog::*;
use Node::*;

const LN2: f64 = std::f64::consts::LN_2;

/// Expected value of one operation on plain floats and the absolute error allowed (0: identical)
pub fn value(node: &Node, o: [f64; 3]) -> (f64, f64) {
    let [a, b, c] = o;
    match *node {
        In(_) => (a, 0.0),
        K(k) => (k, 0.0),
        U(u, _) => {
            let rel = |v: f64, r: f64| (v, r * v.abs());
            match u {
                Un::Neg => (-a, 0.0),
                Un::Sin | Un::SinCos0 => (a.sin(), 0.0),
                Un::Cos | Un::SinCos1 => (a.cos(), 0.0),
                Un::Tan => (a.tan(), 0.0),
                Un::Abs => (a.abs(), 0.0),
                Un::Exp => (a.exp(), 0.0),
                Un::Ln => (a.ln(), 0.0),
                Un::Asin => (a.asin(), 0.0),
                Un::Acos => (a.acos(), 0.0),
                Un::Atan => (a.atan(), 0.0),
                Un::Sqrt => rel(a.sqrt(), 1e-13),
                Un::Cbrt => rel(a.cbrt(), 1e-13),
                Un::Exp2 => rel(a.exp2(), 1e-13),
                Un::Log2 => rel(a.log2(), 1e-13),
                Un::Log10 => rel(a.log10(), 1e-13),
                Un::Recip => rel(1.0 / a, 1e-14),
                Un::ToDeg => rel(a.to_degrees(), 1e-13),
                Un::ToRad => rel(a.to_radians(), 1e-13),
            }
        }
        B(op, _, _) => {
            let s = 2e-15 * (a.abs() + b.abs());
            match op {
                Bi::Add | Bi::AddA => (a + b, 0.0),
                Bi::Sub | Bi::SubA => (a - b, 0.0),
                Bi::Mul | Bi::MulA => (a * b, 0.0),
                Bi::Div | Bi::DivA => (a / b, 0.0),
                Bi::Powf => (a.powf(b), 0.0),
                Bi::Log => (a.ln() / b.ln(), 1e-13 * (a.ln() / b.ln()).abs()),
                Bi::Max => (if a > b { a } else { b }, s),
                Bi::Min => (if a < b { a } else { b }, s),
                Bi::AbsSub => (if a > b { a - b } else { 0.0 }, s),
                Bi::Hypot => (a.hypot(b), 1e-13 * a.hypot(b)),
            }
        }
        F(op, _, k) => (
            match op {
                Fl::Add | Fl::AddA => a + k,
                Fl::Sub | Fl::SubA => a - k,
                Fl::Mul | Fl::MulA => a * k,
                Fl::Div | Fl::DivA => a / k,
                Fl::RAdd => k + a,
                Fl::RSub => k - a,
                Fl::RMul => k * a,
                Fl::RDiv => k / a,
            },
            0.0,
        ),
        Powi(_, n) => {
            let v = a.powf(n as f64);
            (v, (1e-12 + 1e-15 * (n as f64).abs()) * v.abs())
        }
        MulAdd(..) => (a * b + c, 1e-15 * ((a * b).abs() + c.abs()) * 2.0),
    }
}

/// Partial derivatives by the operands (smooth operations at good points)
pub fn partials(node: &Node, o: [f64; 3]) -> [f64; 3] {
    let [a, b, _] = o;
    let one = |p: f64| [p, 0.0, 0.0];
    match *node {
        In(_) | K(_) => [0.0; 3],
        U(u, _) => one(match u {
            Un::Neg => -1.0,
            Un::Sin | Un::SinCos0 => a.cos(),
            Un::Cos | Un::SinCos1 => -a.sin(),
            Un::Tan => 1.0 + a.tan() * a.tan(),
            Un::Abs => f64::NAN,
            Un::Exp => a.exp(),
            Un::Ln => 1.0 / a,
            Un::Asin => 1.0 / ((1.0 - a) * (1.0 + a)).sqrt(),
            Un::Acos => -1.0 / ((1.0 - a) * (1.0 + a)).sqrt(),
            Un::Atan => 1.0 / (1.0 + a * a),
            Un::Sqrt => 0.5 / a.sqrt(),
            Un::Cbrt => 1.0 / (3.0 * a.cbrt() * a.cbrt()),
            Un::Exp2 => LN2 * a.exp2(),
            Un::Log2 => 1.0 / (a * LN2),
            Un::Log10 => 1.0 / (a * std::f64::consts::LN_10),
            Un::Recip => -(1.0 / a) / a,
            Un::ToDeg => 180.0 / std::f64::consts::PI,
            Un::ToRad => std::f64::consts::PI / 180.0,
        }),
        B(op, _, _) => match op {
            Bi::Add | Bi::AddA => [1.0, 1.0, 0.0],
            Bi::Sub | Bi::SubA => [1.0, -1.0, 0.0],
            Bi::Mul | Bi::MulA => [b, a, 0.0],
            Bi::Div | Bi::DivA => [1.0 / b, -(a / b) / b, 0.0],
            Bi::Powf => {
                let pa = if b == 0.0 { 0.0 } else { b * a.powf(b - 1.0) };
                let pb = if a > 0.0 { a.ln() * a.powf(b) } else { 0.0 };
                [pa, pb, 0.0]
            }
            Bi::Log => [1.0 / (a * b.ln()), -a.ln() / (b * b.ln() * b.ln()), 0.0],
            Bi::Hypot => {
                let h = a.hypot(b);
                [a / h, b / h, 0.0]
            }
            Bi::Max | Bi::Min | Bi::AbsSub => [f64::NAN, f64::NAN, 0.0],
        },
        F(op, _, k) => one(match op {
            Fl::Add | Fl::AddA | Fl::Sub | Fl::SubA | Fl::RAdd => 1.0,
            Fl::RSub => -1.0,
            Fl::Mul | Fl::MulA | Fl::RMul => k,
            Fl::Div | Fl::DivA => 1.0 / k,
            Fl::RDiv => -(k / a) / a,
        }),
        Powi(_, n) => one(if n == 0 { 0.0 } else { n as f64 * a.powf(n as f64 - 1.0) }),
        MulAdd(..) => [b, a, 1.0],
    }
}

/// Increment of a piecewise-linear operation
pub fn increment(node: &Node, o: [f64; 3], d: [f64; 3]) -> f64 {
    let f = |a: f64, b: f64| match *node {
        U(Un::Abs, _) => a.abs(),
        B(Bi::Max, _, _) => {
            if a > b { a } else { b }
        }
        B(Bi::Min, _, _) => {
            if a < b { a } else { b }
        }
        B(Bi::AbsSub, _, _) => {
            if a > b { a - b } else { 0.0 }
        }
        _ => unreachable!(),
    };
    f(o[0] + d[0], o[1] + d[1]) - f(o[0], o[1])
}

/// Expected tangent of one operation and the error allowed, from the operands' values and tangents
pub fn tangent(node: &Node, o: [f64; 3], d: [f64; 3]) -> (f64, f64) {
    if node.is_pl() {
        let e: f64 = (0..2).map(|i| o[i].abs() + d[i].abs()).sum::<f64>() * 1e-14;
        return (increment(node, o, d), e);
    }
    let p = partials(node, o);
    let (_, k) = node.args();
    let mut s = 0.0;
    let mut a = 0.0;
    for i in 0..k {
        if d[i] != 0.0 {
            s += p[i] * d[i];
            // a partial below the smallest normal number is not exact
            a += (p[i] * d[i]).abs() + 1e-305 * d[i].abs();
        }
    }
    (s, 1e-10 * a)
}

/// Derivatives beyond this may overflow on the way although they are within the range themselves
const FAR: f64 = 1e296;

/// Tangents of all nodes with running error bounds
pub fn forward(p: &Prog, v: &[f64], dx: &[f64]) -> (Vec<f64>, Vec<f64>) {
    let mut d: Vec<f64> = Vec::with_capacity(v.len());
    let mut e: Vec<f64> = Vec::with_capacity(v.len());
    for node in p.nodes.iter() {
        if let In(i) = node {
            d.push(dx[*i]);
            e.push(0.0);
            continue;
        }
        let (args, k) = node.args();
        let o = ops_of(node, v);
        let dd = ops_of(node, &d);
        let (t, own) = tangent(node, o, dd);
        // what rounding below the smallest normal number costs
        let mut err = own + 1e-318;
        // so far up that a product on the way may leave the range
        if (0..k).any(|i| dd[i].abs() > FAR) || t.abs() > FAR {
            err = f64::INFINITY;
        }
        if node.is_pl() {
            for i in 0..k {
                err += e[args[i]];
            }
        } else {
            let q = partials(node, o);
            for i in 0..k {
                err += q[i].abs() * e[args[i]];
            }
        }
        d.push(t);
        e.push(err);
    }
    (d, e)
}

/// Adjoints of the inputs and the sums of absolute contributions (smooth programs)
pub fn reverse(p: &Prog, v: &[f64], ybar: &[f64]) -> (Vec<f64>, Vec<f64>) {
    let mut b = vec![0.0; v.len()];
    // starting above zero by what rounding below the smallest normal number costs
    let mut a = vec![1e-309; v.len()];
    for (i, o) in p.outs.iter().enumerate() {
        b[*o] += ybar[i];
        a[*o] += ybar[i].abs();
    }
    let mut xbar = vec![0.0; p.n];
    let mut xabs = vec![0.0; p.n];
    for i in (0..p.nodes.len()).rev() {
        if let In(k) = p.nodes[i] {
            xbar[k] += b[i];
            xabs[k] += a[i];
            continue;
        }
        let (args, k) = p.nodes[i].args();
        if b[i].abs() > FAR {
            a[i] = f64::INFINITY;
        }
        let q = partials(&p.nodes[i], ops_of(&p.nodes[i], v));
        for j in 0..k {
            b[args[j]] += q[j] * b[i];
            a[args[j]] += q[j].abs() * a[i] + 1e-305 * b[i].abs();
        }
    }
    (xbar, xabs)
}

/// Same number, counting NaN as equal to NaN and the zeros as equal
pub fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

pub fn close(a: f64, b: f64, tol: f64) -> bool {
    same(a, b) || (a - b).abs() <= tol
}
