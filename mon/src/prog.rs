//! Straight-line programs over everything an AD scalar can do, and their generators.
use crate::rng::Rng;
use advantage::{AFloat, DVector, Function};
use num::Float;

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Un {
    Neg, Sin, Cos, Tan, Abs, Exp, Ln, Asin, Acos, Atan,
    Sqrt, Cbrt, Exp2, Log2, Log10, Recip, ToDeg, ToRad, SinCos0, SinCos1,
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Bi {
    Add, Sub, Mul, Div, Powf, Log, Max, Min, AbsSub, Hypot, AddA, SubA, MulA, DivA,
}
/// float operand: on the right, on the left, or assigned
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Fl {
    Add, Sub, Mul, Div, RAdd, RSub, RMul, RDiv, AddA, SubA, MulA, DivA,
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Node {
    In(usize),
    K(f64),
    U(Un, usize),
    B(Bi, usize, usize),
    F(Fl, usize, f64),
    Powi(usize, i32),
    MulAdd(usize, usize, usize),
}
use Node::*;

pub const UNS: [Un; 20] = [
    Un::Neg, Un::Sin, Un::Cos, Un::Tan, Un::Abs, Un::Exp, Un::Ln, Un::Asin, Un::Acos, Un::Atan,
    Un::Sqrt, Un::Cbrt, Un::Exp2, Un::Log2, Un::Log10, Un::Recip, Un::ToDeg, Un::ToRad, Un::SinCos0, Un::SinCos1,
];
pub const BIS: [Bi; 14] = [
    Bi::Add, Bi::Sub, Bi::Mul, Bi::Div, Bi::Powf, Bi::Log, Bi::Max, Bi::Min, Bi::AbsSub, Bi::Hypot,
    Bi::AddA, Bi::SubA, Bi::MulA, Bi::DivA,
];
pub const FLS: [Fl; 12] = [
    Fl::Add, Fl::Sub, Fl::Mul, Fl::Div, Fl::RAdd, Fl::RSub, Fl::RMul, Fl::RDiv, Fl::AddA, Fl::SubA, Fl::MulA, Fl::DivA,
];

impl Node {
    pub fn args(&self) -> ([usize; 3], usize) {
        match *self {
            In(_) | K(_) => ([0; 3], 0),
            U(_, a) | F(_, a, _) | Powi(a, _) => ([a, 0, 0], 1),
            B(_, a, b) => ([a, b, 0], 2),
            MulAdd(a, b, c) => ([a, b, c], 3),
        }
    }
    pub fn is_pl(&self) -> bool {
        matches!(self, U(Un::Abs, _) | B(Bi::Max, _, _) | B(Bi::Min, _, _) | B(Bi::AbsSub, _, _))
    }
    pub fn name(&self) -> String {
        match self {
            In(_) => "in".into(),
            K(_) => "const".into(),
            U(u, _) => format!("{:?}", u),
            B(b, _, _) => format!("{:?}", b),
            F(f, _, _) => format!("float-{:?}", f),
            Powi(_, _) => "Powi".into(),
            MulAdd(..) => "MulAdd".into(),
        }
    }
    /// one recorded operation, whose value must be the float operation's exactly
    pub fn is_elementary(&self) -> bool {
        match self {
            In(_) | K(_) => true,
            U(u, _) => matches!(
                u,
                Un::Sin | Un::Cos | Un::Tan | Un::Abs | Un::Exp | Un::Ln | Un::Asin | Un::Acos | Un::Atan | Un::SinCos0 | Un::SinCos1
            ),
            B(b, _, _) => matches!(
                b,
                Bi::Add | Bi::Sub | Bi::Mul | Bi::Div | Bi::Powf | Bi::AddA | Bi::SubA | Bi::MulA | Bi::DivA
            ),
            F(..) => true,
            _ => false,
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct Prog {
    pub n: usize,
    pub nodes: Vec<Node>,
    pub outs: Vec<usize>,
}

/// Scalars programs can run on
pub trait Sc: Float + std::fmt::Debug {
    fn k(c: f64) -> Self;
    fn fl(op: Fl, x: Self, c: f64) -> Self;
    fn assign(op: Bi, a: Self, b: Self) -> Self;
}

macro_rules! sc_plain {
    ($t:ty) => {
        impl Sc for $t {
            fn k(c: f64) -> Self {
                c as $t
            }
            fn fl(op: Fl, x: Self, c: f64) -> Self {
                let c = c as $t;
                match op {
                    Fl::Add | Fl::AddA => x + c,
                    Fl::Sub | Fl::SubA => x - c,
                    Fl::Mul | Fl::MulA => x * c,
                    Fl::Div | Fl::DivA => x / c,
                    Fl::RAdd => c + x,
                    Fl::RSub => c - x,
                    Fl::RMul => c * x,
                    Fl::RDiv => c / x,
                }
            }
            fn assign(op: Bi, a: Self, b: Self) -> Self {
                match op {
                    Bi::AddA => a + b,
                    Bi::SubA => a - b,
                    Bi::MulA => a * b,
                    Bi::DivA => a / b,
                    _ => unreachable!(),
                }
            }
        }
    };
}
sc_plain!(f64);
sc_plain!(f32);

macro_rules! sc_ad {
    ($s:ty) => {
        impl Sc for AFloat<$s> {
            fn k(c: f64) -> Self {
                AFloat::new(<$s as Sc>::k(c), <$s as num::Zero>::zero())
            }
            fn fl(op: Fl, x: Self, c: f64) -> Self {
                match op {
                    Fl::Add => x + c,
                    Fl::Sub => x - c,
                    Fl::Mul => x * c,
                    Fl::Div => x / c,
                    Fl::RAdd => c + x,
                    Fl::RSub => c - x,
                    Fl::RMul => c * x,
                    Fl::RDiv => c / x,
                    Fl::AddA => { let mut y = x; y += c; y }
                    Fl::SubA => { let mut y = x; y -= c; y }
                    Fl::MulA => { let mut y = x; y *= c; y }
                    Fl::DivA => { let mut y = x; y /= c; y }
                }
            }
            fn assign(op: Bi, a: Self, b: Self) -> Self {
                let mut y = a;
                match op {
                    Bi::AddA => y += b,
                    Bi::SubA => y -= b,
                    Bi::MulA => y *= b,
                    Bi::DivA => y /= b,
                    _ => unreachable!(),
                }
                y
            }
        }
    };
}
sc_ad!(f64);
sc_ad!(f32);
sc_ad!(AFloat<f64>);

pub fn step<T: Sc>(node: &Node, x: &[T], v: &[T]) -> T {
    match *node {
        In(i) => x[i],
        K(c) => T::k(c),
        U(u, a) => {
            let a = v[a];
            match u {
                Un::Neg => -a,
                Un::Sin => a.sin(),
                Un::Cos => a.cos(),
                Un::Tan => a.tan(),
                Un::Abs => a.abs(),
                Un::Exp => a.exp(),
                Un::Ln => a.ln(),
                Un::Asin => a.asin(),
                Un::Acos => a.acos(),
                Un::Atan => a.atan(),
                Un::Sqrt => a.sqrt(),
                Un::Cbrt => a.cbrt(),
                Un::Exp2 => a.exp2(),
                Un::Log2 => a.log2(),
                Un::Log10 => a.log10(),
                Un::Recip => a.recip(),
                Un::ToDeg => a.to_degrees(),
                Un::ToRad => a.to_radians(),
                Un::SinCos0 => a.sin_cos().0,
                Un::SinCos1 => a.sin_cos().1,
            }
        }
        B(op, a, b) => {
            let (a, b) = (v[a], v[b]);
            match op {
                Bi::Add => a + b,
                Bi::Sub => a - b,
                Bi::Mul => a * b,
                Bi::Div => a / b,
                Bi::Powf => a.powf(b),
                Bi::Log => a.log(b),
                Bi::Max => a.max(b),
                Bi::Min => a.min(b),
                #[allow(deprecated)]
                Bi::AbsSub => a.abs_sub(b),
                Bi::Hypot => a.hypot(b),
                _ => T::assign(op, a, b),
            }
        }
        F(op, a, c) => T::fl(op, v[a], c),
        Powi(a, n) => v[a].powi(n),
        MulAdd(a, b, c) => v[a].mul_add(v[b], v[c]),
    }
}

impl Prog {
    /// values of all nodes
    pub fn run<T: Sc>(&self, x: &[T]) -> Vec<T> {
        assert_eq!(x.len(), self.n);
        let mut v = Vec::with_capacity(self.nodes.len());
        for node in self.nodes.iter() {
            let r = step(node, x, &v);
            v.push(r);
        }
        v
    }
    pub fn eval<T: Sc>(&self, x: &[T]) -> Vec<T> {
        let v = self.run(x);
        self.outs.iter().map(|o| v[*o]).collect()
    }
    /// does the node depend on an input
    pub fn deps(&self) -> Vec<bool> {
        let mut d: Vec<bool> = Vec::with_capacity(self.nodes.len());
        for node in self.nodes.iter() {
            let (a, k) = node.args();
            d.push(matches!(node, In(_)) || a[..k].iter().any(|i| d[*i]));
        }
        d
    }
    pub fn m(&self) -> usize {
        self.outs.len()
    }
    /// drop nodes no output needs (inputs stay)
    pub fn text(&self, x: &[f64]) -> String {
        format!("x={:?} {:?} -> {:?}", x, self.nodes, self.outs)
    }
    pub fn ops_used(&self) -> usize {
        let mut names: Vec<String> = self.nodes.iter().map(|n| n.name()).collect();
        names.sort();
        names.dedup();
        names.len()
    }
}

/// The program as a function of the library's trait
pub struct ProgFn {
    pub p: Prog,
    pub calls: std::sync::atomic::AtomicUsize,
    pub delay: u64,
}
impl ProgFn {
    pub fn new(p: Prog) -> Self {
        ProgFn { p, calls: Default::default(), delay: 0 }
    }
}
impl Clone for ProgFn {
    fn clone(&self) -> Self {
        ProgFn { p: self.p.clone(), calls: Default::default(), delay: self.delay }
    }
}
/// pseudo-random short pause, to shuffle the order in which parallel workers finish
pub fn pause(key: u64) {
    match key % 5 {
        0 => {}
        1 => std::thread::yield_now(),
        2 => std::thread::sleep(std::time::Duration::from_micros(key / 5 % 200)),
        3 => {
            for _ in 0..(key / 5 % 2000) {
                std::hint::spin_loop();
            }
        }
        _ => std::thread::sleep(std::time::Duration::from_micros(key / 5 % 1500)),
    }
}
impl Function for ProgFn {
    fn n(&self) -> usize {
        self.p.n
    }
    fn m(&self) -> usize {
        self.p.outs.len()
    }
    fn eval(&self, x: DVector<AFloat<f64>>) -> DVector<AFloat<f64>> {
        let c = self.calls.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        if self.delay != 0 {
            pause(crate::rng::hash_u64(self.delay, c as u64));
        }
        DVector::from_vec(self.p.eval(x.as_slice()))
    }
}

pub fn ops_of(node: &Node, v: &[f64]) -> [f64; 3] {
    let (a, k) = node.args();
    let mut r = [0.0; 3];
    for i in 0..k {
        r[i] = v[a[i]];
    }
    r
}

/// Is the operation well-conditioned (and differentiable, or piecewise linear) here?
/// `free` tells which operands depend on inputs.
pub fn good(node: &Node, o: [f64; 3], r: f64, free: [bool; 3]) -> bool {
    if !r.is_finite() || r.abs() > 1e4 {
        return false;
    }
    let [a, b, _] = o;
    let dom = match *node {
        In(_) | K(_) => true,
        U(u, _) => match u {
            Un::Tan => a.cos().abs() > 0.05,
            Un::Exp | Un::Exp2 => a.abs() < 9.0,
            Un::Ln | Un::Log2 | Un::Log10 => a > 1e-3,
            Un::Asin | Un::Acos => a.abs() < 0.999,
            Un::Sqrt | Un::Cbrt => a > 1e-4,
            Un::Recip => a.abs() > 1e-3,
            _ => true,
        },
        B(op, _, _) => match op {
            Bi::Div | Bi::DivA => b.abs() > 1e-3,
            Bi::Log => a > 1e-3 && b > 1e-3 && b.ln().abs() > 0.1,
            Bi::Hypot => a.hypot(b) > 1e-3,
            Bi::Powf => {
                if a > 1e-3 {
                    true
                } else if free[1] {
                    false
                } else if a == 0.0 {
                    b >= 0.0 && b == b.round()
                } else {
                    a < -1e-3 && b == b.round() && b.abs() < 1e6
                }
            }
            _ => true,
        },
        F(op, _, c) => match op {
            Fl::Div | Fl::DivA => c.abs() > 1e-3,
            Fl::RDiv => a.abs() > 1e-3,
            _ => true,
        },
        Powi(_, n) => a.abs() > 1e-3 || (a == 0.0 && n >= 0),
        MulAdd(..) => true,
    };
    dom && (node.is_pl() || crate::refs::partials(node, o).iter().all(|p| !(p.abs() > 1e4)))
}

pub const SPECIAL: [f64; 14] = [0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 3.0, -3.0, 0.25, 1.5, -0.0, 10.0, 0.1];

pub fn nice(rng: &mut Rng, special: f64) -> f64 {
    if rng.chance(special) {
        *rng.pick(&SPECIAL)
    } else if rng.chance(0.1) {
        rng.uniform(-50.0, 50.0)
    } else {
        rng.uniform(-3.0, 3.0)
    }
}

#[derive(Clone)]
pub struct Cfg {
    pub n: usize,
    pub ops: usize,
    pub m: usize,
    pub smooth: bool,
    /// only the absolute value as a kink, no max/min/abs_sub
    pub abs_only: bool,
    pub kink_p: f64,
    pub points: usize,
    pub special: f64,
    /// arithmetic only
    pub plain: bool,
}

pub fn pick_arg(rng: &mut Rng, len: usize) -> usize {
    match rng.below(4) {
        0 => rng.below(len),
        1 => len - 1 - rng.below(len.min(3)),
        2 => len - 1 - rng.below(len.min(8)),
        _ => len - 1,
    }
}

fn random_node(rng: &mut Rng, cfg: &Cfg, len: usize) -> Node {
    let a = pick_arg(rng, len);
    let b = if rng.chance(0.15) { a } else { rng.below(len) };
    if !cfg.smooth && rng.chance(cfg.kink_p) {
        return if cfg.abs_only || rng.chance(0.5) {
            U(Un::Abs, a)
        } else {
            B(*rng.pick(&[Bi::Max, Bi::Min, Bi::AbsSub]), a, b)
        };
    }
    loop {
        let nd = match rng.below(if cfg.plain { 12 } else { 20 }) {
            0..=4 => B(*rng.pick(&[Bi::Add, Bi::Sub, Bi::Mul, Bi::Div]), a, b),
            5..=7 => F(*rng.pick(&FLS), a, nice(rng, 0.5)),
            8 => B(*rng.pick(&[Bi::AddA, Bi::SubA, Bi::MulA, Bi::DivA]), a, b),
            9 => K(nice(rng, 0.6)),
            10 => U(Un::Neg, a),
            11 => MulAdd(a, b, rng.below(len)),
            12..=15 => U(*rng.pick(&UNS), a),
            16 => Powi(a, rng.range(0, 10) as i32 - 4),
            17..=18 => B(*rng.pick(&BIS), a, b),
            _ => B(Bi::Powf, a, b),
        };
        if nd.is_pl() {
            continue;
        }
        return nd;
    }
}

pub fn pick_outs(rng: &mut Rng, len: usize, m: usize) -> Vec<usize> {
    let mut outs: Vec<usize> = vec![];
    for _ in 0..m {
        let o = if !outs.is_empty() && rng.chance(0.12) {
            *rng.pick(&outs)
        } else if rng.chance(0.6) {
            len - 1 - rng.below(len.min(m + 2))
        } else {
            rng.below(len)
        };
        outs.push(o);
    }
    outs
}

/// Program well-conditioned at all of the returned points
pub fn gen(rng: &mut Rng, cfg: &Cfg) -> (Prog, Vec<Vec<f64>>) {
    let points: Vec<Vec<f64>> = (0..cfg.points)
        .map(|_| (0..cfg.n).map(|_| nice(rng, cfg.special)).collect())
        .collect();
    let mut nodes: Vec<Node> = (0..cfg.n).map(In).collect();
    let mut free: Vec<bool> = vec![true; cfg.n];
    if nodes.is_empty() {
        nodes.push(K(1.5));
        free.push(false);
    }
    let mut vals: Vec<Vec<f64>> = points
        .iter()
        .map(|x| if cfg.n == 0 { vec![1.5] } else { x.clone() })
        .collect();
    // now and then nothing is computed: arguments handed through
    let ops = if cfg.ops <= 60 && cfg.n > 0 && cfg.m > 0 && rng.chance(0.015) { 0 } else { cfg.ops };
    for _ in 0..ops {
        let len = nodes.len();
        let mut done = false;
        for _ in 0..25 {
            let nd = random_node(rng, cfg, len);
            let (args, k) = nd.args();
            let mut fr = [false; 3];
            for i in 0..k {
                fr[i] = free[args[i]];
            }
            let rs: Vec<f64> = (0..points.len()).map(|p| step(&nd, &points[p], &vals[p])).collect();
            // powers of non-positive bases need exponents that no rounding can touch
            if let B(Bi::Powf, a, b) = nd {
                if !matches!(nodes[b], K(_)) && vals.iter().any(|v| v[a] <= 1e-3) {
                    continue;
                }
            }
            if (0..points.len()).all(|p| good(&nd, ops_of(&nd, &vals[p]), rs[p], fr)) {
                for p in 0..points.len() {
                    vals[p].push(rs[p]);
                }
                nodes.push(nd);
                free.push(fr[..k].iter().any(|x| *x));
                done = true;
                break;
            }
        }
        if !done {
            let a = pick_arg(rng, len);
            let nd = if rng.chance(0.5) { U(Un::Atan, a) } else { U(Un::Sin, a) };
            for p in 0..points.len() {
                let r = step(&nd, &points[p], &vals[p]);
                vals[p].push(r);
            }
            nodes.push(nd);
            free.push(free[a]);
        }
    }
    let outs = pick_outs(rng, nodes.len(), cfg.m);
    (Prog { n: cfg.n, nodes, outs }, points)
}

/// Piecewise-linear program on which every value, coefficient and intermediate sum the library
/// may form is a dyadic rational well within the precision of f64, so that results are exact.
/// `abs_only`: the only kinks are plain absolute values.
pub fn gen_dyadic(rng: &mut Rng, n: usize, ops: usize, m: usize, kink_p: f64, abs_only: bool) -> Prog {
    gen_dyadic_at(rng, &vec![(-3, 8.0); n], ops, m, kink_p, abs_only, -11, 2048.0).0
}

/// The same piecewise-linear program in another unit: every constant that is not a factor scaled
pub fn in_unit(mut p: Prog, u: f64) -> Prog {
    for nd in p.nodes.iter_mut() {
        match nd {
            K(c) => *c *= u,
            F(Fl::Add | Fl::Sub | Fl::RAdd | Fl::RSub | Fl::AddA | Fl::SubA, _, c) => *c *= u,
            _ => {}
        }
    }
    p
}
pub fn times(x: Vec<f64>, u: f64) -> Vec<f64> {
    x.into_iter().map(|v| v * u).collect()
}
/// mostly one, else a power of two far from it: exact arithmetic stays exact in it
pub fn unit(rng: &mut Rng) -> f64 {
    if rng.chance(0.7) {
        return 1.0;
    }
    2f64.powi(*rng.pick(&[-30, -52, -60, -70, -200, -1000, -1020, 60, 200, 900])) * if rng.chance(0.1) { 2f64.powi(-20) } else { 1.0 }
}

/// `inputs`: granularity exponent and magnitude bound of each input; also returns those of the results
pub fn gen_dyadic_at(rng: &mut Rng, inputs: &[(i32, f64)], ops: usize, m: usize, kink_p: f64, abs_only: bool, gcap: i32, mcap: f64) -> (Prog, Vec<(i32, f64)>) {
    let n = inputs.len();
    let mut nodes: Vec<Node> = (0..n).map(In).collect();
    let mut g: Vec<i32> = inputs.iter().map(|i| i.0).collect();
    let mut mag: Vec<f64> = inputs.iter().map(|i| i.1).collect();
    if n == 0 {
        nodes.push(K(1.0));
        g.push(0);
        mag.push(1.0);
    }
    let dy = |rng: &mut Rng| (rng.range(0, 32) as f64 - 16.0) / 8.0;
    for _ in 0..ops {
        for _ in 0..30 {
            let len = nodes.len();
            let a = pick_arg(rng, len);
            let b = if rng.chance(0.1) { a } else { rng.below(len) };
            let kink = rng.chance(kink_p);
            let (nd, gg, mm) = if kink {
                if abs_only || rng.chance(0.4) {
                    (U(Un::Abs, a), g[a], mag[a])
                } else {
                    let op = *rng.pick(&[Bi::Max, Bi::Min, Bi::AbsSub]);
                    (B(op, a, b), g[a].min(g[b]) - 1, mag[a] + mag[b])
                }
            } else {
                match rng.below(9) {
                    0 | 1 => (B(*rng.pick(&[Bi::Add, Bi::AddA]), a, b), g[a].min(g[b]), mag[a] + mag[b]),
                    2 | 3 => (B(*rng.pick(&[Bi::Sub, Bi::SubA]), a, b), g[a].min(g[b]), mag[a] + mag[b]),
                    4 => (U(Un::Neg, a), g[a], mag[a]),
                    5 => {
                        let c = dy(rng);
                        (F(*rng.pick(&[Fl::Add, Fl::Sub, Fl::RAdd, Fl::RSub, Fl::AddA, Fl::SubA]), a, c), g[a].min(-3), mag[a] + 2.0)
                    }
                    6 => {
                        let c = *rng.pick(&[0.5, -0.5, 2.0, -1.0, 1.0, -2.0, 0.0]);
                        (F(*rng.pick(&[Fl::Mul, Fl::RMul, Fl::MulA]), a, c), g[a] - (c.abs() == 0.5) as i32, mag[a] * f64::max(1.0, c.abs()))
                    }
                    7 => {
                        let c = *rng.pick(&[0.5, 2.0, -1.0, -2.0]);
                        (F(*rng.pick(&[Fl::Div, Fl::DivA]), a, c), g[a] - (c.abs() == 2.0) as i32, mag[a] * if c == 0.5 { 2.0 } else { 1.0 })
                    }
                    _ => (K(dy(rng)), -3, 2.0),
                }
            };
            if gg >= gcap && mm <= mcap {
                nodes.push(nd);
                g.push(gg);
                mag.push(mm);
                break;
            }
        }
    }
    let mut outs = pick_outs(rng, nodes.len(), m);
    // results that grew are clamped, by kinks of their own
    let mut info = vec![];
    for o in outs.iter_mut() {
        if mag[*o] > mcap / 8.0 && !abs_only {
            let c = nodes.len();
            let (v, gv) = (*o, g[*o]);
            nodes.extend([K(-8.0), B(Bi::Max, v, c), K(8.0), B(Bi::Min, c + 1, c + 2)]);
            g.extend([-3, gv.min(-3), -3, gv.min(-3)]);
            mag.extend([8.0, mcap, 8.0, 8.0]);
            *o = c + 3;
        }
        info.push((g[*o], mag[*o]));
    }
    (Prog { n, nodes, outs }, info)
}

/// absolute values nested to a depth random programs do not reach; exact on dyadic inputs
pub fn tower(rng: &mut Rng, n: usize, depth: usize, smooth: bool) -> Prog {
    let mut nodes: Vec<Node> = (0..n).map(In).collect();
    let mut heads: Vec<usize> = (0..rng.range(1, 3).min(n)).map(|_| rng.below(n)).collect();
    let two = heads.len();
    let dy = |rng: &mut Rng| (rng.range(0, 48) as f64 - 24.0) / 8.0;
    let mut outs = vec![];
    for d in 0..depth {
        let h = rng.below(two);
        let v = heads[h];
        let k = nodes.len();
        match rng.below(8) {
            0 => nodes.push(B(Bi::Sub, v, rng.below(n))),
            1 => nodes.push(F(Fl::RSub, v, dy(rng))),
            2 => nodes.push(F(Fl::Add, v, dy(rng))),
            3 if smooth => {
                nodes.push(F(Fl::Mul, v, rng.uniform(0.9, 1.0)));
                nodes.push(F(Fl::Sub, k, rng.uniform(-1.0, 2.0)));
            }
            4 if smooth => {
                nodes.push(U(Un::Sin, v));
                nodes.push(F(Fl::Sub, k, rng.uniform(-0.7, 0.7)));
            }
            _ => nodes.push(F(Fl::Sub, v, dy(rng))),
        }
        let k = nodes.len();
        if smooth && rng.chance(0.1) {
            nodes.push(K(dy(rng)));
            nodes.push(B(*rng.pick(&[Bi::Max, Bi::Min]), k - 1, k));
        } else {
            nodes.push(U(Un::Abs, k - 1));
        }
        heads[h] = nodes.len() - 1;
        if rng.chance(1.0 / (1.0 + d as f64)) {
            outs.push(heads[h]);
        }
    }
    if two > 1 {
        nodes.push(B(*rng.pick(&[Bi::Add, Bi::Sub]), heads[0], heads[1]));
        outs.push(nodes.len() - 1);
    }
    outs.extend(heads);
    Prog { n, nodes, outs }
}

pub fn dyadic_vec(rng: &mut Rng, n: usize, zero_p: f64) -> Vec<f64> {
    (0..n)
        .map(|_| if rng.chance(zero_p) { 0.0 } else { (rng.range(0, 64) as f64 - 32.0) / 8.0 })
        .collect()
}
