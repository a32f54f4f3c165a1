use crate::rng::Rng;
use crate::{bare, Made};
use advantage::prelude::*;
use advantage::{AFloat, DVector, Function};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

adv_fn! {
    fn plain(x: [[4]]) -> [[2]] {
        let mut y = DVector::<Scalar>::zeros(2);
        y[0] = x[0] * x[1] - x[2] / 4.0;
        y[1] = x[3] + x[0];
        y
    }
}

adv_fn! {
    /// with documentation,
    /// in two lines
    #[allow(dead_code)]
    #[inline(never)]
    pub fn attributes(x: [[2]],) -> [[2]] {
        adv_dvec!(x[1], x[0],)
    }
}

adv_fn! {
    fn destructured([[a, b, c, d, e]]) -> [[5]] {
        adv_dvec!(a, b * 2.0, c * 3.0, d * 4.0, e * 5.0)
    }
}

adv_fn! {
    #[allow(clippy::many_single_char_names)]
    /// documented
    pub(crate) fn destructured_extra([[a, b]], shift: f64, times: usize,) -> [[times + 1]] {
        let mut y = DVector::from_element(times + 1, a);
        y[times] = b - shift;
        y
    }
}

adv_fn! {
    fn nothing([[]]) -> [[1]] {
        adv_dvec!(<Scalar as From<f64>>::from(2.5))
    }
}

adv_fn! {
    fn nowhere(x: [[3]]) -> [[0]] {
        let _ = x[0];
        DVector::<Scalar>::zeros(0)
    }
}

adv_fn! {
    fn expressions(x: [[rows * cols]], rows: usize, cols: usize) -> [[if rows > cols { rows } else { cols }]] {
        let m = if rows > cols { rows } else { cols };
        let mut y = DVector::<Scalar>::zeros(m);
        for i in 0..rows * cols {
            y[i % m] += x[i] * (i as f64 + 1.0);
        }
        y
    }
}

adv_fn! {
    fn from_vec(x: [[w.len()]], w: Vec<f64>) -> [[1]] {
        let mut s = <Scalar as From<f64>>::from(0.0);
        for i in 0..w.len() {
            s += x[i] * w[i];
        }
        adv_dvec!(s)
    }
}

adv_fn! {
    fn many_kinds(x: [[1]], name: String, flag: bool, map: Arc<BTreeMap<i32, f64>>, pair: (i8, f64), fixed: &'static str, op: fn(f64) -> f64) -> [[3]] {
        let k = name.len() as f64 + if flag { 100.0 } else { 0.0 };
        let s: f64 = map.iter().map(|(k, v)| *k as f64 * *v).sum();
        adv_dvec!(x[0] * k, x[0] + s, x[0] * (pair.0 as f64) + pair.1 + fixed.len() as f64 + op(2.0))
    }
}

adv_fn! {
    fn calls_others(x: [[4]], c: f64) -> [[3]] {
        let y = plain(x.clone());
        let z = destructured_extra(adv_dvec!(y[0], y[1]), c, 1);
        adv_dvec!(z[0], z[1], x[3] * c)
    }
}

adv_fn! {
    fn consumes(input: [[3]], factor: f64) -> [[3]] {
        let mut output = input;
        for i in 0..3 {
            output[i] *= factor;
            output[i] -= 1.0;
        }
        output
    }
}

adv_fn! {
    fn early(x: [[2]], c: f64) -> [[1]] {
        let s = if x[0] > x[1] { x[0] - x[1] * c } else { x[1].abs() + 1.0 / (x[0] * x[0] + 1.0) };
        let f = |v: Scalar| v * c + 0.5;
        adv_dvec!(f(s))
    }
}

mod inner {
    use advantage::prelude::*;
    adv_fn! {
        pub fn imported(x: [[2]], c: f64) -> [[2]] {
            adv_dvec!(x[0].max(x[1]) * c, x[0].min(x[1]))
        }
    }
}
use inner::*;

adv_fn! {
    fn promises(x: [[2]], m: usize, d: usize) -> [[m]] {
        DVector::from_element(d, x[0] + x[1])
    }
}
pub fn liar(m: usize, d: usize) -> Box<dyn Function> {
    Box::new(adv_fn_obj!(promises, m, d))
}
pub fn liar_float(x: DVector<f64>, m: usize, d: usize) -> DVector<f64> {
    promises(x, m, d)
}

adv_fn! {
    fn spied(x: [[1]], tag: u64, seen: Arc<Mutex<Vec<u64>>>) -> [[1]] {
        seen.lock().unwrap().push(tag);
        x
    }
}
pub fn spy(tag: u64, seen: Arc<Mutex<Vec<u64>>>) -> Box<dyn Function> {
    Box::new(adv_fn_obj!(spied, tag, seen))
}

pub const KINDS: usize = 19;

type V = DVector<f64>;

macro_rules! made {
    ($name:expr, $n:expr, $m:expr, $obj:expr, $extra:expr, |$x:ident| $call:expr, |$w:ident| $want:expr) => {
        Made {
            name: $name,
            n: $n,
            m: $m,
            obj: Box::new($obj),
            extra: $extra,
            float: Box::new(move |$x: V| $call),
            ad: Box::new(move |$x: DVector<AFloat<f64>>| $call),
            want: Box::new(move |$w: V| DVector::from_vec($want)),
        }
    };
}

pub fn make(k: usize, rng: &mut Rng) -> Made {
    let c = rng.uniform(-2.0, 2.0);
    let e = format!("{}", c);
    match k {
        0 => made!("plain", 4, 2, adv_fn_obj!(plain), String::new(), |x| plain(x), |x| vec![x[0] * x[1] - x[2] / 4.0, x[3] + x[0]]),
        1 => made!("attributes", 2, 2, adv_fn_obj!(attributes), String::new(), |x| attributes(x), |x| vec![x[1], x[0]]),
        2 => made!("destructured", 5, 5, adv_fn_obj!(destructured), String::new(), |x| destructured(x), |x| vec![x[0], x[1] * 2.0, x[2] * 3.0, x[3] * 4.0, x[4] * 5.0]),
        3 => {
            let t = rng.range(0, 6);
            made!("destructured_extra", 2, t + 1, adv_fn_obj!(destructured_extra, c, t), format!("{}, {}", c, t), |x| destructured_extra(x, c, t), |x| {
                let mut y = vec![x[0]; t + 1];
                y[t] = x[1] - c;
                y
            })
        }
        4 => made!("nothing", 0, 1, adv_fn_obj!(nothing), String::new(), |x| nothing(x), |_x| vec![2.5]),
        5 => made!("nowhere", 3, 0, adv_fn_obj!(nowhere), String::new(), |x| nowhere(x), |_x| vec![]),
        6 => {
            let (r, q) = (rng.range(1, 5), rng.range(1, 5));
            let m = r.max(q);
            made!("expressions", r * q, m, adv_fn_obj!(expressions, r, q), format!("{}, {}", r, q), |x| expressions(x, r, q), |x| {
                let mut y = vec![0.0; m];
                for i in 0..x.len() {
                    y[i % m] += x[i] * (i as f64 + 1.0);
                }
                y
            })
        }
        7 => {
            let w: Vec<f64> = (0..rng.range(0, 7)).map(|_| rng.uniform(-1.0, 1.0)).collect();
            let (w1, w2, w3) = (w.clone(), w.clone(), w.clone());
            Made {
                name: "from_vec",
                n: w.len(),
                m: 1,
                extra: format!("{:?}", w),
                obj: Box::new(adv_fn_obj!(from_vec, w)),
                float: Box::new(move |x| from_vec(x, w1.clone())),
                ad: Box::new(move |x| from_vec(x, w2.clone())),
                want: Box::new(move |x| DVector::from_vec(vec![x.iter().zip(&w3).map(|(a, b)| a * b).sum()])),
            }
        }
        8 => {
            let name: String = "x".repeat(rng.below(9));
            let flag = rng.chance(0.5);
            let map: Arc<BTreeMap<i32, f64>> = Arc::new((0..rng.range(0, 4)).map(|i| (i as i32 + 1, rng.uniform(-1.0, 1.0))).collect());
            let pair = (rng.range(0, 100) as i8 - 50, c);
            let fixed: &'static str = rng.pick(&["", "ab", "abcde"]);
            let op: fn(f64) -> f64 = *rng.pick(&[f64::sqrt as fn(f64) -> f64, f64::exp]);
            let (n1, n2, n3) = (name.clone(), name.clone(), name.clone());
            let (m1, m2, m3) = (map.clone(), map.clone(), map.clone());
            Made {
                name: "many_kinds",
                n: 1,
                m: 3,
                extra: format!("{:?} {} {:?} {:?} {:?}", name, flag, map, pair, fixed),
                obj: Box::new(adv_fn_obj!(many_kinds, name, flag, map, pair, fixed, op)),
                float: Box::new(move |x| many_kinds(x, n1.clone(), flag, m1.clone(), pair, fixed, op)),
                ad: Box::new(move |x| many_kinds(x, n2.clone(), flag, m2.clone(), pair, fixed, op)),
                want: Box::new(move |x| {
                    let k = n3.len() as f64 + if flag { 100.0 } else { 0.0 };
                    let s: f64 = m3.iter().map(|(k, v)| *k as f64 * *v).sum();
                    DVector::from_vec(vec![x[0] * k, x[0] + s, x[0] * (pair.0 as f64) + pair.1 + fixed.len() as f64 + op(2.0)])
                }),
            }
        }
        9 => made!("calls_others", 4, 3, adv_fn_obj!(calls_others, c), e, |x| calls_others(x, c), |x| vec![x[0] * x[1] - x[2] / 4.0, x[3] + x[0] - c, x[3] * c]),
        10 => made!("consumes", 3, 3, adv_fn_obj!(consumes, c), e, |x| consumes(x, c), |x| x.iter().map(|v| v * c - 1.0).collect()),
        11 => made!("early", 2, 1, adv_fn_obj!(early, c), e, |x| early(x, c), |x| {
            let s = if x[0] > x[1] { x[0] - x[1] * c } else { x[1].abs() + 1.0 / (x[0] * x[0] + 1.0) };
            vec![s * c + 0.5]
        }),
        12 => made!("imported", 2, 2, adv_fn_obj!(imported, c), e, |x| imported(x, c), |x| vec![x[0].max(x[1]) * c, x[0].min(x[1])]),
        13 => {
            // declared inside a function
            adv_fn! {
                fn local([[p, q, r]], k: f64) -> [[2]] {
                    adv_dvec!(p * q, r - k)
                }
            }
            made!("local", 3, 2, adv_fn_obj!(local, c), e, |x| local(x, c), |x| vec![x[0] * x[1], x[2] - c])
        }
        14..=16 => {
            let [a, b, d] = bare::objects(c);
            match k {
                14 => Made { name: "bare_vec", n: 3, m: 2, obj: a, extra: String::new(), float: Box::new(|x| bare::bare_vec(x)), ad: Box::new(|x| bare::bare_vec(x)), want: Box::new(|x| DVector::from_vec(vec![x[0] * x[1] + x[2], x[1] - x[2] * 2.0])) },
                15 => Made { name: "bare_named", n: 2, m: 3, obj: b, extra: e, float: Box::new(move |x| bare::bare_named(x, c)), ad: Box::new(move |x| bare::bare_named(x, c)), want: Box::new(move |x| DVector::from_vec(vec![x[0] - x[1], x[1] * c, x[0] / 2.0])) },
                _ => Made { name: "bare_attr", n: 1, m: 1, obj: d, extra: String::new(), float: Box::new(|x| bare::bare_attr(x)), ad: Box::new(|x| bare::bare_attr(x)), want: Box::new(|x| DVector::from_vec(vec![2.0 * x[0]])) },
            }
        }
        17 => {
            let t = rng.range(0, 5);
            Made {
                name: "deep",
                n: t + 1,
                m: t * 2,
                obj: bare::deeper::deep_obj(t),
                extra: format!("{}", t),
                float: Box::new(move |x| bare::deeper::deep(x, t)),
                ad: Box::new(move |x| bare::deeper::deep(x, t)),
                want: Box::new(move |x| DVector::from_fn(t * 2, |i, _| x[i / 2] + x[i / 2 + 1] * (i as f64))),
            }
        }
        _ => {
            // many arguments, so that any confusion of order shows
            adv_fn! {
                fn wide([[a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11]], k: f64, j: usize) -> [[12 + j * 0]] {
                    adv_dvec!(a11, a10, a9, a8, a7, a6, a5, a4, a3, a2, a1 * k, a0 * (j as f64))
                }
            }
            let j = rng.below(5);
            made!("wide", 12, 12, adv_fn_obj!(wide, c, j), format!("{} {}", c, j), |x| wide(x, c, j), |x| {
                let mut y: Vec<f64> = x.iter().rev().copied().collect();
                y[10] *= c;
                y[11] *= j as f64;
                y
            })
        }
    }
}
