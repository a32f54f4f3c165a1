//! Function objects: P19. Every way of declaring a function, in one crate of its own so that a
//! declaration that no longer compiles is told apart from everything else.
#[macro_use]
#[path = "../../mon/src/report.rs"]
#[allow(dead_code)]
mod report;
#[path = "../../mon/src/cli.rs"]
#[allow(dead_code)]
mod cli;
#[path = "../../mon/src/rng.rs"]
#[allow(dead_code)]
mod rng;
mod defs;
mod bare;
use advantage::{AFloat, DVector, Function};
use report::*;
use rng::Rng;

type AD = AFloat<f64>;
type OnFloats = Box<dyn Fn(DVector<f64>) -> DVector<f64> + Send + Sync>;
type OnAd = Box<dyn Fn(DVector<AD>) -> DVector<AD> + Send + Sync>;

pub struct Made {
    pub name: &'static str,
    pub n: usize,
    pub m: usize,
    pub obj: Box<dyn Function>,
    pub float: OnFloats,
    pub ad: OnAd,
    /// independent account of the value
    pub want: OnFloats,
    pub extra: String,
}

fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
fn near(a: &DVector<f64>, b: &DVector<f64>) -> bool {
    a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| same(*x, *y) || (x - y).abs() <= 1e-10 * (1.0 + x.abs().max(y.abs())))
}

const ODD: [f64; 10] = [0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e300, -1e300, 1e-310, 1.0, -1.0];

fn point(rng: &mut Rng, n: usize) -> DVector<f64> {
    DVector::from_fn(n, |_, _| if rng.chance(0.2) { *rng.pick(&[0.0, 1.0, -1.0, 0.5, -2.0]) } else { rng.uniform(-3.0, 3.0) })
}

fn check(mk: &Made, rng: &mut Rng, obs: &mut Obs) -> Res {
    let sig = |s: &str| format!("fn:{}", s);
    let o = &*mk.obj;
    let name = mk.name;
    ensure!(o.n() == mk.n && o.m() == mk.m, sig("dims"), "{}({}): dimensions {} and {} instead of {} and {}", name, mk.extra, o.n(), o.m(), mk.n, mk.m);
    ensure!(o.chain().is_none(), sig("chain"), "{}: a plain function object is a chain", name);
    for round in 0..3 {
        let x = point(rng, mk.n);
        let want = (mk.want)(x.clone());
        let f = lib("generic function on floats", || (mk.float)(x.clone()))?;
        ensure!(near(&f, &want), sig("value"), "{}({}) on floats at {:?} gives {:?} instead of {:?}", name, mk.extra, x.as_slice(), f.as_slice(), want.as_slice());
        let e = lib("eval_float", || o.eval_float(x.clone()))?;
        ensure!(near(&e, &f), sig("eval_float"), "{}({}) as an object at {:?} gives {:?}, the generic function {:?} (call {})", name, mk.extra, x.as_slice(), e.as_slice(), f.as_slice(), round);
        let xd = DVector::from_fn(mk.n, |i, _| AD::new(x[i], rng.uniform(-1.0, 1.0)));
        let a = lib("eval", || o.eval(xd.clone()))?;
        let b = lib("generic function on AD scalars", || (mk.ad)(xd.clone()))?;
        ensure!(a.len() == b.len() && a.iter().zip(b.iter()).all(|(p, q)| same(p.value(), q.value()) && same(p.dvalue(), q.dvalue())), sig("eval"), "{}({}) as an object at {:?} gives {:?}, the generic function {:?}", name, mk.extra, x.as_slice(), a.as_slice(), b.as_slice());
        let t = lib("tape", || o.tape(&x))?;
        ensure!(t.num_indeps() == mk.n && t.num_deps() == mk.m, sig("tape"), "tape of {}({}) has {} arguments and {} results", name, mk.extra, t.num_indeps(), t.num_deps());
        ensure!(t.x().iter().zip(x.iter()).all(|(p, q)| same(*p, *q)), sig("tape:x"), "tape of {} stores the point {:?} instead of {:?}", name, t.x().as_slice(), x.as_slice());
        ensure!(near(&t.y(), &want), sig("tape:y"), "tape of {}({}) stores {:?} instead of {:?}", name, mk.extra, t.y().as_slice(), want.as_slice());
        obs.add("evaluations compared", 4);
    }
    // a tape may be asked for anywhere: where the function or its derivative has no value, far away
    for _ in 0..2 {
        let x = DVector::from_fn(mk.n, |_, _| if rng.chance(0.6) { *rng.pick(&ODD) } else { rng.uniform(-3.0, 3.0) });
        let y = lib("eval", || o.eval(x.map(AD::from)))?;
        let t = lib("tape", || o.tape(&x))?;
        ensure!(t.num_indeps() == mk.n && t.num_deps() == mk.m, sig("tape"), "tape of {}({}) at {:?} has {} arguments and {} results", name, mk.extra, x.as_slice(), t.num_indeps(), t.num_deps());
        ensure!(t.x().iter().zip(x.iter()).all(|(p, q)| same(*p, *q)), sig("tape:x"), "tape of {} stores the point {:?} instead of {:?}", name, t.x().as_slice(), x.as_slice());
        ensure!(t.y().iter().zip(y.iter()).all(|(p, q)| same(*p, q.value())), sig("tape:y"), "tape of {}({}) at {:?} stores {:?} instead of {:?}", name, mk.extra, x.as_slice(), t.y().as_slice(), y.as_slice());
        let f = lib("eval_float", || o.eval_float(x.clone()))?;
        ensure!(f.len() == y.len() && f.iter().zip(y.iter()).all(|(p, q)| same(*p, q.value())), sig("eval_float"), "{}({}) at {:?} gives {:?} on floats and {:?} on AD scalars", name, mk.extra, x.as_slice(), f.as_slice(), y.as_slice());
        obs.add("tapes at odd points", 1);
    }
    // wrong dimensions
    for bad in [mk.n + 1, mk.n.wrapping_sub(1), 2 * mk.n + 3] {
        if bad > 1 << 20 {
            continue;
        }
        let x = point(rng, bad);
        match rng.below(4) {
            0 => refused("eval with the wrong dimension", || o.eval(x.map(AD::from)))?,
            1 => refused("eval_float with the wrong dimension", || o.eval_float(x.clone()))?,
            2 => refused("tape with the wrong dimension", || o.tape(&x))?,
            _ => refused("call with the wrong dimension", || (mk.float)(x.clone()))?,
        };
        obs.add("wrong dimensions refused", 1);
    }
    // and goes on working, from several threads
    if rng.chance(0.3) {
        let xs: Vec<DVector<f64>> = (0..4).map(|_| point(rng, mk.n)).collect();
        let ok: Vec<Result<bool, Fail>> = std::thread::scope(|s| {
            let hs: Vec<_> = xs
                .iter()
                .map(|x| {
                    s.spawn(move || {
                        let mut ok = true;
                        for _ in 0..3 {
                            let y = lib("eval_float", || o.eval_float(x.clone()))?;
                            ok &= near(&y, &(mk.want)(x.clone()));
                            let t = lib("tape", || o.tape(x))?;
                            ok &= near(&t.y(), &(mk.want)(x.clone()));
                        }
                        Ok(ok)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for r in ok {
            ensure!(r?, sig("threads"), "{}({}) gives other values when called from several threads", name, mk.extra);
        }
        obs.add("objects called from four threads at once", 1);
    }
    Ok(())
}

fn p19(run: &Run) -> i32 {
    let n = run.pick(20_000, 500_000);
    let kinds = defs::KINDS;
    run.cases(0, n, 8, |case, rng, obs| {
        let k = case as usize % (kinds + 2);
        if k < kinds {
            let mk = lib("make", || defs::make(k, rng))?;
            obs.mark(&format!("{}({})", mk.name, mk.extra));
            obs.fingerprint = rng::hash_u64(obs.fingerprint, case / (kinds as u64 + 2));
            return check(&mk, rng, obs);
        }
        if k == kinds {
            // a result of the wrong dimension
            let (m, d) = (rng.range(1, 6), rng.range(0, 7));
            obs.mark(&format!("{} results promised, {} given", m, d));
            let o = defs::liar(m, d);
            ensure!(o.n() == 2 && o.m() == m, "fn:dims", "dimensions {} and {} instead of 2 and {}", o.n(), o.m(), m);
            let x = point(rng, 2);
            if m == d {
                let y = lib("eval_float", || o.eval_float(x.clone()))?;
                ensure!(y.len() == m, "fn:result", "{} results instead of {}", y.len(), m);
            } else {
                refused("a result of the wrong dimension (floats)", || o.eval_float(x.clone()))?;
                refused("a result of the wrong dimension (AD scalars)", || o.eval(x.map(AD::from)))?;
                refused("a result of the wrong dimension (tape)", || o.tape(&x))?;
                refused("a result of the wrong dimension (call)", || defs::liar_float(x.clone(), m, d))?;
                obs.add("wrong results refused", 4);
            }
            return Ok(());
        }
        // extra arguments arrive on every call as they were given
        let (tag, calls) = (rng.u64(), rng.range(1, 6));
        obs.mark(&format!("extra argument {} seen by {} calls", tag, calls));
        let seen = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
        let o = defs::spy(tag, seen.clone());
        for _ in 0..calls {
            lib("eval_float", || o.eval_float(DVector::from_vec(vec![1.0])))?;
        }
        let got = seen.lock().unwrap().clone();
        ensure!(got == vec![tag; calls], "fn:extra", "extra argument {} arrived as {:?}", tag, got);
        obs.add("extra arguments traced", calls as u64);
        Ok(())
    });
    run.finish("function objects declared in every supported form (attributes, doc comments, visibility, inside functions and modules, nothing imported, destructured arguments, extra arguments of many types, dimensions as expressions) with random extra arguments; dimensions, values on floats and AD scalars, tapes, wrong arguments and results, repeated and concurrent calls, against the generic function and an independent account. Distinct: declaration form, extra arguments and points")
}

fn main() {
    cli::main(&[("P19", p19)])
}
