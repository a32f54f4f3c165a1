//! conc SCENARIO SEED ROUNDS SIZE: run one workload under whatever instruments this build.
#[path = "../../mon/src/rng.rs"]
#[allow(dead_code)]
mod rng;
mod scen;
use rng::{hash_bytes, hash_u64, Rng};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (seed, rounds, size): (u64, u64, usize) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
    let calm = a.get(5).is_some_and(|s| s == "calm");
    let mut counts = std::collections::BTreeMap::new();
    let mut orders = std::collections::HashSet::new();
    for r in 0..rounds {
        let mut g = Rng::new(hash_u64(hash_u64(hash_bytes(a[1].as_bytes()), seed), r));
        let e = match a[1].as_str() {
            "isolated" => scen::isolated(&mut g, size, calm),
            "crowd" => scen::crowd(&mut g, size, calm),
            "standing" => scen::standing(&mut g, size, calm),
            "drop" => scen::drop_race(&mut g, size, calm),
            "shared" => scen::shared(&mut g, size, calm),
            "readers" => scen::readers(&mut g, size, calm),
            "drivers" => drivers(&mut g),
            s => panic!("no scenario {}", s),
        };
        match e {
            Ok(e) => {
                orders.insert(e.order);
                for (k, v) in e.counts {
                    *counts.entry(k).or_insert(0u64) += v;
                }
            }
            Err((sig, text)) => {
                println!("FAIL [{}] round {}: {}", sig, r, text);
                std::process::exit(1);
            }
        }
    }
    println!("DONE rounds={} orders={} {:?}", rounds, orders.len(), counts);
}

/// Parallel drivers, several at once
fn drivers(g: &mut Rng) -> Result<scen::Events, scen::Bad> {
    use advantage::prelude::*;
    use advantage::{adv_fn, DMatrix, DVector};
    adv_fn! {
        fn f(x: [[6]], c: f64) -> [[5]] {
            let mut y = DVector::<Scalar>::zeros(5);
            for i in 0..5 {
                y[i] = x[i] * x[i + 1] + (x[i] * c).sin();
            }
            y
        }
    }
    adv_fn! {
        fn h(x: [[4]], c: f64) -> [[3]] {
            let mut y = DVector::<Scalar>::zeros(3);
            for i in 0..3 {
                y[i] = (x[i] - x[i + 1] * c).abs() + (x[i].abs() + c).abs();
            }
            y
        }
    }
    let c = g.uniform(0.5, 2.0);
    let x = DVector::from_fn(6, |_, _| g.uniform(-1.0, 1.0));
    let x4 = DVector::from_fn(4, |_, _| g.uniform(-1.0, 1.0));
    let o = advantage::adv_fn_obj!(f, c);
    let o2 = advantage::adv_fn_obj!(h, c);
    let want = DMatrix::from_fn(5, 6, |i, j| {
        if j == i {
            x[i + 1] + (x[i] * c).cos() * c
        } else if j == i + 1 {
            x[i]
        } else {
            0.0
        }
    });
    let tape = o.tape(&x);
    let errs: Vec<Option<String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..3).map(|k| {
            let (o, o2, x, x4, tape, want) = (&o, &o2, &x, &x4, &tape, &want);
            s.spawn(move || {
                let j = if k == 1 { advantage::drivers::jacobian_reverse(&**tape) } else { advantage::drivers::jacobian_forward(o, x) };
                let a = advantage::drivers::abs_normal(o2, x4);
                let a2 = advantage::drivers::abs_normal(o2, x4);
                if (&j - want).amax() > 1e-9 {
                    return Some(format!("Jacobian {} is off by {:e}", k, (&j - want).amax()));
                }
                if format!("{:?}", a) != format!("{:?}", a2) {
                    return Some("abs-normal form differs between two calls".to_string());
                }
                None
            })
        }).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Some("panic".into()))).collect()
    });
    if let Some(e) = errs.into_iter().flatten().next() {
        return Err(("drivers".into(), e));
    }
    let mut e = scen::Events { order: g.u64(), ..Default::default() };
    e.add("parallel driver calls", 9);
    Ok(e)
}
