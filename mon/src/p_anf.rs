//! P12 abs-normal form, P13 its implicit matrices, P14 generalized Jacobians, P15 chains of them.
use crate::prog::*;
use crate::refs::{self, close};
use crate::report::*;
use crate::rng::Rng;
use crate::util::*;
use advantage::drivers::*;
use advantage::{DMatrix, DVector, Function, FunctionChain};
use Node::*;

const REL: f64 = 1e-9;

/// shapes: few and many switching variables against few and many arguments and results
fn smooth_kinks(rng: &mut Rng, max_ops: usize) -> (Prog, Vec<Vec<f64>>) {
    if rng.chance(0.04) {
        let (n, depth) = (rng.range(1, 4), rng.range(10, max_ops));
        let pts = (0..2).map(|_| (0..n).map(|_| nice(rng, 0.2)).collect()).collect();
        return (tower(rng, n, depth, true), pts);
    }
    let (n, ops, m, kink) = match rng.below(12) {
        0 => (rng.range(1, 3), rng.range(20, max_ops), rng.range(1, 2), 0.6),
        1 => (rng.range(8, 20), rng.range(10, 40), rng.range(1, 3), 0.1),
        2 => (rng.range(1, 3), rng.range(10, 40), rng.range(8, 20), 0.2),
        3 => (rng.range(1, 4), rng.range(3, 20), rng.range(1, 4), 0.0),
        4 => (rng.range(1, 4), rng.range(3, 20), 0, 0.3),
        5 => (0, rng.range(1, 4), rng.range(1, 2), 0.3),
        6 => (rng.range(20, 70), rng.range(30, 120), rng.range(20, 70), 0.4),
        _ => (rng.range(1, 5), rng.range(3, 40), rng.range(1, 5), 0.3),
    };
    let cfg = Cfg { n, ops, m, smooth: kink == 0.0, abs_only: rng.chance(0.6), kink_p: kink, points: 2, special: 0.3, plain: rng.chance(0.3) };
    gen(rng, &cfg)
}
/// hundreds of switching variables, arguments and results
fn large_kinks(case: u64, rng: &mut Rng) -> (Prog, Vec<Vec<f64>>) {
    let (n, ops, m, kink) = match (case - LARGE) / 2 % 5 {
        0 => (rng.range(1, 4), rng.range(700, 1200), rng.range(1, 3), 0.7),
        1 => (rng.range(257, 400), rng.range(200, 500), rng.range(1, 3), 0.3),
        2 => (rng.range(1, 4), rng.range(200, 500), rng.range(257, 400), 0.3),
        3 => (rng.range(260, 300), rng.range(600, 800), rng.range(260, 300), 0.5),
        _ => {
            let (n, depth) = (rng.range(1, 4), rng.range(270, 400));
            let pts = (0..2).map(|_| (0..n).map(|_| nice(rng, 0.2)).collect()).collect();
            return (tower(rng, n, depth, true), pts);
        }
    };
    let cfg = Cfg { n, ops, m, smooth: false, abs_only: rng.chance(0.6), kink_p: kink, points: 2, special: 0.3, plain: rng.chance(0.3) };
    gen(rng, &cfg)
}
/// hundreds of absolute values on exact arithmetic
fn large_dyadic(rng: &mut Rng, n: usize) -> Prog {
    if rng.chance(0.3) {
        let depth = rng.range(257, 400);
        return tower(rng, n, depth, false);
    }
    let (ops, m, kink) = (rng.range(600, 1600), rng.range(1, 9), *rng.pick(&[0.4, 0.7]));
    let abs_only = rng.chance(0.5);
    gen_dyadic(rng, n, ops, m, kink, abs_only)
}
fn dyadic_prog(rng: &mut Rng, n: usize) -> Prog {
    if n > 0 && rng.chance(0.06) {
        let depth = rng.range(5, 110);
        return tower(rng, n, depth, false);
    }
    let (ops, m, kink, abs_only) = (rng.range(3, 40), rng.range(1, 4), *rng.pick(&[0.2, 0.4, 0.7]), rng.chance(0.5));
    gen_dyadic(rng, n, ops, m, kink, abs_only)
}

/// Solve an abs-normal form for a displacement; results with error bounds
struct Solved {
    z: Vec<f64>,
    ez: Vec<f64>,
    dy: Vec<f64>,
    ey: Vec<f64>,
}
fn solve(d: &Dense, a: &[f64], b: &[f64], f: (&DMatrix<f64>, &DMatrix<f64>, &DMatrix<f64>, &DMatrix<f64>), dx: &[f64]) -> Solved {
    let (zm, lm, jm, ym) = f;
    let (mut z, mut ez) = (vec![0.0; d.s], vec![0.0; d.s]);
    for i in 0..d.s {
        let mut v = a[i];
        let mut mag = d.z[i].abs();
        let mut amp = 0.0;
        for j in 0..d.n {
            v += zm[(i, j)] * dx[j];
            mag += d.za[(i, j)] * dx[j].abs();
        }
        for j in 0..i {
            v += lm[(i, j)] * f64::abs(z[j]);
            mag += d.la[(i, j)] * (z[j].abs() + d.z[j].abs());
            amp += lm[(i, j)].abs() * ez[j];
        }
        z[i] = v;
        ez[i] = REL * mag + amp;
    }
    let (mut dy, mut ey) = (vec![0.0; d.m], vec![0.0; d.m]);
    for i in 0..d.m {
        let mut v = b[i];
        let mut mag = 0.0;
        let mut amp = 0.0;
        for j in 0..d.n {
            v += jm[(i, j)] * dx[j];
            mag += d.ja[(i, j)] * dx[j].abs();
        }
        for j in 0..d.s {
            v += ym[(i, j)] * z[j].abs();
            mag += d.ya[(i, j)] * (z[j].abs() + d.z[j].abs());
            amp += ym[(i, j)].abs() * ez[j];
        }
        dy[i] = v;
        ey[i] = REL * mag + amp;
    }
    Solved { z, ez, dy, ey }
}

fn abs_nodes(p: &Prog) -> Vec<usize> {
    let deps = p.deps();
    (0..p.nodes.len()).filter(|i| matches!(p.nodes[*i], U(Un::Abs, _)) && deps[*i]).collect()
}
fn only_plain_abs(p: &Prog) -> bool {
    !p.nodes.iter().any(|n| matches!(n, B(Bi::Max | Bi::Min | Bi::AbsSub, _, _)))
}

pub fn p12(run: &Run) -> i32 {
    let n = run.pick(60_000, 1_200_000);
    run.cases_and_large(n, run.pick(60, 1500), 8, |case, rng, obs| {
        let large = case >= LARGE;
        let exact = if large { case % 2 == 0 } else { case % 3 == 0 };
        let (p, x) = if large && exact {
            let n = rng.range(1, 30);
            (large_dyadic(rng, n), dyadic_vec(rng, n, 0.4))
        } else if large {
            let (p, pts) = large_kinks(case, rng);
            (p, pts[0].clone())
        } else if exact {
            let n = rng.range(1, 5);
            (dyadic_prog(rng, n), dyadic_vec(rng, n, 0.4))
        } else {
            let (p, pts) = smooth_kinks(rng, 150);
            (p, pts[0].clone())
        };
        let u = if exact { unit(rng) } else { 1.0 };
        let (p, x) = (if exact { in_unit(p, u) } else { p }, times(x, u));
        obs.add("forms far from the unit one", (u != 1.0) as u64);
        obs.mark(&p.text(&x));
        let f = ProgFn::new(p.clone());
        let g = lib("abs_normal", || abs_normal(&f, &dv(&x)))?;
        let t = tape_of(&p, &x)?;
        let d = dense_anf(&*t);
        let s = d.s;
        obs.add("switching variables", s as u64);
        obs.max("switching variables in one form", s as u64);
        // shapes
        for (what, got, want) in [
            ("a", (g.a.nrows(), 1), (s, 1)),
            ("Z", g.zmat.shape(), (s, p.n)),
            ("L", g.lmat.shape(), (s, s)),
            ("b", (g.b.nrows(), 1), (p.m(), 1)),
            ("J", g.jmat.shape(), (p.m(), p.n)),
            ("Y", g.ymat.shape(), (p.m(), s)),
        ] {
            ensure!(got == want, "anf:shape", "{} has shape {:?} instead of {:?}", what, got, want);
        }
        for i in 0..s {
            for j in i..s {
                ensure!(g.lmat[(i, j)] == 0.0, "anf:triangular", "L[{},{}] is {}", i, j, g.lmat[(i, j)]);
            }
        }
        // one switching variable per absolute value, in evaluation order
        if only_plain_abs(&p) {
            let vals = ad_values(&p, &x)?;
            let order: Vec<f64> = abs_nodes(&p).iter().map(|i| ops_of(&p.nodes[*i], &vals)[0]).collect();
            ensure!(order.len() == s, "anf:count", "{} switching variables for {} absolute values", s, order.len());
            for i in 0..s {
                ensure!(refs::same(order[i], d.z[i]), "anf:order", "switching variable {} is {} instead of {}", i, d.z[i], order[i]);
            }
        }
        // entries
        mat_close(&g.zmat, &d.zm, &d.za, REL, "anf:Z", "Z")?;
        mat_close(&g.lmat, &d.lm, &d.la, REL, "anf:L", "L")?;
        mat_close(&g.jmat, &d.jm, &d.ja, REL, "anf:J", "J")?;
        mat_close(&g.ymat, &d.ym, &d.ya, REL, "anf:Y", "Y")?;
        for i in 0..s {
            let w: f64 = d.z[i] - (0..i).map(|j| d.lm[(i, j)] * d.z[j].abs()).sum::<f64>();
            let e: f64 = d.z[i].abs() + (0..i).map(|j| d.la[(i, j)] * d.z[j].abs()).sum::<f64>();
            ensure!(close(g.a[i], w, REL * e + 1e-308), "anf:a", "a[{}] is {} instead of {}", i, g.a[i], w);
        }
        for i in 0..p.m() {
            let w: f64 = -(0..s).map(|j| d.ym[(i, j)] * d.z[j].abs()).sum::<f64>();
            let e: f64 = (0..s).map(|j| d.ya[(i, j)] * d.z[j].abs()).sum::<f64>();
            ensure!(close(g.b[i], w, REL * e + 1e-308), "anf:b", "b[{}] is {} instead of {}", i, g.b[i], w);
        }
        // solving it
        let mats = (&g.zmat, &g.lmat, &g.jmat, &g.ymat);
        let still = solve(&d, g.a.as_slice(), g.b.as_slice(), mats, &vec![0.0; p.n]);
        for i in 0..s {
            ensure!(close(still.z[i], d.z[i], still.ez[i] + 1e-308), "anf:still", "at zero displacement switching variable {} is {} instead of {}", i, still.z[i], d.z[i]);
        }
        for i in 0..p.m() {
            ensure!(close(still.dy[i], 0.0, still.ey[i] + 1e-308), "anf:still", "at zero displacement result {} moves by {}", i, still.dy[i]);
        }
        for _ in 0..3 {
            let dx: Vec<f64> = if exact {
                if rng.chance(0.3) { x.iter().map(|v| -v).collect() } else { times(dyadic_vec(rng, p.n, 0.3), u) }
            } else {
                (0..p.n).map(|_| nice(rng, 0.3) * *rng.pick(&[1.0, 0.01, 10.0])).collect()
            };
            let sol = solve(&d, g.a.as_slice(), g.b.as_slice(), mats, &dx);
            let vals = ad_values(&p, &x)?;
            let (inc, err) = refs::forward(&p, &vals, &dx);
            for (i, o) in p.outs.iter().enumerate() {
                ensure!(
                    close(sol.dy[i], inc[*o], 2.0 * sol.ey[i] + 2.0 * err[*o] + 1e-308),
                    "anf:model",
                    "solving for displacement {:?} moves result {} by {:e}, the piecewise linearization by {:e}",
                    dx, i, sol.dy[i], inc[*o]
                );
            }
            if exact {
                let x2: Vec<f64> = x.iter().zip(&dx).map(|(a, b)| a + b).collect();
                let (y1, y2): (Vec<f64>, Vec<f64>) = (p.eval(&x), p.eval(&x2));
                for i in 0..p.m() {
                    ensure!(close(sol.dy[i], y2[i] - y1[i], 1e-8 * u), "anf:exact", "solving for displacement {:?} moves result {} by {}, the function by {}", dx, i, sol.dy[i], y2[i] - y1[i]);
                }
            }
            obs.add("displacements solved", 1);
        }
        Ok(())
    });
    run.finish("random piecewise-smooth programs (up to about 100 switching variables, more or fewer than arguments and results) and exact piecewise-linear ones: every matrix and vector of the form against dense elimination over the recording, shapes and triangularity, switching variables against the evaluation, and the form solved for random, large and zero displacements against the piecewise linearization and, where exact, the function itself. Non-trivial: every program; switching variables counted")
}

pub fn p13(run: &Run) -> i32 {
    let n = run.pick(25_000, 400_000);
    run.cases_and_large(n, run.pick(60, 1500), 8, |case, rng, obs| {
        let large = case >= LARGE;
        let exact = if large { case % 2 == 0 } else { case % 4 == 0 };
        let (p, pts) = if large && exact {
            let n = rng.range(1, 30);
            (large_dyadic(rng, n), vec![dyadic_vec(rng, n, 0.4), dyadic_vec(rng, n, 0.4)])
        } else if large {
            large_kinks(case, rng)
        } else if exact {
            let n = rng.range(1, 5);
            (dyadic_prog(rng, n), vec![dyadic_vec(rng, n, 0.4), dyadic_vec(rng, n, 0.4)])
        } else {
            smooth_kinks(rng, 100)
        };
        obs.mark(&p.text(&pts[0]));
        let style = if rng.chance(0.5) { 0 } else { rng.u64() };
        let mut t = tape_some(&p, &pts[0], style)?;
        let moved = rng.chance(0.5);
        let at = &pts[moved as usize];
        if moved {
            lib("zero_order", || t.zero_order(&dv(at)))?;
        }
        let d = dense_anf(&*t);
        let (ty, tx) = (t.y(), t.x());
        let a = lib("AbsNormalTape", || AbsNormalTape::new(t))?;
        ensure!((a.n(), a.m(), a.s()) == (p.n, p.m(), d.s), "views:dims", "dimensions {:?} instead of {:?}", (a.n(), a.m(), a.s()), (p.n, p.m(), d.s));
        ensure!(bits(a.x().as_slice()) == bits(tx.as_slice()) && a.x().len() == p.n, "views:x", "argument {:?} instead of {:?}", a.x().as_slice(), tx.as_slice());
        ensure!(bits(a.y().as_slice()) == bits(ty.as_slice()) && a.y().len() == p.m(), "views:y", "results {:?} instead of {:?}", a.y().as_slice(), ty.as_slice());
        ensure!(bits(a.z().as_slice()) == bits(&d.z), "views:z", "switching values {:?} instead of {:?}", a.z().as_slice(), d.z);
        if only_plain_abs(&p) {
            let vals = ad_values(&p, at)?;
            let order: Vec<f64> = abs_nodes(&p).iter().map(|i| ops_of(&p.nodes[*i], &vals)[0]).collect();
            ensure!(order.len() == d.s && (0..d.s).all(|i| refs::same(order[i], a.z()[i])), "views:z", "switching values {:?}, evaluated {:?}", a.z().as_slice(), order);
        }
        macro_rules! view {
            ($t:ident, $name:expr, $m:expr, $b:expr) => {{
                let v = $t::new(&a);
                let (m, bd): (&DMatrix<f64>, &DMatrix<f64>) = ($m, $b);
                ensure!((v.nrows(), v.ncols()) == m.shape(), format!("views:{}:shape", $name), "{} is {}x{} instead of {:?}", $name, v.nrows(), v.ncols(), m.shape());
                let (r, c) = m.shape();
                for _ in 0..2 {
                    let k = if large { rng.range(60, 330) } else { *rng.pick(&[0, 1, 1, 2, 3, 5, 9]) };
                    let rhs = DMatrix::from_fn(c, k, |_, _| nice(rng, 0.4));
                    let got = lib("mul_right", || v.mul_right(&rhs))?;
                    mat_close(&got, &(m * &rhs), &(bd * rhs.abs()), REL, &format!("views:{}:right", $name), &format!("{} times a {}x{} matrix", $name, c, k))?;
                    let lhs = DMatrix::from_fn(k, r, |_, _| nice(rng, 0.4));
                    let got = lib("mul_left", || v.mul_left(&lhs))?;
                    mat_close(&got, &(&lhs * m), &(lhs.abs() * bd), REL, &format!("views:{}:left", $name), &format!("a {}x{} matrix times {}", k, r, $name))?;
                    obs.add("products", 2);
                }
                // other storages: vectors, parts of larger matrices, transposes
                let big = DMatrix::from_fn(c + 3, 6, |_, _| nice(rng, 0.4));
                let part = big.slice((2, 1), (c, 3));
                let got = lib("mul_right", || v.mul_right(&part))?;
                mat_close(&got, &(m * part.into_owned()), &(bd * part.abs()), REL, &format!("views:{}:right", $name), $name)?;
                let big = DMatrix::from_fn(5, r + 2, |_, _| nice(rng, 0.4));
                let part = big.slice((1, 1), (4, r));
                let got = lib("mul_left", || v.mul_left(&part))?;
                mat_close(&got, &(part.into_owned() * m), &(part.abs() * bd), REL, &format!("views:{}:left", $name), $name)?;
                let vec = DVector::from_fn(c, |_, _| nice(rng, 0.4));
                let got = lib("mul_right", || v.mul_right(&vec))?;
                mat_close(&got, &DMatrix::from_column_slice(r, 1, (m * &vec).as_slice()), &DMatrix::from_column_slice(r, 1, (bd * vec.abs()).as_slice()), REL, &format!("views:{}:right", $name), $name)?;
                let vec = DVector::from_fn(r, |_, _| nice(rng, 0.4)).transpose();
                let got = lib("mul_left", || v.mul_left(&vec))?;
                mat_close(&got, &DMatrix::from_row_slice(1, c, (&vec * m).as_slice()), &DMatrix::from_row_slice(1, c, (vec.abs() * bd).as_slice()), REL, &format!("views:{}:left", $name), $name)?;
                obs.add("products", 4);
                for i in 0..r {
                    let got = lib("row", || v.row(i))?;
                    mat_close(&got, &DMatrix::from_fn(1, c, |_, j| m[(i, j)]), &DMatrix::from_fn(1, c, |_, j| bd[(i, j)]), REL, &format!("views:{}:row", $name), &format!("row {} of {}", i, $name))?;
                }
                for j in 0..c {
                    let got = lib("column", || v.column(j))?;
                    mat_close(&got, &DMatrix::from_fn(r, 1, |i, _| m[(i, j)]), &DMatrix::from_fn(r, 1, |i, _| bd[(i, j)]), REL, &format!("views:{}:column", $name), &format!("column {} of {}", j, $name))?;
                }
                obs.add("rows and columns", (r + c) as u64);
                let again = lib("mul_right", || v.clone().mul_right(&DMatrix::identity(c, c)))?;
                mat_close(&again, m, bd, REL, &format!("views:{}:whole", $name), $name)?;
            }};
        }
        view!(AbsNormalZ, "Z", &d.zm, &d.za);
        view!(AbsNormalL, "L", &d.lm, &d.la);
        view!(AbsNormalJ, "J", &d.jm, &d.ja);
        view!(AbsNormalY, "Y", &d.ym, &d.ya);
        obs.max("switching variables", d.s as u64);
        Ok(())
    });
    run.finish("random piecewise-smooth programs recorded here or moved here by re-evaluation; for each of Z, L, J, Y every row, every column and products from both sides with random matrices of 0 to 9 columns or rows, vectors and parts of larger matrices, against the dense matrix from elimination over the recording. Non-trivial: every program; products counted")
}

// ------------------------------------------------------------ P14

/// The branch of the linearization selected along dx
struct Branch {
    h: DMatrix<f64>,
    c: Vec<f64>,
    hb: DMatrix<f64>,
    cb: Vec<f64>,
    ties: usize,
    ambiguous: bool,
    dz: Vec<f64>,
}

fn bit(bytes: &[u8], k: usize) -> bool {
    k / 8 < bytes.len() && bytes[k / 8] >> (k % 8) & 1 == 1
}

/// `exact`: zeros are decided exactly, on arithmetic in this unit
fn branch(d: &Dense, dx: &[f64], signs: &[u8], exact: Option<f64>) -> Branch {
    let (n, m, s) = (d.n, d.m, d.s);
    let a: Vec<f64> = (0..s).map(|i| d.z[i] - (0..i).map(|j| d.lm[(i, j)] * d.z[j].abs()).sum::<f64>()).collect();
    let sol = solve(d, &a, &vec![0.0; m], (&d.zm, &d.lm, &d.jm, &d.ym), dx);
    let mut ties = 0;
    let mut ambiguous = false;
    let mut sg = vec![0.0; s];
    for i in 0..s {
        sg[i] = if sol.z[i] > 0.0 {
            1.0
        } else if sol.z[i] < 0.0 {
            -1.0
        } else {
            ties += 1;
            if bit(signs, ties - 1) { 1.0 } else { -1.0 }
        };
        ambiguous |= match exact {
            None => sol.z[i].abs() <= 100.0 * sol.ez[i] + 1e-12,
            Some(unit) => sol.z[i] != 0.0 && sol.z[i].abs() < 1e-9 * unit,
        };
    }
    // z_i as an affine map of dx
    let mut zr = DMatrix::zeros(s, n);
    let mut zb = DMatrix::zeros(s, n);
    let mut zc = vec![0.0; s];
    let mut zcb = vec![0.0; s];
    for i in 0..s {
        zc[i] = a[i];
        zcb[i] = d.z[i].abs() + (0..i).map(|j| d.la[(i, j)] * d.z[j].abs()).sum::<f64>();
        for c in 0..n {
            zr[(i, c)] = d.zm[(i, c)];
            zb[(i, c)] = d.za[(i, c)];
        }
        for j in 0..i {
            let (l, la) = (d.lm[(i, j)] * sg[j], d.la[(i, j)]);
            if la == 0.0 {
                continue;
            }
            zc[i] += l * zc[j];
            zcb[i] += la * zcb[j];
            for c in 0..n {
                let (q, qb) = (zr[(j, c)], zb[(j, c)]);
                zr[(i, c)] += l * q;
                zb[(i, c)] += la * qb;
            }
        }
    }
    let mut h = d.jm.clone();
    let mut hb = d.ja.clone();
    let mut c = vec![0.0; m];
    let mut cb = vec![0.0; m];
    for i in 0..m {
        for j in 0..s {
            let (y, ya) = (d.ym[(i, j)], d.ya[(i, j)]);
            if ya == 0.0 {
                continue;
            }
            c[i] += y * (sg[j] * zc[j] - d.z[j].abs());
            cb[i] += ya * (zcb[j] + d.z[j].abs());
            for k in 0..n {
                h[(i, k)] += y * sg[j] * zr[(j, k)];
                hb[(i, k)] += ya * zb[(j, k)];
            }
        }
    }
    Branch { h, c, hb, cb, ties, ambiguous, dz: sol.z }
}

fn same_gj(g: &GeneralizedJacobian, b: &Branch, rel: f64, what: &str) -> Res {
    mat_close(&g.homogenous, &b.h, &b.hb, rel, "gj:homogenous", &format!("{}: homogeneous part", what))?;
    ensure!(g.inhomogenous.len() == b.c.len(), "gj:shape", "{}: inhomogeneous part has {} rows instead of {}", what, g.inhomogenous.len(), b.c.len());
    for i in 0..b.c.len() {
        ensure!(close(g.inhomogenous[i], b.c[i], rel * b.cb[i] + 1e-308), "gj:inhomogenous", "{}: inhomogeneous part {} is {:e} instead of {:e}", what, i, g.inhomogenous[i], b.c[i]);
    }
    ensure!(g.multiplicity == b.ties, "gj:multiplicity", "{}: multiplicity {} but {} switching variables are zero there ({:?})", what, g.multiplicity, b.ties, b.dz);
    Ok(())
}

pub fn p14(run: &Run) -> i32 {
    let n = run.pick(60_000, 800_000);
    run.cases_and_large(n, run.pick(150, 3000), 8, |case, rng, obs| {
        let large = case >= LARGE;
        let exact = if large { case % 2 == 0 } else { case % 4 < 2 };
        let mut u = 1.0;
        let (p, x, dx) = if exact {
            let n = rng.range(1, if large { 30 } else { 5 });
            let p = if large {
                large_dyadic(rng, n)
            } else if rng.chance(0.15) {
                let m = rng.range(1, 3);
                {
                    let ops = rng.range(30, 90);
                    let smooth = rng.chance(0.7);
                    gen_dyadic(rng, n, ops, m, 0.7, smooth)
                }
            } else {
                dyadic_prog(rng, n)
            };
            let all = rng.chance(if large { 0.6 } else { 0.2 });
            let x = if all { vec![0.0; n] } else { dyadic_vec(rng, n, 0.5) };
            let dx = match rng.below(4) {
                0 => vec![0.0; n],
                1 => x.iter().map(|v| -v).collect(),
                _ => dyadic_vec(rng, n, 0.4),
            };
            u = unit(rng);
            (in_unit(p, u), times(x, u), times(dx, u))
        } else {
            let (p, pts) = if large { large_kinks(case, rng) } else { smooth_kinks(rng, 120) };
            let dx = (0..p.n).map(|_| nice(rng, 0.3) * *rng.pick(&[1.0, 0.1, 10.0])).collect();
            (p, pts[0].clone(), dx)
        };
        let signs: Vec<u8> = match rng.below(5) {
            0 => vec![],
            1 => vec![0],
            2 => vec![0xff; rng.range(1, 12)],
            _ if large => (0..rng.range(1, 150)).map(|_| rng.u64() as u8).collect(),
            _ => (0..rng.range(1, 8)).map(|_| rng.u64() as u8).collect(),
        };
        obs.mark(&format!("{} dx={:?} signs={:?}", p.text(&x), dx, signs));
        let f = ProgFn::new(p.clone());
        let style = if rng.chance(0.5) { 0 } else { rng.u64() };
        let t = tape_some(&p, &x, style)?;
        let d = dense_anf(&*t);
        let b = branch(&d, &dx, &signs, exact.then_some(u));
        obs.add("forms far from the unit one", (u != 1.0) as u64);
        let g = if rng.chance(0.5) {
            lib("generalized_jacobian", || generalized_jacobian(&f, &dv(&x), &dv(&dx), &signs, None))?
        } else {
            lib("generalized_jacobian_tape", || generalized_jacobian_tape(t, &dv(&dx), &signs, None))?
        };
        ensure!(g.homogenous.shape() == (p.m(), p.n) && g.inhomogenous.len() == p.m(), "gj:shape", "shapes {:?} and {} for {} results and {} arguments", g.homogenous.shape(), g.inhomogenous.len(), p.m(), p.n);
        // the increment along dx, whatever the bits
        let vals = ad_values(&p, &x)?;
        let (inc, err) = refs::forward(&p, &vals, &dx);
        let y = &g.homogenous * dv(&dx) + &g.inhomogenous;
        for (i, o) in p.outs.iter().enumerate() {
            let scale: f64 = b.cb[i] + (0..p.n).map(|j| b.hb[(i, j)] * dx[j].abs()).sum::<f64>();
            if b.ambiguous && scale > 1e6 {
                continue;
            }
            ensure!(
                close(y[i], inc[*o], 1e-8 * scale + 2.0 * err[*o] + 1e-308),
                "gj:increment",
                "homogeneous part times the direction plus inhomogeneous part gives {:e} for result {}, the piecewise linearization {:e}",
                y[i], i, inc[*o]
            );
        }
        obs.add("increments compared", p.m() as u64);
        obs.max("switching variables", d.s as u64);
        if !b.ambiguous {
            same_gj(&g, &b, 1e-8, "generalized Jacobian")?;
            obs.add("branches compared", 1);
            obs.add("ties", b.ties as u64);
            obs.max("ties at one point", b.ties as u64);
            obs.add("points with more than eight ties", (b.ties > 8) as u64);
        } else {
            obs.add("branches too close to a kink to compare", 1);
        }
        if d.s == 0 {
            ensure!(g.multiplicity == 0 && g.inhomogenous.iter().all(|v| *v == 0.0), "gj:smooth", "a smooth function has multiplicity {} and inhomogeneous part {:?}", g.multiplicity, g.inhomogenous.as_slice());
            obs.add("smooth functions", 1);
        }
        Ok(())
    });
    run.finish("random piecewise-smooth programs and exact piecewise-linear ones with points and directions that put many switching variables exactly on zero, random sign bits of all lengths: homogeneous, inhomogeneous part and multiplicity against the branch from dense elimination, increments against the piecewise linearization. Non-trivial: every case; branches and ties counted")
}

// ------------------------------------------------------------ P15

/// The same leaves, nested at random
fn nest(rng: &mut Rng, leaves: &[Prog]) -> FunctionChain {
    fn boxed(rng: &mut Rng, part: &[Prog]) -> Box<dyn Function> {
        if part.len() == 1 && rng.chance(0.8) {
            Box::new(ProgFn::new(part[0].clone()))
        } else {
            Box::new(nest(rng, part))
        }
    }
    let mut i = 0;
    let mut chain: Option<FunctionChain> = None;
    while i < leaves.len() {
        let whole = i == 0 && leaves.len() > 1;
        let max = if whole { leaves.len() - 1 } else { leaves.len() - i };
        let k = if rng.chance(0.7) { 1 } else { rng.range(1, max) };
        let part = &leaves[i..i + k];
        let f: Box<dyn Function> = if k == 1 { Box::new(ProgFn::new(part[0].clone())) } else { boxed(rng, part) };
        match &mut chain {
            None => chain = Some(FunctionChain::from_boxed(f)),
            Some(c) => c.append_boxed(f),
        }
        i += k;
    }
    chain.unwrap()
}

/// One program doing the same as the leaves in a row
pub fn compose(leaves: &[Prog]) -> Prog {
    let n = leaves[0].n;
    let mut nodes: Vec<Node> = (0..n).map(In).collect();
    let mut ins: Vec<usize> = (0..n).collect();
    for p in leaves {
        let mut at: Vec<usize> = vec![];
        for nd in p.nodes.iter() {
            let r = match *nd {
                In(i) => {
                    at.push(ins[i]);
                    continue;
                }
                K(c) => K(c),
                U(u, a) => U(u, at[a]),
                B(b, x, y) => B(b, at[x], at[y]),
                F(f, a, c) => F(f, at[a], c),
                Powi(a, e) => Powi(at[a], e),
                MulAdd(a, b, c) => MulAdd(at[a], at[b], at[c]),
            };
            at.push(nodes.len());
            nodes.push(r);
        }
        ins = p.outs.iter().map(|o| at[*o]).collect();
    }
    Prog { n, nodes, outs: ins }
}

fn random_next(rng: &mut Rng, m: usize) -> GeneralizedJacobian {
    // now and then nothing is asked of what follows, or much more than there are results
    let k = match rng.below(12) {
        0 => 0,
        1 => rng.range(5, 20),
        _ => rng.range(1, 4),
    };
    let multiplicity = match rng.below(6) {
        0 => rng.range(5, 300),
        1 => [1 << 16, u32::MAX as usize, usize::MAX / 2][rng.below(3)],
        _ => rng.below(5),
    };
    let q = |rng: &mut Rng| (rng.range(0, 16) as f64 - 8.0) / 4.0;
    let (mut homogenous, inhomogenous) = (DMatrix::from_fn(k, m, |_, _| q(rng)), DVector::from_fn(k, |_, _| q(rng)));
    if rng.chance(0.1) {
        homogenous = if rng.chance(0.5) { DMatrix::zeros(k, m) } else { DMatrix::identity(k, m) };
    }
    GeneralizedJacobian { homogenous, inhomogenous, multiplicity }
}

/// next applied to a branch, as an affine map
fn after(next: &GeneralizedJacobian, b: &Branch) -> Branch {
    let g = &next.homogenous;
    let ga = g.abs();
    let c = g * dv(&b.c) + &next.inhomogenous;
    let cb = &ga * dv(&b.cb) + next.inhomogenous.abs();
    Branch { h: g * &b.h, c: c.as_slice().to_vec(), hb: &ga * &b.hb, cb: cb.as_slice().to_vec(), ties: b.ties + next.multiplicity, ambiguous: b.ambiguous, dz: b.dz.clone() }
}

fn exact_chain(rng: &mut Rng, len: usize) -> (Vec<Prog>, Vec<f64>, Vec<f64>, f64) {
    let n = rng.range(1, 4);
    let mut info: Vec<(i32, f64)> = vec![(-3, 16.0); n];
    let mut leaves = vec![];
    for _ in 0..len {
        // members without results, and so members without arguments, have their place too
        let (ops, m) = (rng.range(1, 10), if len < 40 && rng.chance(0.02) { 0 } else { rng.range(1, 4) });
        let kp = *rng.pick(&[0.0, 0.3, 0.6]);
        let (p, i) = gen_dyadic_at(rng, &info, ops, m, kp, false, -20, 512.0);
        // results on the way stay small: gen_dyadic_at clamps them
        info = i;
        leaves.push(p);
    }
    let x = if rng.chance(0.2) { vec![0.0; n] } else { dyadic_vec(rng, n, 0.4) };
    let dx = match rng.below(4) {
        0 => vec![0.0; n],
        1 => x.iter().map(|v| -v).collect(),
        _ => dyadic_vec(rng, n, 0.4),
    };
    let u = unit(rng);
    (leaves.into_iter().map(|p| in_unit(p, u)).collect(), times(x, u), times(dx, u), u)
}

/// reference for a chain: branches of the leaves composed as affine maps, all ties minus
fn chain_reference(leaves: &[Prog], x: &[f64], dx: &[f64], u: f64) -> Result<(Branch, Vec<usize>), Fail> {
    let (mut x, mut x2) = (x.to_vec(), x.iter().zip(dx).map(|(a, b)| a + b).collect::<Vec<_>>());
    let n = x.len();
    let mut total: Option<Branch> = None;
    let mut ties = vec![];
    for p in leaves {
        let d: Vec<f64> = x.iter().zip(&x2).map(|(a, b)| b - a).collect();
        let t = tape_of(p, &x)?;
        let b = branch(&dense_anf(&*t), &d, &[], Some(u));
        ties.push(b.ties);
        total = Some(match total {
            None => b,
            Some(t) => {
                let g = &b.h;
                let ga = &b.hb;
                let c = g * dv(&t.c) + dv(&b.c);
                let cb = ga * dv(&t.cb) + dv(&b.cb);
                Branch { h: g * &t.h, c: c.as_slice().to_vec(), hb: ga * &t.hb, cb: cb.as_slice().to_vec(), ties: b.ties + t.ties, ambiguous: b.ambiguous || t.ambiguous, dz: vec![] }
            }
        });
        x = p.eval(&x);
        x2 = p.eval(&x2);
    }
    let _ = n;
    Ok((total.unwrap(), ties))
}

pub fn p15(run: &Run) -> i32 {
    let n = run.pick(20_000, 300_000);
    run.cases_and_large(n, run.pick(10, 200), 8, |case, rng, obs| {
        let large = case >= LARGE;
        match if large { 1 } else { case % 5 } {
            0 => {
                // with what follows given
                let exact = rng.chance(0.6);
                let mut u = 1.0;
                let (p, x, dx) = if exact {
                    let n = rng.range(1, 4);
                    u = unit(rng);
                    (in_unit(dyadic_prog(rng, n), u), times(dyadic_vec(rng, n, 0.5), u), times(dyadic_vec(rng, n, 0.5), u))
                } else {
                    let (p, pts) = smooth_kinks(rng, 60);
                    let dx = (0..p.n).map(|_| nice(rng, 0.3)).collect();
                    (p, pts[0].clone(), dx)
                };
                let signs: Vec<u8> = (0..rng.range(0, 4)).map(|_| rng.u64() as u8).collect();
                let mut next = random_next(rng, p.m());
                next.inhomogenous *= u;
                obs.mark(&format!("{} dx={:?} next={:?}", p.text(&x), dx, next));
                let t = tape_of(&p, &x)?;
                let b = after(&next, &branch(&dense_anf(&*t), &dx, &signs, exact.then_some(u)));
                let f = ProgFn::new(p.clone());
                let g = lib("generalized_jacobian", || generalized_jacobian(&f, &dv(&x), &dv(&dx), &signs, Some(next.clone())))?;
                if !b.ambiguous {
                    same_gj(&g, &b, 1e-8, "generalized Jacobian before a given one")?;
                    obs.add("compositions compared", 1);
                }
            }
            1..=3 => {
                let len = match rng.below(12) {
                    _ if large => rng.range(257, 420),
                    0 | 1 => 1,
                    2 | 3 => 2,
                    4 => rng.range(10, 40),
                    _ => rng.range(3, 9),
                };
                let (leaves, x, dx, u) = exact_chain(rng, len);
                obs.add("chains far from the unit one", (u != 1.0) as u64);
                obs.mark(&format!("chain of {}: {} dx={:?}", len, leaves[0].text(&x), dx));
                let (b, ties) = chain_reference(&leaves, &x, &dx, u)?;
                obs.max("chain length", len as u64);
                if b.ambiguous || !b.hb.iter().chain(&b.cb).all(|v| *v < 1e200 * f64::max(1.0, u)) {
                    obs.add("chains beyond exact arithmetic", 1);
                    return Ok(());
                }
                let mut counts: Vec<Option<usize>> = vec![None, Some(2), Some(3), Some(len.max(2)), Some(len + 1 + rng.below(5)), Some(usize::MAX)];
                counts.push(Some(rng.range(2, len + 3)));
                counts.dedup();
                for c in counts {
                    let chain = nest(rng, &leaves);
                    ensure!(chain.len() == len, "chain:len", "chain of {} leaves has length {}", len, chain.len());
                    let g = lib("generalized_jacobian_chain", || generalized_jacobian_chain(&chain, dv(&x), dv(&dx), c))?;
                    same_gj(&g, &b, 1e-8, &format!("chain of {} with checkpoints {:?} (ties {:?})", len, c, ties))?;
                    obs.add("chains compared", 1);
                    obs.add("ties in chains", b.ties as u64);
                }
                if len <= 4 {
                    // as one function
                    let whole = compose(&leaves);
                    let f = ProgFn::new(whole.clone());
                    let g1 = lib("generalized_jacobian", || generalized_jacobian(&f, &dv(&x), &dv(&dx), &[], None))?;
                    let chain = nest(rng, &leaves);
                    let g2 = lib("generalized_jacobian", || generalized_jacobian(&chain, &dv(&x), &dv(&dx), &[0], None))?;
                    let bw = branch(&dense_anf(&*tape_of(&whole, &x)?), &dx, &[], Some(u));
                    if !bw.ambiguous && bw.ties == b.ties {
                        same_gj(&g1, &b, 1e-8, "composed function")?;
                        same_gj(&g2, &b, 1e-8, "chain taken as one function")?;
                        obs.add("compositions compared", 2);
                    }
                }
            }
            _ => {
                // nonlinear chains: the increment
                let len = rng.range(1, 6);
                let mut leaves: Vec<Prog> = vec![];
                let mut n = rng.range(1, 4);
                let n0 = n;
                let x0: Vec<f64> = (0..n).map(|_| nice(rng, 0.2)).collect();
                let mut x = x0.clone();
                for _ in 0..len {
                    // a program well-conditioned at the point that arrives
                    let mut found = None;
                    for _ in 0..40 {
                        let cfg = Cfg { n, ops: rng.range(2, 12), m: rng.range(1, 4), smooth: false, abs_only: false, kink_p: 0.25, points: 1, special: 0.2, plain: true };
                        let (p, _) = gen(rng, &cfg);
                        let v: Vec<f64> = p.run(&x);
                        let deps = p.deps();
                        let ok = p.nodes.iter().enumerate().all(|(i, nd)| {
                            let (a, k) = nd.args();
                            let mut fr = [false; 3];
                            for j in 0..k {
                                fr[j] = deps[a[j]];
                            }
                            matches!(nd, In(_)) || (good(nd, ops_of(nd, &v), v[i], fr) && v[i].abs() < 50.0)
                        });
                        if ok {
                            found = Some(p);
                            break;
                        }
                    }
                    let Some(p) = found else { break };
                    n = p.m();
                    x = p.eval(&x);
                    leaves.push(p);
                }
                if leaves.is_empty() {
                    return Ok(());
                }
                let dx: Vec<f64> = (0..n0).map(|_| nice(rng, 0.2) * 0.5).collect();
                let whole = compose(&leaves);
                obs.mark(&format!("nonlinear chain of {}: {} dx={:?}", leaves.len(), whole.text(&x0), dx));
                let vals = ad_values(&whole, &x0)?;
                let (inc, err) = refs::forward(&whole, &vals, &dx);
                let dw = dense_anf(&*tape_of(&whole, &x0)?);
                let bw = branch(&dw, &dx, &[], None);
                // constants handed on are arguments of the next part: their kinks show in the parts only
                let mut parts = 0;
                let mut at = x0.clone();
                for p in leaves.iter() {
                    parts += tape_of(p, &at)?.num_abs();
                    at = p.eval(&at);
                }
                for c in [None, Some(2), Some(rng.range(2, 7))] {
                    let chain = nest(rng, &leaves);
                    let g = lib("generalized_jacobian_chain", || generalized_jacobian_chain(&chain, dv(&x0), dv(&dx), c))?;
                    ensure!(g.homogenous.shape() == (whole.m(), n0), "gj:shape", "homogeneous part {:?} for {} results and {} arguments", g.homogenous.shape(), whole.m(), n0);
                    let y = &g.homogenous * dv(&dx) + &g.inhomogenous;
                    for (i, o) in whole.outs.iter().enumerate() {
                        let scale: f64 = bw.cb[i] + (0..n0).map(|j| bw.hb[(i, j)] * dx[j].abs()).sum::<f64>();
                        if scale > 1e5 {
                            continue;
                        }
                        ensure!(close(y[i], inc[*o], 1e-8 * scale + 2.0 * err[*o] + 1e-9), "chain:increment", "result {} of a chain of {} moves by {:e} with checkpoints {:?}, the piecewise linearization by {:e}", i, leaves.len(), y[i], c, inc[*o]);
                        obs.add("increments compared", 1);
                    }
                    if !bw.ambiguous && parts == dw.s && bw.hb.iter().all(|v| *v < 1e5) {
                        same_gj(&g, &bw, 1e-7, "nonlinear chain")?;
                        obs.add("chains compared", 1);
                    }
                }
            }
        }
        Ok(())
    });
    run.finish("generalized Jacobians with a random affine map following; chains of 1 to 40 exact piecewise-linear functions with many ties, nested at random, with no, few, exactly enough and more checkpoints, against the leaves' branches composed as affine maps and against the composed function; nonlinear chains against the piecewise linearization of the composition. Non-trivial: every case; chains and ties counted")
}
