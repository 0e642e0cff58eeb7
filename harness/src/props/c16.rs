//! Dense eigensolver returns the true eigenpair nearest the target or an error.
use crate::gen::*;
use crate::refmath::*;
use crate::util::*;
use crate::{Ctx, Kind, Prop};
use fem_2d::fem_problem::linalg::nalgebra_solve::{nalgebra_solve_gep, NalgebraGEPError};
use fem_2d::fem_problem::linalg::sparse_matrix::SparseMatrix;
use fem_2d::fem_problem::linalg::{EigenPair, GEP};
use fem_2d::prelude::*;
use nalgebra::{DMatrix, DVector, SymmetricEigen};

pub const PROP: Prop = Prop {
    id: "C16",
    kinds: &[
        Kind::new("known", 4, 4),
        Kind::new("commuting", 16000, 600000),
        Kind::new("general", 5000, 200000),
        Kind::new("assembled", 150, 4000),
        Kind::new("errors", 2000, 40000),
        Kind::new("limit", 3, 12),
        Kind::new("normalise", 3000, 60000),
    ],
    run,
    threads: 8,
    rule: "random symmetric pencils with known spectra: commuting (the product of the inverse of B with A is symmetric, every answer must be a true nearest eigenpair), general and assembled (an answer that is not a true nearest eigenpair is a violation unless it is exactly what the recorded known finding predicts), targets at, between and outside of eigenvalues; error cases; problems at the size limit; non-trivial = dimension over 1 with a returned pair, distinct by pencil and target",
    assumptions: &["condition numbers of B up to 1e5; an independent Cholesky and QR based solution of the same pencil as the oracle"],
};

fn sparse(m: &DMatrix<f64>) -> SparseMatrix {
    let n = m.nrows();
    let mut s = SparseMatrix::new(n);
    for i in 0..n {
        for j in i..n {
            if m[(i, j)] != 0.0 {
                s.insert([i, j], m[(i, j)]);
            }
        }
    }
    s
}

fn ortho(rng: &mut Rng, n: usize) -> DMatrix<f64> {
    DMatrix::from_fn(n, n, |_, _| rng.gauss()).qr().q()
}

fn sym(q: &DMatrix<f64>, d: &[f64]) -> DMatrix<f64> {
    let m = q * DMatrix::from_diagonal(&DVector::from_column_slice(d)) * q.transpose();
    (&m + m.transpose()) * 0.5
}

fn pick_target(rng: &mut Rng, evs: &[f64]) -> f64 {
    let mut v = evs.to_vec();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let k = rng.below(v.len());
    let span = (v[v.len() - 1] - v[0]).abs().max(v[0].abs()).max(1e-3);
    match rng.below(7) {
        0 => v[k],
        1 => v[k] + rng.uni(-0.01, 0.01) * span,
        2 => v[0] - rng.uni(0.0, 3.0) * span,
        3 => v[v.len() - 1] + rng.uni(0.0, 3.0) * span,
        4 => 0.0,
        5 => rng.uni(-1.0, 1.0) * span * 100.0,
        _ => rng.uni(v[0] - span * 0.1, v[v.len() - 1] + span * 0.1),
    }
}

#[derive(PartialEq, Debug)]
enum Verdict {
    True,
    /// a right value with a vector that is not its eigenvector
    Vector(String),
    Not(String),
}

/// is (value, vector) an eigenpair of the symmetric pencil (a, b), nearest to the target?
fn judge(a: &DMatrix<f64>, b: &DMatrix<f64>, evs: &[f64], p: &EigenPair, target: f64, tol: f64) -> Verdict {
    let n = a.nrows();
    if p.vector.len() != n || !p.value.is_finite() || p.vector.iter().any(|x| !x.is_finite()) {
        return Verdict::Not(format!("value {} and a vector of {} entries for dimension {}", p.value, p.vector.len(), n));
    }
    let v = DVector::from_column_slice(&p.vector);
    if v.norm() == 0.0 {
        return Verdict::Not("zero vector".into());
    }
    let off = evs.iter().map(|e| (e - p.value).abs()).fold(f64::INFINITY, f64::min);
    if off > tol {
        return Verdict::Not(format!("value {} is {:e} away from every eigenvalue", p.value, off));
    }
    let best = evs.iter().map(|e| (e - target).abs()).fold(f64::INFINITY, f64::min);
    if (p.value - target).abs() > best + tol {
        return Verdict::Not(format!("value {} is {} away from the target {}, another eigenvalue only {}", p.value, (p.value - target).abs(), target, best));
    }
    let r = (a * &v - (b * &v) * p.value).norm() / (b.norm() * v.norm());
    let vtol = (1e3 * tol).max(1e-4 * evs.iter().fold(0.0f64, |m, e| m.max(e.abs())));
    if r > vtol {
        return Verdict::Vector(format!("value {}: relative residual {:e} over {:e}", p.value, r, vtol));
    }
    Verdict::True
}

/// Does the pair look like the recorded defect of the dense symmetric decomposition (a last 2x2 step that is not
/// rotated): unit vector, mixed from the eigenvectors of the value and of one other eigenvalue, on an input for which
/// the decomposition itself gives a wrong vector?
fn mixed(m: &DMatrix<f64>, evs: &[f64], p: &EigenPair, tol: f64, rng: &mut Rng) -> bool {
    let n = m.nrows();
    let v = DVector::from_column_slice(&p.vector);
    if (v.norm() - 1.0).abs() > 1e-8 {
        return false;
    }
    let r = m * &v - &v * p.value;
    let span = evs.iter().any(|mu| (m * &r - &r * *mu).norm() <= tol.max(1e-5 * m.norm()) * m.norm());
    // a small admixture, or an input for which the decomposition goes wrong by itself
    span && (r.norm() <= 0.03 * m.norm() || (0..300).any(|k| {
        let e = if k == 0 { 0.0 } else { [1e-16, 3e-16, 1e-15][k % 3] };
        let x = DMatrix::from_fn(n, n, |i, j| m[(i, j)] * (1.0 + e * rng.gauss()));
        let d = SymmetricEigen::new(x);
        (0..n).any(|c| (d.eigenvalues[c] - p.value).abs() <= 10.0 * tol && {
            let w = d.eigenvectors.column(c);
            (m * w - w * d.eigenvalues[c]).norm() > 1e-7 * m.norm()
        })
    }))
}

/// B^-1 A, solved column by column with an own elimination
fn product(a: &DMatrix<f64>, b: &DMatrix<f64>) -> Option<DMatrix<f64>> {
    b.clone().lu().solve(a)
}

fn solve(a: &DMatrix<f64>, b: &DMatrix<f64>, target: f64) -> Res<Result<EigenPair, NalgebraGEPError>> {
    let g = GEP { a: sparse(a), b: sparse(b) };
    lib("nalgebra_solve_gep", || nalgebra_solve_gep(g, target))
}

fn check(ctx: &mut Ctx, a: &DMatrix<f64>, b: &DMatrix<f64>, target: f64, commuting: bool, what: &str) -> Res {
    let n = a.nrows();
    let be = sym_eig(b.clone());
    let (bmin, bmax) = (be[0], be[n - 1]);
    if !(bmin > bmax * 1e-7) {
        // too close to indefinite to judge
        ctx.obs.add("skipped_ill_conditioned", 1);
        return Ok(());
    }
    let cond = bmax / bmin;
    let evs = match gen_eig(a, b) {
        Some(x) => x,
        None => return Ok(()),
    };
    let scale = evs.iter().fold(0.0f64, |m, e| m.max(e.abs())).max(a.norm() / bmin * 1e-3);
    let tol = 1e-13 * (n as f64 + 10.0) * cond.max(10.0) * scale;
    let near_zero = evs.iter().all(|e| e.abs() < 1e-10);
    match solve(a, b, target)? {
        Ok(p) => {
            ensure!(!(a.iter().all(|x| *x == 0.0)), "spurious", "{}: zero matrix gives the value {}", what, p.value);
            let u = lib("normalized_eigenvector", || p.normalized_eigenvector())?;
            unit(&p.vector, &u, what)?;
            match judge(a, b, &evs, &p, target, tol) {
                Verdict::True => {
                    ctx.obs.add("true_pairs", 1);
                }
                first => {
                    let why = match &first {
                        Verdict::Not(w) | Verdict::Vector(w) => w.clone(),
                        Verdict::True => String::new(),
                    };
                    let mut known = None;
                    if let Some(m) = product(a, b) {
                        // what the recorded defect works on: the symmetric matrix that shares the lower triangle of B^-1 A
                        let s = DMatrix::from_fn(n, n, |i, j| if i >= j { m[(i, j)] } else { m[(j, i)] });
                        let se = sym_eig(s.clone());
                        let id = DMatrix::identity(n, n);
                        let t2 = 1e-13 * (n as f64 + 10.0) * cond.max(10.0) * (s.norm() + scale);
                        let symmetric = (&s - &m).norm() <= 1e-9 * s.norm();
                        // identity.norm() is not one, undo it
                        let t2 = t2 * (n as f64).sqrt();
                        match judge(&s, &id, &se, &p, target, t2) {
                            Verdict::True if !symmetric && !commuting => known = Some("eigenpair-of-symmetrised-product"),
                            // within the (slightly larger) tolerance of the product form
                            Verdict::True if matches!(first, Verdict::Vector(_)) => known = Some("mixed-eigenvectors-of-dense-decomposition"),
                            Verdict::Vector(_) if (!symmetric && !commuting) || matches!(first, Verdict::Vector(_)) => {
                                if mixed(&s, &se, &p, t2, &mut ctx.rng.clone()) {
                                    known = Some("mixed-eigenvectors-of-dense-decomposition");
                                }
                            }
                            _ => (),
                        }
                    }
                    match known {
                        None => return viol("wrong-pair", format!("{}, target {}: {}", what, target, why)),
                        Some(k) => {
                            ctx.obs.add(k, 1);
                            ctx.report_side(Violation { sig: k.into(), msg: format!("{}, target {}: {}", what, target, why) });
                        }
                    }
                }
            }
            if n > 1 {
                ctx.nontrivial = Some(fnv(format!("{:?} {:?} {}", a, b, target).as_bytes()));
            }
            ctx.obs.max("dimension", n as f64);
        }
        Err(NalgebraGEPError::SpuriouslyConverged) => {
            ensure!(near_zero, "refused-solvable", "{}: reported as having only zero eigenvalues, which are {:?}", what, &evs[..n.min(8)]);
            ctx.obs.add("zero_problems", 1);
        }
        Err(e) => return viol("refused-solvable", format!("{}: {} (condition number {:e})", what, e, cond)),
    }
    Ok(())
}

fn unit(v: &[f64], u: &[f64], what: &str) -> Res {
    ensure!(u.len() == v.len(), "normalise", "{}: {} entries became {}", what, v.len(), u.len());
    let big = v.iter().fold(0.0f64, |m, x| m.max(x.abs()));
    if big == 0.0 {
        return Ok(());
    }
    let w: Vec<f64> = v.iter().map(|x| x / big).collect();
    let nw = w.iter().map(|x| x * x).sum::<f64>().sqrt();
    for (x, y) in w.iter().zip(u.iter()) {
        ensure!((x / nw - y).abs() <= 1e-13, "normalise", "{}: normalised entry {} should be {}", what, y, x / nw);
    }
    Ok(())
}

fn spectrum(rng: &mut Rng, n: usize) -> Vec<f64> {
    let s = 10f64.powi(if rng.chance(0.05) { rng.range(5, 14) } else { rng.range(-4, 4) } as i32);
    let mode = rng.below(5);
    (0..n)
        .map(|i| match mode {
            0 => rng.gauss() * s,
            1 => (i + 1) as f64 * s,
            2 => (if rng.chance(0.5) { 0.0 } else { rng.uni(0.1, 10.0) }) * s,
            3 => (if rng.chance(0.4) { 2.0 } else { rng.uni(-1.0, 5.0) }) * s,
            _ => -rng.uni(0.1, 10.0) * s,
        })
        .collect()
}

fn run(ctx: &mut Ctx) -> Res {
    let mut rng = ctx.rng.clone();
    match ctx.kind {
        "commuting" => {
            let n = 1 + rng.below(if ctx.idx % 2000 == 1 { 260 } else if ctx.idx % 50 == 0 { 60 } else { 14 });
            let l = spectrum(&mut rng, n);
            let spread = rng.uni(0.0, 3.0);
            let bs = 10f64.powi(if rng.chance(0.15) { rng.range(-12, 12) } else { rng.range(-3, 3) } as i32);
            let mut d: Vec<f64> = (0..n).map(|_| bs * 10f64.powf(rng.uni(0.0, spread))).collect();
            let mode = rng.below(4);
            if mode == 1 {
                d = vec![bs; n];
            }
            let q = if mode == 0 { DMatrix::identity(n, n) } else { ortho(&mut rng, n) };
            // the spectrum, and the same on the left side
            let ad: Vec<f64> = l.iter().zip(d.iter()).map(|(l, d)| l * d).collect();
            let (a, b) = (sym(&q, &ad), sym(&q, &d));
            let t = pick_target(&mut rng, &l);
            let what = format!("commuting pencil of dimension {} with eigenvalues {:?}", n, &l[..n.min(6)]);
            ctx.sample = Some(format!("{}, target {}", what, t));
            check(ctx, &a, &b, t, true, &what)
        }
        "general" => {
            let n = 1 + rng.below(12);
            let l = spectrum(&mut rng, n);
            let spread = rng.uni(0.0, 2.0);
            let bs = if rng.chance(0.15) { 10f64.powi(rng.range(-12, 12) as i32) } else { 1.0 };
            let d: Vec<f64> = (0..n).map(|_| bs * 10f64.powf(rng.uni(0.0, spread))).collect();
            let (q1, q2) = (ortho(&mut rng, n), ortho(&mut rng, n));
            let (a, b) = (sym(&q1, &l) * bs, sym(&q2, &d));
            let t = pick_target(&mut rng, &l);
            let what = format!("general pencil of dimension {}", n);
            ctx.sample = Some(format!("{}, target {}", what, t));
            check(ctx, &a, &b, t, false, &what)
        }
        "assembled" => {
            let path = ctx.scratch_file("mesh.json");
            let (mesh, desc) = rand_mesh(&mut rng, &path, &BaseOpts { max_elems: 4, ..Default::default() }, &HistOpts { max_elems: 12, max_ops: 2, max_depth: 3 }, OrderMode::Mixed(3))?;
            let d = domain_of(mesh)?;
            if d.dofs.is_empty() || d.dofs.len() > 120 {
                return Ok(());
            }
            let g = lib("galerkin_sample_gep_hcurl", || galerkin_sample_gep_hcurl::<HierPoly, CurlCurl, L2Inner>(&d, None))?.or_viol("galerkin_sample_gep_hcurl")?;
            let [a, b] = g.to_nalgebra_dense_mats();
            let t = rng.uni(0.0, 40.0);
            ctx.sample = Some(format!("{} target {}", desc, t));
            check(ctx, &a, &b, t, false, &desc)
        }
        "known" => {
            // the recorded findings, on fixed problems
            let a = DMatrix::from_row_slice(3, 3, &[2.0, 3.0, -3.0, 3.0, 2.0, 3.0, -3.0, 3.0, 2.0]);
            match ctx.idx {
                0 => check(ctx, &a, &DMatrix::identity(3, 3), -4.0, true, "[[2,3,-3],[3,2,3],[-3,3,2]] with B = I"),
                1 => check(ctx, &a, &DMatrix::identity(3, 3), 5.0, true, "[[2,3,-3],[3,2,3],[-3,3,2]] with B = I"),
                2 => check(ctx, &DMatrix::from_row_slice(2, 2, &[2.0, 1.0, 1.0, 3.0]), &DMatrix::from_row_slice(2, 2, &[2.0, 0.0, 0.0, 1.0]), 1.0, false, "A = [[2,1],[1,3]] with B = diag(2,1)"),
                _ => check(ctx, &DMatrix::from_row_slice(2, 2, &[2.0, 1.0, 1.0, 3.0]), &DMatrix::from_row_slice(2, 2, &[2.0, 0.5, 0.5, 1.0]), 3.0, false, "A = [[2,1],[1,3]] with B = [[2,0.5],[0.5,1]]"),
            }
        }
        "errors" => {
            let n = 2 + rng.below(10);
            let q = ortho(&mut rng, n);
            let l = spectrum(&mut rng, n);
            let d: Vec<f64> = (0..n).map(|_| rng.uni(0.5, 2.0)).collect();
            match rng.below(4) {
                0 => {
                    // not positive definite: negative eigenvalue
                    let mut d = d;
                    let k = rng.below(n);
                    d[k] = -rng.uni(0.01, 2.0);
                    let r = solve(&sym(&q, &l), &sym(&q, &d), 1.0)?;
                    ensure!(matches!(r, Err(NalgebraGEPError::FailedToInvertB)), "indefinite", "B with eigenvalue {}: {:?}", d[k], r.map(|p| p.value));
                    ctx.obs.add("indefinite", 1);
                }
                1 => {
                    // an empty row of B
                    let mut b = DMatrix::from_diagonal(&DVector::from_column_slice(&d));
                    let k = rng.below(n);
                    b[(k, k)] = 0.0;
                    let r = solve(&sym(&q, &l), &b, 1.0)?;
                    ensure!(matches!(r, Err(NalgebraGEPError::FailedToInvertB)), "indefinite", "singular B: {:?}", r.map(|p| p.value));
                    ctx.obs.add("singular", 1);
                }
                2 => {
                    // nothing but zero eigenvalues
                    let a = if rng.chance(0.5) { DMatrix::zeros(n, n) } else { sym(&q, &d) * 1e-15 };
                    let t = rng.uni(-1.0, 10.0);
                    let r = solve(&a, &sym(&q, &d), t)?;
                    ensure!(matches!(r, Err(NalgebraGEPError::SpuriouslyConverged)), "spurious", "zero problem: {:?}", r.map(|p| p.value));
                    ctx.obs.add("zero_problems", 1);
                }
                _ => {
                    // small, but not zero
                    let s = 10f64.powi(-rng.range(3, 9) as i32);
                    let mut l2 = vec![0.0; n];
                    let k = rng.below(n);
                    l2[k] = s * rng.uni(1.0, 5.0);
                    let ad: Vec<f64> = l2.iter().zip(d.iter()).map(|(l, d)| l * d).collect();
                    let t = *rng.pick(&[l2[k], 0.0, 1.0]);
                    check(ctx, &sym(&q, &ad), &sym(&q, &d), t, true, "one small eigenvalue, the others zero")?;
                    ctx.obs.add("small_eigenvalues", 1);
                }
            }
            ctx.sample = Some(format!("error case of dimension {}", n));
            Ok(())
        }
        "limit" => {
            let n = *[1001usize, 1000, 999].get(ctx.idx as usize % 3).unwrap();
            let mut g = GEP::new(n);
            // block diagonal, so that the answer is known
            for i in 0..n {
                g.a.insert([i, i], (i + 1) as f64);
                g.b.insert([i, i], 1.0);
            }
            let t = rng.uni(1.0, 990.0);
            let k = t.round();
            let r = lib("nalgebra_solve_gep", || nalgebra_solve_gep(g, t))?;
            if n > 1000 {
                ensure!(matches!(r, Err(NalgebraGEPError::ProblemTooLarge)), "too-large", "dimension {}: {:?}", n, r.map(|p| p.value));
                let big = n + 1 + rng.below(100000);
                let r = lib("nalgebra_solve_gep", || nalgebra_solve_gep(GEP::new(big), t))?;
                ensure!(matches!(r, Err(NalgebraGEPError::ProblemTooLarge)), "too-large", "dimension {}: {:?}", big, r.map(|p| p.value));
                ctx.obs.add("oversized", 2);
            } else {
                let p = r.map_err(|e| Violation { sig: "refused-solvable".into(), msg: format!("dimension {}: {}", n, e) })?;
                ensure!((p.value - k).abs() < 1e-9, "wrong-pair", "dimension {} target {}: {}", n, t, p.value);
                let m = p.vector[k as usize - 1].abs();
                let rest: f64 = p.vector.iter().enumerate().filter(|(i, _)| *i != k as usize - 1).map(|(_, x)| x.abs()).fold(0.0, f64::max);
                ensure!(m > 0.0 && rest < 1e-8 * m, "wrong-pair", "dimension {} target {}: vector {} / {}", n, t, m, rest);
                ctx.obs.add("at_the_limit", 1);
            }
            ctx.sample = Some(format!("dimension {} target {}", n, t));
            Ok(())
        }
        _ => {
            let n = 1 + rng.below(40);
            let s = 10f64.powi(rng.range(-100, 100) as i32);
            let v: Vec<f64> = (0..n).map(|_| if rng.chance(0.2) { 0.0 } else { rng.gauss() * s }).collect();
            if v.iter().all(|x| *x == 0.0) {
                return Ok(());
            }
            let p = EigenPair { value: 1.0, vector: v };
            let u = lib("normalized_eigenvector", || p.normalized_eigenvector())?;
            unit(&p.vector, &u, "random vector")?;
            ctx.obs.add("normalised", 1);
            ctx.nontrivial = Some(fnv(format!("{:?}", p.vector).as_bytes()));
            Ok(())
        }
    }
}
