//! Gauss-Legendre quadrature is exact to its theoretical degree.
use crate::refmath;
use crate::util::*;
use crate::{Ctx, Kind, Prop};
use fem_2d::fem_problem::integration::glq::*;
use std::cell::RefCell;

pub const PROP: Prop = Prop {
    id: "C11",
    kinds: &[Kind::new("rule", 256, 400), Kind::new("scale", 10000, 300000), Kind::new("sums", 10000, 300000)],
    run,
    threads: 8,
    rule: "rule:k is the rule with k+1 points, checked completely (order, symmetry, weights, all monomials and Legendre polynomials up to degree 2n-1, reference nodes); scale and sums use random ranges, rules and integrand tables; non-trivial = every case",
    assumptions: &["reference nodes by Newton iteration on the Legendre recurrence, in double precision"],
};

fn rule(ctx: &mut Ctx, n: usize) -> Res {
    let (x, w) = lib("gauss_quadrature_points", || gauss_quadrature_points(n, false))?;
    ensure!(x.len() == n && w.len() == n, "count", "n = {}: {} points, {} weights", n, x.len(), w.len());
    let tol = 1e-13 * (10.0 + n as f64);
    for i in 0..n {
        ensure!(x[i].is_finite() && w[i].is_finite(), "range", "n = {}: point {} weight {}", n, x[i], w[i]);
        ensure!(x[i] > -1.0 && x[i] < 1.0, "range", "n = {}: point {}", n, x[i]);
        ensure!(w[i] > 0.0, "weight-sign", "n = {}: weight {} is {}", n, i, w[i]);
        if i > 0 {
            ensure!(x[i] > x[i - 1], "order", "n = {}: points {} and {} are {} and {}", n, i - 1, i, x[i - 1], x[i]);
        }
        let k = n - 1 - i;
        ensure!((x[i] + x[k]).abs() < tol && (w[i] - w[k]).abs() < tol, "symmetry", "n = {}: points {} {} weights {} {}", n, x[i], x[k], w[i], w[k]);
    }
    let (rx, rw) = refmath::gauss(n);
    for i in 0..n {
        ensure!((x[i] - rx[i]).abs() < tol && (w[i] - rw[i]).abs() < tol, "nodes", "n = {}: node {} is {} (weight {}), should be {} ({})", n, i, x[i], w[i], rx[i], rw[i]);
        ctx.obs.max("node_error", (x[i] - rx[i]).abs());
        ctx.obs.max("weight_error", (w[i] - rw[i]).abs());
    }
    // Legendre polynomials: P_0 integrates to 2, all others to 0
    let mut p: Vec<[f64; 2]> = x.iter().map(|z| [1.0, *z]).collect();
    let mut pw: Vec<f64> = vec![1.0; n];
    for deg in 0..2 * n {
        let leg: f64 = if deg == 0 {
            w.iter().sum()
        } else {
            p.iter().zip(w.iter()).map(|(p, w)| p[1] * w).sum()
        };
        let mono: f64 = pw.iter().zip(w.iter()).map(|(p, w)| p * w).sum();
        let e1 = (leg - if deg == 0 { 2.0 } else { 0.0 }).abs();
        let e2 = (mono - if deg % 2 == 0 { 2.0 / (deg as f64 + 1.0) } else { 0.0 }).abs();
        ensure!(e1 < tol * 4.0, "exactness", "n = {}: Legendre polynomial of degree {} integrates to {}", n, deg, leg);
        ensure!(e2 < tol * 4.0, "exactness", "n = {}: x^{} integrates to {}", n, deg, mono);
        ctx.obs.max("integral_error", e1.max(e2));
        ctx.obs.add("polynomials_integrated", 2);
        for k in 0..n {
            pw[k] *= x[k];
            if deg >= 1 {
                let d = deg as f64;
                let next = ((2.0 * d + 1.0) * x[k] * p[k][1] - d * p[k][0]) / (d + 1.0);
                p[k] = [p[k][1], next];
            }
        }
    }
    // with end points
    let (xe, we) = lib("gauss_quadrature_points", || gauss_quadrature_points(n, true))?;
    ensure!(xe.len() == n + 2 && we.len() == n + 2, "ends", "n = {}: {} points, {} weights with end points", n, xe.len(), we.len());
    ensure!(xe[0] == -1.0 && xe[n + 1] == 1.0, "ends", "n = {}: ends at {} and {}", n, xe[0], xe[n + 1]);
    for i in 0..n {
        ensure!((xe[i + 1] - x[i]).abs() <= 1e-15 && (we[i + 1] - w[i]).abs() <= 1e-15, "ends", "n = {}: the inner points differ from the rule without end points", n);
    }
    ctx.nontrivial = Some(n as u64);
    ctx.sample = Some(format!("n = {}: first point {}, weight {}", n, x[0], w[0]));
    ctx.obs.add("rules", 1);
    Ok(())
}

fn scale(ctx: &mut Ctx) -> Res {
    let mut rng = ctx.rng.clone();
    let n = 1 + rng.below(40);
    let ends = rng.chance(0.5);
    let (x, _) = lib("gauss_quadrature_points", || gauss_quadrature_points(n, ends))?;
    let pts = if rng.chance(0.2) { (0..rng.below(6)).map(|_| rng.uni(-1.0, 1.0)).collect() } else { x };
    let size = 10f64.powi(rng.range(-12, 12) as i32);
    let mut a = rng.uni(-1.0, 1.0) * size;
    let mut b = rng.uni(-1.0, 1.0) * size;
    if rng.chance(0.3) {
        // dyadic sub ranges of [-1, 1], as refinement produces
        let k = 1 << rng.below(16);
        let i = rng.below(k);
        a = -1.0 + 2.0 * i as f64 / k as f64;
        b = -1.0 + 2.0 * (i + 1) as f64 / k as f64;
    }
    if a > b {
        std::mem::swap(&mut a, &mut b);
    }
    let (s, y) = lib("scale_gauss_quad_points", || scale_gauss_quad_points(&pts, a, b))?;
    let tol = 1e-14 * (a.abs() + b.abs());
    ensure!((s - (b - a) / 2.0).abs() <= tol, "scale", "range [{}, {}]: scale {}", a, b, s);
    ensure!(y.len() == pts.len(), "scale", "{} points became {}", pts.len(), y.len());
    for (p, q) in pts.iter().zip(y.iter()) {
        let e = a * (1.0 - p) / 2.0 + b * (1.0 + p) / 2.0;
        ensure!((q - e).abs() <= tol, "scale", "range [{}, {}]: {} maps to {}, should be {}", a, b, p, q, e);
        ctx.obs.add("points_scaled", 1);
    }
    ctx.nontrivial = Some(fnv(format!("{} {} {}", a, b, n).as_bytes()));
    ctx.sample = Some(format!("{} points onto [{}, {}]", pts.len(), a, b));
    Ok(())
}

fn sums(ctx: &mut Ctx) -> Res {
    let mut rng = ctx.rng.clone();
    let nu = 1 + rng.below(24);
    let nv = 1 + rng.below(24);
    let (wu, wv) = if rng.chance(0.5) {
        let g = |n| lib("gauss_quadrature_points", || gauss_quadrature_points(n, true));
        (g(nu)?.1, g(nv)?.1)
    } else {
        ((0..nu + 2).map(|_| rng.uni(-1.0, 2.0)).collect(), (0..nv + 2).map(|_| rng.uni(-1.0, 2.0)).collect())
    };
    let (m, n) = (wu.len(), wv.len());
    let t: Vec<Vec<f64>> = (0..m).map(|_| (0..n).map(|_| if rng.chance(0.1) { 0.0 } else { rng.gauss() }).collect()).collect();
    let seen = RefCell::new(vec![vec![0u32; n]; m]);
    let f = |i: usize, j: usize| {
        seen.borrow_mut()[i][j] += 1;
        t[i][j]
    };
    let reset = || seen.borrow_mut().iter_mut().for_each(|r| r.iter_mut().for_each(|x| *x = 0));
    let check = |what: &str, got: f64, us: std::ops::Range<usize>, vs: std::ops::Range<usize>, wts: u8| -> Res {
        let (mut e, mut a) = (0.0, 0.0f64);
        for i in us.clone() {
            for j in vs.clone() {
                let w = match wts {
                    0 => wu[i] * wv[j],
                    1 => wu[i],
                    _ => wv[j],
                };
                e += w * t[i][j];
                a += (w * t[i][j]).abs();
            }
        }
        ensure!((got - e).abs() <= 1e-13 * a + 1e-300, "sum", "{} over a {}x{} grid is {}, should be {}", what, m, n, got, e);
        // which points were looked at: none outside of the documented set
        for (i, r) in seen.borrow().iter().enumerate() {
            for (j, c) in r.iter().enumerate() {
                let inside = us.contains(&i) && vs.contains(&j);
                ensure!(inside || *c == 0, "sum-domain", "{} over a {}x{} grid evaluates the integrand at ({}, {})", what, m, n, i, j);
            }
        }
        Ok(())
    };
    reset();
    check("real_gauss_quad", lib("real_gauss_quad", || real_gauss_quad(&wu, &wv, f))?, 0..m, 0..n, 0)?;
    reset();
    check("real_gauss_quad_inner", lib("real_gauss_quad_inner", || real_gauss_quad_inner(&wu, &wv, f))?, 1..m - 1, 1..n - 1, 0)?;
    for e in 0..4 {
        reset();
        let g = lib("real_gauss_quad_edge", || real_gauss_quad_edge(&wu, &wv, e, f))?;
        match e {
            0 => check("edge 0", g, 1..m - 1, 0..1, 1)?,
            1 => check("edge 1", g, 1..m - 1, n - 1..n, 1)?,
            2 => check("edge 2", g, 0..1, 1..n - 1, 2)?,
            _ => check("edge 3", g, m - 1..m, 1..n - 1, 2)?,
        }
    }
    ctx.obs.add("sums", 6);
    ctx.nontrivial = Some(fnv(format!("{:?}", t).as_bytes()));
    ctx.sample = Some(format!("{}x{} table", m, n));
    Ok(())
}

fn run(ctx: &mut Ctx) -> Res {
    match ctx.kind {
        "rule" => {
            let n = ctx.idx as usize + 1;
            rule(ctx, n)
        }
        "scale" => scale(ctx),
        _ => sums(ctx),
    }
}
