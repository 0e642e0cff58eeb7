//! Tangential continuity across every shared side, and the wall condition.
use crate::gen::*;
use crate::structure::*;
use crate::util::*;
use crate::vtk::*;
use crate::{Ctx, Kind, Prop};
use fem_2d::fem_domain::basis::HierCurlBasisFnSpace;
use fem_2d::fem_domain::domain::fields::UniformFieldSpace;
use fem_2d::prelude::*;

pub const PROP: Prop = Prop {
    id: "C07",
    kinds: &[Kind::new("mixed", 15000, 400000), Kind::new("layers", 5000, 130000), Kind::new("high", 1600, 40000), Kind::new("chains", 2500, 60000)],
    run,
    threads: 8,
    rule: "random coefficient vectors on random hp-meshes; the fields are exported on grids of up to 13 points per direction and read back; on every pair of unrefined elements that share (part of) a side, the tangential component along the common part, interpolated from each element's own grid values, must agree at the coincident grid points and in between; on walls it must vanish; non-trivial = a shared side between elements of different size or orders, distinct by mesh and coefficients",
    assumptions: &["fields are polynomials of at most the largest expansion order on every element, so their values on a side follow from enough grid values", "file values are rounded to 15 decimals"],
};

/// value at x in [-1, 1] of the polynomial through equidistant values
fn interp(vals: &[f64], x: f64) -> f64 {
    let n = vals.len();
    let mut w = 1.0;
    let (mut num, mut den) = (0.0, 0.0);
    for (k, v) in vals.iter().enumerate() {
        let xk = -1.0 + 2.0 * k as f64 / (n - 1) as f64;
        if (x - xk).abs() < 1e-12 {
            return *v;
        }
        let c = w / (x - xk);
        num += c * v;
        den += c;
        w *= -((n - 1 - k) as f64) / (k + 1) as f64;
    }
    num / den
}

fn run(ctx: &mut Ctx) -> Res {
    let kind = ctx.kind;
    case::<HierPoly>(ctx, kind)
}

pub fn case<S: HierCurlBasisFnSpace>(ctx: &mut Ctx, kind: &str) -> Res {
    let path = ctx.scratch_file("mesh.json");
    let mut rng = ctx.rng.clone();
    let (bo, ho, om, dens) = match kind {
        "layers" => (BaseOpts::default(), HistOpts { max_elems: 70, max_ops: 10, max_depth: 9 }, OrderMode::Mixed(2), 5),
        "high" if rng.chance(0.5) => {
            let p = 8 + rng.below(13) as u8;
            (BaseOpts { max_elems: 3, ..Default::default() }, HistOpts { max_elems: 14, max_ops: 2, max_depth: 3 }, OrderMode::Skewed(p), 13)
        }
        "high" => (BaseOpts { max_elems: 3, ..Default::default() }, HistOpts { max_elems: 14, max_ops: 2, max_depth: 3 }, OrderMode::Mixed(9), 13),
        _ => (BaseOpts::default(), HistOpts { max_elems: 40, max_ops: 5, max_depth: 6 }, OrderMode::Mixed(4), 7),
    };
    let (mesh, desc) = if kind == "chains" {
        rand_chain(&mut rng, &path, &bo, 16, 200, OrderMode::Mixed(3))?
    } else {
        rand_mesh(&mut rng, &path, &bo, &ho, om)?
    };
    let d = domain_of(mesh)?;
    if d.dofs.is_empty() {
        return Ok(());
    }
    let n = d.dofs.len();
    // all functions, a few, or a single one
    let mode = rng.below(4);
    let mut c: Vec<f64> = (0..n).map(|_| rng.uni(-1.0, 1.0)).collect();
    if mode == 1 {
        for x in c.iter_mut() {
            if rng.chance(0.9) {
                *x = 0.0;
            }
        }
    } else if mode == 2 {
        let k = rng.below(n);
        c.iter_mut().enumerate().for_each(|(i, x)| *x = if i == k { 1.0 } else { 0.0 });
    }
    // points must be enough for every polynomial on a side
    let top = d.mesh.elems.iter().map(|e| e.poly_orders.ni.max(e.poly_orders.nj)).max().unwrap() as usize;
    let dens = [dens.max(top + 2), dens.max(top + 2) + rng.below(2)];
    let mut ufs = lib("UniformFieldSpace::new", || UniformFieldSpace::new(&d, dens))?;
    let names = lib("xy_fields", || ufs.xy_fields::<S>("f", c.clone()))?.or_viol("xy_fields")?;
    let out = ctx.scratch_file("f.vtk");
    let v = export(&ufs, &names, &out)?;
    let grid = locate(&v, &d.mesh, dens)?;
    let col = [column(&v, &names[0])?, column(&v, &names[1])?];
    let leaves: Vec<usize> = grid.keys().copied().collect();
    let rects: Vec<Rect> = leaves.iter().map(|e| elem_rect(&d.mesh, *e)).collect();
    let bases: Vec<Rect> = (0..d.mesh.elements.len()).map(|e| base_rect(&d.mesh, e)).collect();
    let size: Vec<f64> = leaves
        .iter()
        .map(|e| grid[e].iter().flatten().map(|p| col[0][*p].abs().max(col[1][*p].abs())).fold(0.0, f64::max))
        .collect();
    // tangential values on a side: axis that is constant there, upper side or lower
    let side = |k: usize, ax: usize, up: bool| -> Vec<f64> {
        let g = &grid[&leaves[k]];
        let at = if up { dens[ax] - 1 } else { 0 };
        (0..dens[1 - ax]).map(|t| col[1 - ax][if ax == 0 { g[at][t] } else { g[t][at] }]).collect()
    };
    let gap = base_gap(&d.mesh);
    let mut uneven = 0;
    for k in 0..leaves.len() {
        for ax in 0..2 {
            let t = 1 - ax;
            for up in [false, true] {
                let line = rects[k][ax][up as usize];
                let mine = side(k, ax, up);
                let [a, b] = rects[k][t];
                let mid = (a + b) / 2.0;
                let h = rects[k][ax][1] - rects[k][ax][0];
                let beyond = if up { line + h.min(gap) * 0.25 } else { line - h.min(gap) * 0.25 };
                let probe = if ax == 0 { [beyond, mid] } else { [mid, beyond] };
                if !in_domain(&bases, probe[0], probe[1]) {
                    for m in &mine {
                        ensure!(
                            m.abs() <= 1e-9 * size[k] + 2e-15,
                            "wall",
                            "{}: element {} ({:?}): tangential component {:e} on the wall at {} (field up to {:e})",
                            desc, leaves[k], rects[k], m, line, size[k]
                        );
                    }
                    ctx.obs.add("wall_values", mine.len() as u64);
                    continue;
                }
                if !up {
                    continue;
                }
                let mut covered = 0.0;
                for l in 0..leaves.len() {
                    let [c0, c1] = rects[l][t];
                    let (lo, hi) = (a.max(c0), b.min(c1));
                    let s = (b - a).min(c1 - c0);
                    if (rects[l][ax][0] - line).abs() > 1e-9 * h.min(rects[l][ax][1] - rects[l][ax][0]) + 1e-15 * line.abs() || hi - lo < 1e-6 * s {
                        continue;
                    }
                    covered += hi - lo;
                    let theirs = side(l, ax, false);
                    let tol = 1e-9 * size[k].max(size[l]) + 2e-15 * (1 << dens[t].min(16)) as f64;
                    let np = 2 * dens[t] - 1;
                    for q in 0..np {
                        let f = q as f64 / (np - 1) as f64;
                        let p = lo + f * (hi - lo);
                        let (x, y) = (interp(&mine, (2.0 * p - a - b) / (b - a)), interp(&theirs, (2.0 * p - c0 - c1) / (c1 - c0)));
                        ctx.obs.max("jump", (x - y).abs() / size[k].max(size[l]).max(1e-300));
                        ensure!(
                            (x - y).abs() <= tol,
                            "tangential-jump",
                            "{}: side at {} between elements {} {:?} and {} {:?}: tangential component {:e} against {:e} at {} (coefficients mode {})",
                            desc, line, leaves[k], rects[k], leaves[l], rects[l], x, y, p, mode
                        );
                        ctx.obs.add("points_compared", 1);
                    }
                    ctx.obs.add("shared_sides", 1);
                    let (oe, of) = (&d.mesh.elems[leaves[k]], &d.mesh.elems[leaves[l]]);
                    if (c1 - c0 - (b - a)).abs() > 1e-9 * (b - a) || oe.poly_orders != of.poly_orders {
                        uneven += 1;
                    }
                }
                if (covered - (b - a)).abs() > 1e-6 * (b - a) {
                    ctx.obs.add("sides_not_covered_by_neighbours", 1);
                }
            }
        }
    }
    ctx.obs.add("uneven_sides", uneven);
    ctx.obs.max("dofs", n as f64);
    if uneven > 0 {
        ctx.nontrivial = Some(fnv(format!("{} {:?}", desc, c).as_bytes()));
    }
    ctx.sample = Some(format!("{} | {} dofs, coefficient mode {}, {} uneven sides", desc, n, mode, uneven));
    Ok(())
}
