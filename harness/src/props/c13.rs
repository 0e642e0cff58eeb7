//! Integration by parts agrees with direct integration.
use super::c12::pick_pair;
use crate::gen::*;
use crate::refmath::*;
use crate::structure::*;
use crate::util::*;
use crate::{Ctx, Kind, Prop};
use fem_2d::fem_domain::basis::{BasisFnSampler, HierCurlBasisFn, HierCurlBasisFnSpace};
use fem_2d::fem_domain::domain::dof::basis_spec::BasisDir;
use fem_2d::fem_problem::integration::{HierCurlIntegral, IntegralResult};
use fem_2d::prelude::*;

pub const PROP: Prop = Prop {
    id: "C13",
    kinds: &[Kind::new("pairs", 30000, 800000), Kind::new("result", 200, 2000)],
    run,
    threads: 8,
    rule: "random pairs of functions on an elem or on an ancestor and a descendant (either as first argument), random materials; by-parts total, direct total and the exact value of the integral are compared; non-trivial = an integral that is not zero, distinct by the pair and its geometry",
    assumptions: &["direct integration without, by-parts with end points in the point set, as the library documents"],
};

fn parts(r: &IntegralResult) -> (f64, [f64; 4]) {
    (r.get_face(), r.get_edges())
}

fn result(ctx: &mut Ctx) -> Res {
    let mut rng = ctx.rng.clone();
    let f = rng.gauss() * 10f64.powi(rng.range(-6, 6) as i32);
    let e = [rng.gauss(), rng.gauss(), rng.gauss(), rng.gauss()];
    let full = lib("IntegralResult", || (IntegralResult::Full(f).full_solution(), parts(&IntegralResult::Full(f))))?;
    ensure!(full.0 == f && full.1 == (f, [0.0; 4]), "accessors", "Full({}) gives {:?}", f, full);
    let bp = lib("IntegralResult", || (IntegralResult::ByParts(f, e).full_solution(), parts(&IntegralResult::ByParts(f, e)), IntegralResult::ByParts(f, e).unwrap_parts()))?;
    let s = f + e.iter().sum::<f64>();
    ensure!(close(bp.0, s, 1e-14 * (f.abs() + 8.0)) && bp.1 == (f, e) && bp.2 == (f, e), "accessors", "ByParts({}, {:?}) gives {:?}", f, e, bp);
    ctx.nontrivial = Some(fnv(format!("{} {:?}", f, e).as_bytes()));
    ctx.sample = Some(format!("ByParts({}, {:?})", f, e));
    ctx.obs.add("results", 2);
    Ok(())
}

fn run(ctx: &mut Ctx) -> Res {
    if ctx.kind == "result" {
        return result(ctx);
    }
    case::<HierPoly>(ctx)
}

pub fn case<F: HierCurlBasisFnSpace>(ctx: &mut Ctx) -> Res {
    let path = ctx.scratch_file("mesh.json");
    let mut rng = ctx.rng.clone();
    let materials = *rng.pick(&[Materials4::Unit, Materials4::RandomReal, Materials4::RandomComplex]);
    let spec = base_spec(&mut rng, &BaseOpts { materials, ..Default::default() });
    let mut mesh = spec.load(&path)?;
    refine_history(&mut rng, &mut mesh, &HistOpts { max_elems: 60, max_ops: 6, max_depth: 8 })?;
    // each axis has a highest order and a number of points of its own
    let n_max = [1 + rng.below(6), 1 + rng.below(6)];
    let np = n_max.map(|n| n.max(2) + 3 + rng.below(5));
    let deep = np[0].max(np[1]);
    let (mut direct, w0): (BasisFnSampler<HierCurlBasisFn<F>>, _) = lib("BasisFnSampler::with", || BasisFnSampler::with(n_max[0], n_max[1], Some(np[0]), Some(np[1]), false))?;
    let (mut by_parts, w1): (BasisFnSampler<HierCurlBasisFn<F>>, _) = lib("BasisFnSampler::with", || BasisFnSampler::with(n_max[0], n_max[1], Some(np[0]), Some(np[1]), true))?;
    let rule = gauss(deep);
    for _ in 0..4 {
        let (e, d) = pick_pair(&mut rng, &mesh);
        let de = d.unwrap_or(e);
        let mats = mesh.elems[de].get_materials().clone();
        let sample = |s: &mut BasisFnSampler<HierCurlBasisFn<F>>| -> Res<_> {
            let a = lib("sample_basis_fn", || s.sample_basis_fn(&mesh.elems[e], d.map(|d| &mesh.elems[d])))?;
            let b = lib("sample_basis_fn", || s.sample_basis_fn(&mesh.elems[de], None))?;
            Ok((a, b))
        };
        let (da, db) = sample(&mut direct)?;
        let (pa, pb) = sample(&mut by_parts)?;
        let rects = [elem_rect(&mesh, e), elem_rect(&mesh, de)];
        for _ in 0..12 {
            let dirs = [*rng.pick(&[BasisDir::U, BasisDir::V]), *rng.pick(&[BasisDir::U, BasisDir::V])];
            let o = [[rng.below(n_max[0] + 1), rng.below(n_max[1] + 1)], [rng.below(n_max[0] + 1), rng.below(n_max[1] + 1)]];
            // the ancestor first, or the descendant first
            let flip = rng.chance(0.5);
            let f = |k: usize| BasisFn { rect: rects[k], dir: if dirs[k] == BasisDir::U { Dir::U } else { Dir::V }, i: o[k][0], j: o[k][1] };
            let exact = exact_pair(&f(0), &f(1), rects[1], &rule);
            let norms = [exact_pair(&f(0), &f(0), rects[1], &rule), exact_pair(&f(1), &f(1), rects[1], &rule)];
            let tol = 1e-10 + 20.0 * (f(0).cond() + f(1).cond());
            // by parts second derivatives, and values rounded to zero, of functions of this size meet: their rounding
            // does not shrink where the curls happen to be small
            let h = rects.map(|r| (r[0][1] - r[0][0]).min(r[1][1] - r[1][0]) / 2.0);
            let n = o.iter().flatten().map(|n| n + 1).max().unwrap() as f64;
            let rounding = 1e-15 * n.powi(4) / (h[0] * h[1]) * (norms[0][1] * norms[1][1]).sqrt();
            let what = format!("{:?}{:?} on elem {} {:?} with {:?}{:?} on elem {} {:?}{}", dirs[0], o[0], e, rects[0], dirs[1], o[1], de, rects[1], if flip { " (second first)" } else { "" });
            macro_rules! both {
                ($t:ty, $k:expr, $mat:expr) => {{
                    let i0 = <$t>::with_weights(&w0[0], &w0[1]);
                    let i1 = <$t>::with_weights(&w1[0], &w1[1]);
                    let (full, bp) = lib(stringify!($t), || {
                        if flip {
                            (i0.integrate(dirs[1], dirs[0], o[1], o[0], &db, &da, &mats), i1.integrate_by_parts(dirs[1], dirs[0], o[1], o[0], &pb, &pa, &mats))
                        } else {
                            (i0.integrate(dirs[0], dirs[1], o[0], o[1], &da, &db, &mats), i1.integrate_by_parts(dirs[0], dirs[1], o[0], o[1], &pa, &pb, &mats))
                        }
                    })?;
                    let (face, edges) = parts(&bp);
                    let (dface, dedges) = parts(&full);
                    let (bt, dt) = (bp.full_solution(), full.full_solution());
                    let size = face.abs() + edges.iter().map(|x| x.abs()).sum::<f64>();
                    let scale = size + dt.abs() + $mat.abs() * (norms[0][$k] * norms[1][$k]).sqrt();
                    ensure!(close(bt, face + edges.iter().sum::<f64>(), 1e-13 * scale) && close(dt, dface + dedges.iter().sum::<f64>(), 1e-13 * scale), concat!("accessors:", stringify!($t)), "{}: parts {} {:?}, total {}", what, face, edges, bt);
                    ensure!(close(dt, $mat * exact[$k], tol * scale), concat!("direct:", stringify!($t)), "{}: direct integral {}, exact {}", what, dt, $mat * exact[$k]);
                    ensure!(close(bt, dt, tol * scale + $mat.abs() * [rounding, 0.0][$k]), concat!("by-parts:", stringify!($t)), "{}: by parts {} = {} + {:?}, direct {} (scale {}, tolerance {})", what, bt, face, edges, dt, scale, tol);
                    ctx.obs.add("integrals_compared", 1);
                    if dt.abs() > 1e-9 * scale {
                        ctx.obs.add("nonzero_integrals", 1);
                        ctx.nontrivial = Some(fnv(what.as_bytes()));
                    }
                    if edges.iter().any(|x| x.abs() > 1e-9 * scale) {
                        ctx.obs.add("with_edge_terms", 1);
                    }
                }};
            }
            both!(CurlCurl, 0, (1.0 / mats.mu_rel.re));
            both!(L2Inner, 1, mats.eps_rel.re);
            if e != de {
                ctx.obs.add("across_layers", 2);
            }
            if np[0] != np[1] {
                ctx.obs.add("unequal_point_counts", 2);
            }
            ctx.sample = Some(what);
        }
    }
    Ok(())
}
