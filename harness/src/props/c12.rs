//! Sampled basis functions equal their mathematical definition everywhere.
use crate::gen::*;
use crate::refmath::*;
use crate::structure::*;
use crate::util::*;
use crate::{Ctx, Kind, Prop};
use fem_2d::fem_domain::basis::{BasisFnSampler, HierBasisFn, HierCurlBasisFn, HierCurlBasisFnSpace};
use fem_2d::fem_domain::domain::mesh::space::V2D;
use fem_2d::prelude::*;

pub const PROP: Prop = Prop {
    id: "C12",
    kinds: &[Kind::new("mesh", 12000, 300000), Kind::new("deep", 4000, 100000), Kind::new("space", 4000, 100000)],
    run,
    threads: 8,
    rule: "random elems of random refined meshes, alone and over random descendants (up to the full depth of the tree), at Gauss points, interval ends and random points, with and without second derivatives; every function, direction and order is compared with its closed form; non-trivial = sampled over a proper descendant or space of order > 1, distinct by rectangle, descendant range and points",
    assumptions: &["reference functions in closed form, evaluated in double precision"],
};

/// range of an elem in the parametric space of the elem whose path is `from`
pub fn path_range(path: &[u8]) -> Rect {
    path.iter().fold([[-1.0, 1.0], [-1.0, 1.0]], |r, c| sub_rect(r, *c))
}

/// an elem with a random descendant (None for a sample without one)
pub fn pick_pair(rng: &mut Rng, mesh: &Mesh) -> (usize, Option<usize>) {
    let d = rng.below(mesh.elems.len());
    let st = mesh.elems[d].loc_stack();
    if st.is_empty() || rng.chance(0.2) {
        return (d, if rng.chance(0.4) { Some(d) } else { None });
    }
    (st[rng.below(st.len())].0, Some(d))
}

pub fn rand_points(rng: &mut Rng) -> Vec<f64> {
    match rng.below(5) {
        0 => {
            let n = 1 + rng.below(12);
            gauss(n).0
        }
        1 => {
            let n = 1 + rng.below(12);
            let mut p = gauss(n).0;
            p.insert(0, -1.0);
            p.push(1.0);
            p
        }
        2 => vec![-1.0, 0.0, 1.0],
        3 => {
            let n = 2 + rng.below(6);
            (0..n).map(|i| -1.0 + 2.0 * i as f64 / (n - 1) as f64).collect()
        }
        _ => (0..1 + rng.below(6)).map(|_| rng.uni(-1.0, 1.0)).collect(),
    }
}

fn space(ctx: &mut Ctx) -> Res {
    let mut rng = ctx.rng.clone();
    let n_max = rng.below(25);
    let pts = rand_points(&mut rng);
    let d2 = rng.chance(0.5);
    let s: HierPoly = lib("HierPoly::with", || HierPoly::with(n_max, &pts, d2))?;
    for n in 0..=n_max {
        for (k, x) in pts.iter().enumerate() {
            let nn = n as f64;
            let mut list = vec![
                ("N", s.norm(n, k), norm(n, *x), 1.0),
                ("N'", s.norm_d1(n, k), norm_d1(n, *x), 1.0 + nn),
                ("T", s.tang(n, k), tang(n, *x), 1.0),
                ("T'", s.tang_d1(n, k), tang_d1(n, *x), 1.0 + nn),
            ];
            if d2 {
                list.push(("N''", s.norm_d2(n, k), norm_d2(n, *x), 1.0 + nn * nn));
                list.push(("T''", s.tang_d2(n, k), tang_d2(n, *x), 1.0 + nn * nn));
            }
            for (name, g, e, sc) in list {
                ensure!((g - e).abs() <= 1e-13 * sc, "space", "{}_{}({}) is {}, should be {}", name, n, x, g, e);
                ctx.obs.add("values_compared", 1);
            }
            if x.abs() == 1.0 {
                let e = if n == 0 { 1.0 - x } else if n == 1 { 1.0 + x } else { 0.0 };
                ensure!((s.tang(n, k) - e).abs() <= 1e-14, "end-values", "T_{}({}) is {}", n, x, s.tang(n, k));
                ctx.obs.add("end_values", 1);
            }
        }
    }
    if n_max > 1 {
        ctx.nontrivial = Some(fnv(format!("{} {:?} {}", n_max, pts, d2).as_bytes()));
    }
    ctx.sample = Some(format!("orders up to {} at {} points, second derivatives {}", n_max, pts.len(), d2));
    Ok(())
}

fn run(ctx: &mut Ctx) -> Res {
    if ctx.kind == "space" {
        return space(ctx);
    }
    let kind = ctx.kind;
    case::<HierPoly>(ctx, kind)
}

pub fn case<S: HierCurlBasisFnSpace>(ctx: &mut Ctx, kind: &str) -> Res {
    let path = ctx.scratch_file("mesh.json");
    let mut rng = ctx.rng.clone();
    let deep = kind == "deep";
    let spec = base_spec(&mut rng, &BaseOpts::default());
    let mut mesh = spec.load(&path)?;
    if deep && ctx.idx % 2 == 0 {
        chain_history(&mut rng, &mut mesh, 24, 160)?;
    } else {
        refine_history(&mut rng, &mut mesh, &HistOpts { max_elems: 120, max_ops: if deep { 14 } else { 5 }, max_depth: if deep { 16 } else { 6 } })?;
    }
    for _ in 0..3 {
        let (e, d) = pick_pair(&mut rng, &mesh);
        let pts = [rand_points(&mut rng), rand_points(&mut rng)];
        let cap = if rng.chance(0.2) { 21 } else { 7 };
        let n_max = [rng.below(cap), rng.below(7)];
        let d2 = rng.chance(0.5);
        let r = elem_rect(&mesh, e);
        let h = [(r[0][1] - r[0][0]) / 2.0, (r[1][1] - r[1][0]) / 2.0];
        let (pe, pd) = (elem_path(&mesh, e), elem_path(&mesh, d.unwrap_or(e)));
        let range = path_range(&pd[pe.len()..]);
        // rounding of the corner coordinates enters the size of the elem
        let cond = [0, 1].map(|k| 1e-15 * r[k][0].abs().max(r[k][1].abs()) / h[k]);
        let what = format!("elem {} {:?} over {:?} (range {:?})", e, r, d, range);

        // through the constructor with arbitrary points, and through a sampler with its own Gauss points
        let via_sampler = rng.chance(0.4);
        let (bf, pts): (HierCurlBasisFn<S>, [Vec<f64>; 2]) = if via_sampler {
            let (nu, nv) = (1 + rng.below(9), 1 + rng.below(9));
            let (mut s, w): (BasisFnSampler<HierCurlBasisFn<S>>, _) = lib("BasisFnSampler::with", || BasisFnSampler::with(n_max[0], n_max[1], Some(nu), Some(nv), d2))?;
            let g = |n: usize| {
                let (mut p, _) = gauss(n);
                if d2 {
                    p.insert(0, -1.0);
                    p.push(1.0);
                }
                p
            };
            let p = [g(nu), g(nv)];
            ensure!(w[0].len() == p[0].len() && w[1].len() == p[1].len(), "sampler", "{} and {} weights for {} and {} points", w[0].len(), w[1].len(), p[0].len(), p[1].len());
            let b = lib("sample_basis_fn", || s.sample_basis_fn(&mesh.elems[e], d.map(|d| &mesh.elems[d])))?;
            ((*b).clone(), p)
        } else {
            let b = lib("defined_over", || HierCurlBasisFn::defined_over(&mesh.elems[e], d.map(|d| &mesh.elems[d]), [&pts[0], &pts[1]], n_max, d2))?;
            (b, pts)
        };
        ensure!(bf.jac.len() == pts[0].len() && bf.jac.iter().all(|r| r.len() == pts[1].len()), "grid", "{}: wrong grid of transformations", what);
        // scales
        let sc = [(range[0][1] - range[0][0]) / 2.0, (range[1][1] - range[1][0]) / 2.0];
        let es = [0, 1, 2, 3].map(|k| bf.edge_glq_scale(k));
        ensure!(
            close(bf.u_glq_scale(), sc[0], 1e-14) && close(bf.v_glq_scale(), sc[1], 1e-14) && close(bf.glq_scale(), sc[0] * sc[1], 1e-14)
                && es.iter().zip([sc[0], sc[0], sc[1], sc[1]]).all(|(a, b)| close(*a, b, 1e-14))
                && close(bf.deriv_scale()[0], sc[0], 1e-14) && close(bf.deriv_scale()[1], sc[1], 1e-14)
                && close(bf.para_scale[0], sc[0], 1e-14) && close(bf.para_scale[1], sc[1], 1e-14),
            "scales",
            "{}: scales {} {} {} {:?}, relative size {:?}",
            what, bf.u_glq_scale(), bf.v_glq_scale(), bf.glq_scale(), es, sc
        );
        let one = V2D::from([1.0, 1.0]);
        let ps = V2D::from([rng.uni(0.1, 2.0), rng.uni(0.1, 2.0)]);
        for m in 0..pts[0].len() {
            for n in 0..pts[1].len() {
                let u = range[0][0] + sc[0] * (pts[0][m] + 1.0);
                let v = range[1][0] + sc[1] * (pts[1][n] + 1.0);
                let j = &bf.jac[m][n];
                let ji = &bf.jac_inv[m][n];
                let t = |a: f64, b: f64, c: f64| (a - b).abs() <= (1e-13 + 8.0 * c) * b.abs();
                ensure!(
                    t(j.u[0], h[0], cond[0]) && t(j.v[1], h[1], cond[1]) && j.u[1] == 0.0 && j.v[0] == 0.0
                        && t(ji.u[0], 1.0 / h[0], cond[0]) && t(ji.v[1], 1.0 / h[1], cond[1]) && ji.u[1].abs() == 0.0 && ji.v[0].abs() == 0.0
                        && t(bf.det_jac[m][n], h[0] * h[1], cond[0] + cond[1]) && t(bf.sample_scale([m, n]), h[0] * h[1], cond[0] + cond[1]),
                    "transformation",
                    "{}: transformation {:?} inverse {:?} det {}, half sizes {:?}",
                    what, j, ji, bf.det_jac[m][n], h
                );
                let (uv, vu, mx) = (bf.uv_ratio([m, n]), bf.vu_ratio([m, n]), bf.max_uv_ratio([m, n]));
                let c2 = cond[0] + cond[1];
                ensure!(
                    t(uv, h[0] / h[1], c2) && t(vu, h[1] / h[0], c2) && t(mx, (h[0] / h[1]).max(h[1] / h[0]), c2),
                    "ratios",
                    "{}: ratios {} {} {}, half sizes {:?}",
                    what, uv, vu, mx, h
                );
                for i in 0..=n_max[0] {
                    for jj in 0..=n_max[1] {
                        let (fi, fj) = (i as f64, jj as f64);
                        let base = 1e-12 + 8.0 * c2;
                        let cmp = |name: &str, g: V2D, e: [f64; 2], size: f64| -> Res {
                            ensure!(
                                (g.x() - e[0]).abs() <= base * size && (g.y() - e[1]).abs() <= base * size,
                                format!("value:{}", name),
                                "{}: {}[{},{}] at ({}, {}) is ({}, {}), should be ({}, {})",
                                what, name, i, jj, u, v, g.x(), g.y(), e[0], e[1]
                            );
                            Ok(())
                        };
                        let at = [m, n];
                        let o = [i, jj];
                        let (a, b) = (1.0 / h[0], 1.0 / h[1]);
                        cmp("f_u", bf.f_u(o, at), [a * norm(i, u) * tang(jj, v), 0.0], 2.0 * a)?;
                        cmp("f_v", bf.f_v(o, at), [0.0, b * tang(i, u) * norm(jj, v)], 2.0 * b)?;
                        for (p, s) in [("", &one), (" scaled", &ps)] {
                            cmp(&format!("f_u_d1{}", p), bf.f_u_d1(o, at, s), [a * norm(i, u) * tang_d1(jj, v) * s[0], 0.0], 2.0 * a * (1.0 + fj))?;
                            cmp(&format!("f_v_d1{}", p), bf.f_v_d1(o, at, s), [0.0, b * tang_d1(i, u) * norm(jj, v) * s[1]], 2.0 * b * (1.0 + fi))?;
                            let dd = s[0] * s[1];
                            cmp(&format!("f_u_dd{}", p), bf.f_u_dd(o, at, s), [a * norm_d1(i, u) * tang_d1(jj, v) * dd, 0.0], 4.0 * a * (1.0 + fi) * (1.0 + fj))?;
                            cmp(&format!("f_v_dd{}", p), bf.f_v_dd(o, at, s), [0.0, b * tang_d1(i, u) * norm_d1(jj, v) * dd], 4.0 * b * (1.0 + fi) * (1.0 + fj))?;
                            if d2 {
                                cmp(&format!("f_u_d2{}", p), bf.f_u_d2(o, at, s), [a * norm(i, u) * tang_d2(jj, v) * s[0] * s[0], 0.0], 4.0 * a * (1.0 + fj * fj))?;
                                cmp(&format!("f_v_d2{}", p), bf.f_v_d2(o, at, s), [0.0, b * tang_d2(i, u) * norm(jj, v) * s[1] * s[1]], 4.0 * b * (1.0 + fi * fi))?;
                            }
                        }
                        ctx.obs.add("functions_compared", 1);
                    }
                }
            }
        }
        ctx.obs.add("samples", 1);
        if pd.len() > pe.len() {
            ctx.obs.max("layers_between", (pd.len() - pe.len()) as f64);
            ctx.obs.add("over_descendants", 1);
            ctx.nontrivial = Some(fnv(format!("{:?} {:?} {:?}", r, range, pts).as_bytes()));
        }
        ctx.sample = Some(what);
    }
    Ok(())
}
