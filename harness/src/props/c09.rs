//! Assembled matrix entries equal the exact integrals of the basis functions.
use crate::gen::*;
use crate::refmath::*;
use crate::structure::*;
use crate::util::*;
use crate::{Ctx, Kind, Prop};
use fem_2d::fem_domain::basis::HierCurlBasisFnSpace;
use fem_2d::fem_domain::domain::dof::basis_spec::BasisDir;
use fem_2d::fem_problem::linalg::sparse_matrix::SparseMatrix;
use fem_2d::fem_problem::linalg::GEP;
use fem_2d::prelude::*;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C09",
    kinds: &[Kind::new("mixed", 1200, 40000), Kind::new("layers", 400, 14000), Kind::new("high", 60, 2000), Kind::new("quadrature", 300, 8000), Kind::new("skewed", 1000, 30000), Kind::new("chains", 500, 12000)],
    run,
    threads: 8,
    rule: "random hp-meshes with random materials; every entry of both assembled matrices is compared with the sum of exact integrals over all overlapping pairs of functions (same elem, or ancestor and descendant), computed from geometry by a separate separable rule; mixed: any mesh; layers: few elems, many refinement layers; high: orders up to 10; skewed: orders up to 20 along one axis with few along the other, default numbers of points included; quadrature: the same problem with the default, the smallest sufficient and larger unequal numbers of points; non-trivial = a pair on different layers, distinct by domain",
    assumptions: &["quadrature of at least order + 1 points per direction (and at least 4)", "real parts of the materials"],
};

pub fn basis_fn(mesh: &Mesh, rects: &[Rect], bs: &fem_2d::fem_domain::domain::dof::basis_spec::BasisSpec) -> BasisFn {
    let _ = mesh;
    BasisFn { rect: rects[bs.elem_id], dir: if bs.dir == BasisDir::U { Dir::U } else { Dir::V }, i: bs.i as usize, j: bs.j as usize }
}

pub struct Exact {
    pub a: BTreeMap<[usize; 2], f64>,
    pub b: BTreeMap<[usize; 2], f64>,
    /// squared sizes of every degree of freedom, without cancellation
    pub na: Vec<f64>,
    pub nb: Vec<f64>,
    pub cond: f64,
    pub layered: usize,
    pub pairs: usize,
}

/// the exact matrices, from geometry only
pub fn exact(d: &Domain) -> Exact {
    let mesh = &d.mesh;
    let n = mesh.elems.len();
    let rects: Vec<Rect> = (0..n).map(|e| elem_rect(mesh, e)).collect();
    let paths: Vec<(usize, Vec<u8>)> = (0..n).map(|e| (mesh.elems[e].element.id, elem_path(mesh, e))).collect();
    let [pi, pj] = mesh.elems.iter().fold([1u8, 1], |m, e| [m[0].max(e.poly_orders.ni), m[1].max(e.poly_orders.nj)]);
    let rule = gauss(pi.max(pj) as usize + 2);
    let mut x = Exact { a: BTreeMap::new(), b: BTreeMap::new(), na: vec![0.0; d.dofs.len()], nb: vec![0.0; d.dofs.len()], cond: 0.0, layered: 0, pairs: 0 };
    for e in 0..n {
        for f in 0..n {
            // f is e itself or below it
            let below = paths[f].0 == paths[e].0 && paths[f].1.len() >= paths[e].1.len() && paths[f].1[..paths[e].1.len()] == paths[e].1[..];
            if !below {
                continue;
            }
            let mat = &mesh.elems[f].element.materials;
            for (k, p) in d.basis_specs[e].iter().enumerate() {
                let fp = basis_fn(mesh, &rects, p);
                let skip = if e == f { k } else { 0 };
                for q in d.basis_specs[f].iter().skip(skip) {
                    let fq = basis_fn(mesh, &rects, q);
                    let v = exact_pair(&fp, &fq, rects[f], &rule);
                    let (i, j) = (p.dof_id.unwrap(), q.dof_id.unwrap());
                    // both orders of an unequal pair inside of one degree of freedom count
                    let same_fn = e == f && p.elem_idx == q.elem_idx;
                    let m = if i == j && !same_fn { 2.0 } else { 1.0 };
                    let key = [i.min(j), i.max(j)];
                    *x.a.entry(key).or_insert(0.0) += m * v[0] / mat.mu_rel.re;
                    *x.b.entry(key).or_insert(0.0) += m * v[1] * mat.eps_rel.re;
                    x.pairs += 1;
                    if e != f {
                        x.layered += 1;
                    }
                    if same_fn {
                        x.na[i] += v[0] / mat.mu_rel.re;
                        x.nb[i] += v[1] * mat.eps_rel.re;
                        x.cond = x.cond.max(fp.cond());
                    }
                }
            }
        }
    }
    x
}

pub fn compare(x: &Exact, g: &GEP, dofs: usize, obs: &mut Obs, what: &str) -> Res {
    for (name, sm, ex, nn) in [("A", &g.a, &x.a, &x.na), ("B", &g.b, &x.b, &x.nb)] {
        ensure!(sm.dimension == dofs, "dimension", "{}: matrix {} has dimension {} for {} degrees of freedom", what, name, sm.dimension, dofs);
        let got: BTreeMap<[usize; 2], f64> = sm.iter_upper_tri().map(|(k, v)| (k, v)).collect();
        for k in got.keys().chain(ex.keys()) {
            let (v, e) = (got.get(k).copied().unwrap_or(0.0), ex.get(k).copied().unwrap_or(0.0));
            let scale = (nn[k[0]] * nn[k[1]]).sqrt();
            let err = (v - e).abs() / scale;
            ensure!(
                err <= 1e-9 + 100.0 * x.cond,
                format!("entry:{}", name),
                "{}: {}[{}, {}] is {:e}, exactly {:e} (sizes {:e} {:e})",
                what, name, k[0], k[1], v, e, nn[k[0]], nn[k[1]]
            );
            obs.max("relative_error", err);
            obs.add("entries_compared", 1);
        }
    }
    Ok(())
}

pub fn assemble(d: &Domain, glq: Option<[usize; 2]>) -> Res<GEP> {
    assemble_with::<HierPoly>(d, glq)
}

pub fn assemble_with<S: HierCurlBasisFnSpace>(d: &Domain, glq: Option<[usize; 2]>) -> Res<GEP> {
    lib("galerkin_sample_gep_hcurl", || galerkin_sample_gep_hcurl::<S, CurlCurl, L2Inner>(d, glq))?.or_viol("galerkin_sample_gep_hcurl")
}

/// numbers of points that are enough
pub fn enough(mesh: &Mesh) -> [usize; 2] {
    let mut o = [1, 1];
    for e in &mesh.elems {
        o = [o[0].max(e.poly_orders.ni as usize), o[1].max(e.poly_orders.nj as usize)];
    }
    [(o[0] + 1).max(4), (o[1] + 1).max(4)]
}

pub fn entries(sm: &SparseMatrix) -> BTreeMap<[usize; 2], f64> {
    sm.iter_upper_tri().collect()
}

fn run(ctx: &mut Ctx) -> Res {
    let kind = ctx.kind;
    case::<HierPoly>(ctx, kind)
}

pub fn case<S: HierCurlBasisFnSpace>(ctx: &mut Ctx, kind: &str) -> Res {
    let path = ctx.scratch_file("mesh.json");
    let mut rng = ctx.rng.clone();
    let materials = *rng.pick(&[Materials4::RandomReal, Materials4::RandomReal, Materials4::RandomComplex, Materials4::Unit]);
    let (bo, ho, om) = match kind {
        "layers" => (BaseOpts { max_elems: 2, materials, ..Default::default() }, HistOpts { max_elems: 50, max_ops: 10, max_depth: 9 }, OrderMode::Mixed(2)),
        "high" => (BaseOpts { max_elems: 2, materials, ..Default::default() }, HistOpts { max_elems: 5, max_ops: 1, max_depth: 3 }, OrderMode::Mixed(10)),
        _ => (BaseOpts { materials, ..Default::default() }, HistOpts { max_elems: 30, max_ops: 4, max_depth: 5 }, OrderMode::Mixed(4)),
    };
    let (mesh, desc) = match kind {
        "chains" => rand_chain(&mut rng, &path, &BaseOpts { max_elems: 3, materials, ..Default::default() }, 16, 160, OrderMode::Mixed(2))?,
        "skewed" => {
            let p = 3 + rng.below(18) as u8;
            rand_mesh(&mut rng, &path, &BaseOpts { max_elems: 3, ..bo }, &HistOpts { max_elems: 9, max_ops: 2, max_depth: 3 }, OrderMode::Skewed(p))?
        }
        _ => rand_mesh(&mut rng, &path, &bo, &ho, om)?,
    };
    let d = domain_of(mesh)?;
    if d.dofs.is_empty() {
        ctx.obs.add("empty", 1);
        return Ok(());
    }
    let x = exact(&d);
    let min = enough(&d.mesh);
    let mut settings = vec![match rng.below(3) {
        0 => None,
        1 => Some(min),
        _ => Some([min[0] + rng.below(8), min[1] + rng.below(8)]),
    }];
    if kind == "quadrature" {
        settings = vec![None, Some(min), Some([min[0] + rng.below(4), min[1] + 1 + rng.below(20)]), Some([min[0] + 1 + rng.below(20), min[1] + rng.below(4)])];
    }
    for s in settings {
        let g = assemble_with::<S>(&d, s)?;
        compare(&x, &g, d.dofs.len(), &mut ctx.obs, &format!("quadrature {:?}, {}", s, desc))?;
        ctx.obs.add("assemblies", 1);
    }
    ctx.obs.add("function_pairs", x.pairs as u64);
    ctx.obs.add("pairs_on_different_layers", x.layered as u64);
    ctx.obs.max("dofs", d.dofs.len() as f64);
    if x.layered > 0 {
        ctx.nontrivial = Some(fnv(desc.as_bytes()));
    }
    ctx.sample = Some(format!("{} | {} dofs, {} pairs of functions, {} on different layers", desc, d.dofs.len(), x.pairs, x.layered));
    Ok(())
}
