//! The assembled eigenproblem is always well posed.
use super::c09::{assemble, enough};
use crate::gen::*;
use crate::refmath::*;
use crate::util::*;
use crate::{Ctx, Kind, Prop};
use nalgebra::DMatrix;

pub const PROP: Prop = Prop {
    id: "C08",
    kinds: &[Kind::new("mixed", 1500, 40000), Kind::new("layers", 500, 14000), Kind::new("large", 12, 300), Kind::new("skewed", 1500, 40000), Kind::new("chains", 400, 10000)],
    run,
    threads: 8,
    rule: "random hp-meshes (orders up to 4, or up to 2 with many refinement layers); finiteness, symmetry, size, positive diagonals and the extreme eigenvalues of both matrices after scaling their diagonals to one; non-trivial = a refined mesh with edge-type functions, distinct by domain",
    assumptions: &["eigenvalues of dense symmetric matrices from nalgebra", "orders up to 4, where the monomial based functions are not yet dependent up to rounding"],
};

fn run(ctx: &mut Ctx) -> Res {
    let path = ctx.scratch_file("mesh.json");
    let mut rng = ctx.rng.clone();
    let (bo, ho, om) = match ctx.kind {
        "layers" => (BaseOpts { max_elems: 3, ..Default::default() }, HistOpts { max_elems: 60, max_ops: 10, max_depth: 9 }, OrderMode::Mixed(2)),
        "large" => (BaseOpts::default(), HistOpts { max_elems: 160, max_ops: 12, max_depth: 7 }, OrderMode::Mixed(2)),
        _ => (BaseOpts::default(), HistOpts { max_elems: 24, max_ops: 4, max_depth: 5 }, OrderMode::Mixed(4)),
    };
    let (mesh, desc) = match ctx.kind {
        "chains" => rand_chain(&mut rng, &path, &BaseOpts { max_elems: 3, ..Default::default() }, 16, 160, OrderMode::Mixed(2))?,
        "skewed" => {
            let p = 4 + rng.below(5) as u8;
            rand_mesh(&mut rng, &path, &BaseOpts { max_elems: 3, ..bo }, &HistOpts { max_elems: 9, max_ops: 2, max_depth: 3 }, OrderMode::Skewed(p))?
        }
        _ => rand_mesh(&mut rng, &path, &bo, &ho, om)?,
    };
    let d = domain_of(mesh)?;
    let n = d.dofs.len();
    if n == 0 || n > 700 {
        ctx.obs.add("skipped_by_size", 1);
        return Ok(());
    }
    let s = if rng.chance(0.5) { None } else { Some(enough(&d.mesh)) };
    let g = assemble(&d, s)?;
    ensure!(g.a.dimension == n && g.b.dimension == n, "dimension", "{}: {} degrees of freedom, dimensions {} and {}", desc, n, g.a.dimension, g.b.dimension);
    for (name, m) in [("A", &g.a), ("B", &g.b)] {
        for (k, v) in m.iter_upper_tri() {
            ensure!(v.is_finite(), "finite", "{}: {}{:?} is {}", desc, name, k, v);
        }
    }
    let [a, b]: [DMatrix<f64>; 2] = lib("to_nalgebra_dense_mats", || g.to_nalgebra_dense_mats())?;
    ensure!(a.nrows() == n && b.nrows() == n, "dimension", "{}: {} degrees of freedom, dense {} and {}", desc, n, a.nrows(), b.nrows());
    for i in 0..n {
        ensure!(b[(i, i)] > 0.0, "mass-diagonal", "{}: B[{}, {}] is {}", desc, i, i, b[(i, i)]);
        ensure!(a[(i, i)] > 0.0, "curl-diagonal", "{}: A[{}, {}] is {}", desc, i, i, a[(i, i)]);
        for j in 0..i {
            ensure!(a[(i, j)] == a[(j, i)] && b[(i, j)] == b[(j, i)], "symmetry", "{}: entries ({}, {})", desc, i, j);
        }
    }
    let (ea, eb) = (scaled_eigs(&a), scaled_eigs(&b));
    ctx.obs.min("mass_eigenvalue", eb[0]);
    ctx.obs.min("curl_eigenvalue", ea[0] / ea[n - 1]);
    ensure!(eb[0] > 1e-11, "mass-definite", "{}: smallest eigenvalue of the scaled mass matrix is {:e}", desc, eb[0]);
    ensure!(ea[0] > -1e-10 * ea[n - 1], "curl-semidefinite", "{}: smallest eigenvalue of the scaled curl-curl matrix is {:e} (largest {:e})", desc, ea[0], ea[n - 1]);
    ctx.obs.add("matrices", 2);
    ctx.obs.max("dofs", n as f64);
    if d.mesh.elems.iter().any(|e| e.has_children()) && d.dofs.iter().any(|f| f.get_basis_specs().len() > 1) {
        ctx.nontrivial = Some(fnv(desc.as_bytes()));
    }
    ctx.sample = Some(format!("{} | {} dofs, eigenvalues of B from {:e}, of A from {:e}", desc, n, eb[0], ea[0]));
    Ok(())
}
