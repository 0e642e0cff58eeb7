//! Everything computed is right for any function family a user supplies.
use super::{c07, c09, c12, c13, c18};
use crate::gen::*;
use crate::refmath::*;
use crate::util::*;
use crate::{Ctx, Kind, Prop};
use fem_2d::fem_domain::basis::HierCurlBasisFnSpace;

pub const PROP: Prop = Prop {
    id: "C27",
    kinds: &[
        Kind::new("sampled", 3000, 80000),
        Kind::new("parts", 3000, 80000),
        Kind::new("entries", 500, 14000),
        Kind::new("layers", 200, 6000),
        Kind::new("fields", 1500, 40000),
        Kind::new("continuity", 1500, 40000),
        Kind::new("spectrum", 300, 8000),
    ],
    run,
    threads: 8,
    rule: "four function families supplied through the public trait, whose normal and tangential functions and all their derivatives are pairwise different (random triangular combinations of the documented ones, so that the spaces are the same), put through sampling, both integral forms, assembly, field evaluation and continuity with the monitors of those parts; spectrum: the eigenvalues of one domain with the documented family and with a supplied one; the family checks what it is asked (points within the interval, orders and places that were announced, no second derivatives unless announced); non-trivial = as in the part that is exercised",
    assumptions: &["a supplied family has tangential functions that vanish at both ends from the third on, as the documented one"],
};

/// a function space supplied by the user; answers only what the trait announces
#[derive(Clone, Debug)]
pub struct Fam<const T: usize> {
    n_max: usize,
    d2: bool,
    /// [tangential][derivative][order][point]
    v: [[Vec<Vec<f64>>; 3]; 2],
}

impl<const T: usize> Fam<T> {
    fn get(&self, tangential: bool, der: usize, n: usize, p: usize) -> f64 {
        assert!(n <= self.n_max, "family asked for order {} after announcing up to {}", n, self.n_max);
        assert!(der < 2 || self.d2, "family asked for a second derivative that was not announced");
        self.v[tangential as usize][der][n][p]
    }
}

impl<const T: usize> HierCurlBasisFnSpace for Fam<T> {
    fn with(max_order: usize, points: &[f64], compute_d2: bool) -> Self {
        for x in points {
            assert!(x.abs() <= 1.0 + 1e-12, "family asked for a place outside of the interval: {}", x);
        }
        let f = Family::Tri(T);
        let v = [false, true].map(|t| {
            [0, 1, 2].map(|d| if d == 2 && !compute_d2 { vec![] } else { (0..=max_order).map(|n| points.iter().map(|x| f.eval(t, d, n, *x)).collect()).collect() })
        });
        Self { n_max: max_order, d2: compute_d2, v }
    }
    fn norm(&self, n: usize, p: usize) -> f64 {
        self.get(false, 0, n, p)
    }
    fn norm_d1(&self, n: usize, p: usize) -> f64 {
        self.get(false, 1, n, p)
    }
    fn norm_d2(&self, n: usize, p: usize) -> f64 {
        self.get(false, 2, n, p)
    }
    fn tang(&self, n: usize, p: usize) -> f64 {
        self.get(true, 0, n, p)
    }
    fn tang_d1(&self, n: usize, p: usize) -> f64 {
        self.get(true, 1, n, p)
    }
    fn tang_d2(&self, n: usize, p: usize) -> f64 {
        self.get(true, 2, n, p)
    }
}

fn run(ctx: &mut Ctx) -> Res {
    match ctx.idx % 4 {
        0 => with_family::<0>(ctx),
        1 => with_family::<1>(ctx),
        2 => with_family::<2>(ctx),
        _ => with_family::<3>(ctx),
    }
}

fn with_family<const T: usize>(ctx: &mut Ctx) -> Res {
    if ctx.kind == "spectrum" {
        return spectrum::<T>(ctx);
    }
    let _guard = use_family(Family::Tri(T));
    match ctx.kind {
        "sampled" => c12::case::<Fam<T>>(ctx, if ctx.idx % 8 < 4 { "mesh" } else { "deep" }),
        "parts" => c13::case::<Fam<T>>(ctx),
        "entries" => c09::case::<Fam<T>>(ctx, if ctx.idx % 8 < 4 { "mixed" } else { "skewed" }),
        "layers" => c09::case::<Fam<T>>(ctx, if ctx.idx % 8 < 4 { "layers" } else { "chains" }),
        "fields" => c18::case::<Fam<T>>(ctx, if ctx.idx % 8 < 4 { "fields" } else { "layers" }),
        _ => c07::case::<Fam<T>>(ctx, ""),
    }
}

fn spectrum<const T: usize>(ctx: &mut Ctx) -> Res {
    let path = ctx.scratch_file("mesh.json");
    let mut rng = ctx.rng.clone();
    let bo = BaseOpts { materials: *rng.pick(&[Materials4::Unit, Materials4::RandomReal]), max_elems: 4, ..Default::default() };
    let (mesh, desc) = rand_mesh(&mut rng, &path, &bo, &HistOpts { max_elems: 16, max_ops: 3, max_depth: 4 }, OrderMode::Mixed(3))?;
    let d = domain_of(mesh)?;
    let n = d.dofs.len();
    if n == 0 || n > 350 {
        ctx.obs.add("skipped_by_size", 1);
        return Ok(());
    }
    let mut e = Vec::new();
    for g in [c09::assemble(&d, None)?, c09::assemble_with::<Fam<T>>(&d, None)?] {
        let [a, b] = lib("to_nalgebra_dense_mats", || g.to_nalgebra_dense_mats())?;
        match gen_eig(&a, &b) {
            Some(x) => e.push(x),
            None => return viol("not-definite", format!("{}: the mass matrix is not positive definite", desc)),
        }
    }
    let top = e[0][n - 1];
    for k in 0..n {
        let err = (e[0][k] - e[1][k]).abs() / top;
        ctx.obs.max("spectrum_difference", err);
        ensure!(err <= 1e-8, "spectrum", "{}: eigenvalue {} is {:e} with the documented family and {:e} with another family of the same spaces (largest {:e})", desc, k, e[0][k], e[1][k], top);
    }
    ctx.obs.add("eigenvalues_compared", n as u64);
    ctx.nontrivial = Some(fnv(desc.as_bytes()));
    ctx.sample = Some(format!("{} | {} eigenvalues up to {:e}, family {}", desc, n, top, T));
    Ok(())
}
