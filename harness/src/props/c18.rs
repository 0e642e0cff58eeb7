//! Field evaluation reproduces the superposition of all overlapping functions; derived quantities are pointwise.
use super::c12::path_range;
use crate::gen::*;
use crate::refmath::*;
use crate::structure::*;
use crate::util::*;
use crate::vtk::*;
use crate::{Ctx, Kind, Prop};
use fem_2d::fem_domain::basis::HierCurlBasisFnSpace;
use fem_2d::fem_domain::domain::dof::basis_spec::BasisDir;
use fem_2d::fem_domain::domain::fields::{UniformFieldError, UniformFieldSpace};
use fem_2d::prelude::*;
use std::cell::Cell;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C18",
    kinds: &[Kind::new("fields", 12000, 300000), Kind::new("layers", 3600, 90000), Kind::new("derived", 5000, 130000), Kind::new("chains", 4000, 100000)],
    run,
    threads: 8,
    rule: "random coefficient vectors on random hp-meshes with equal and unequal sampling densities; fields: every exported value against the sum over all overlapping functions evaluated in closed form; derived: random sequences of fields, maps and two-argument expressions, with overwritten names, operands that are their own results, and rejected calls, mirrored by a model that is compared bit for bit; non-trivial = a field with contributions from more than one layer, or a sequence with overwritten and rejected requests, distinct by mesh and coefficients",
    assumptions: &["at least two points per direction", "exact bits are read through map_to_quantity with two whole-number encodings"],
};

/// value of the superposition at grid place (m, n) of a leaf, with the sum of sizes of the contributions
pub struct Reference<'a> {
    d: &'a Domain,
    rects: Vec<Rect>,
    paths: Vec<Vec<u8>>,
}

impl<'a> Reference<'a> {
    pub fn new(d: &'a Domain) -> Self {
        let n = d.mesh.elems.len();
        Reference { d, rects: (0..n).map(|e| elem_rect(&d.mesh, e)).collect(), paths: (0..n).map(|e| elem_path(&d.mesh, e)).collect() }
    }

    /// at parametric place (u, v) of the leaf: value and size of both components, number of layers involved, conditioning
    pub fn at(&self, leaf: usize, u: f64, v: f64, c: &[f64]) -> ([f64; 2], [f64; 2], usize, f64) {
        let mesh = &self.d.mesh;
        let (mut val, mut size, mut layers, mut cond) = ([0.0; 2], [0.0; 2], 0, 0.0f64);
        for e in 0..mesh.elems.len() {
            let below = mesh.elems[e].element.id == mesh.elems[leaf].element.id
                && self.paths[leaf].len() >= self.paths[e].len()
                && self.paths[leaf][..self.paths[e].len()] == self.paths[e][..];
            if !below {
                continue;
            }
            let r = path_range(&self.paths[leaf][self.paths[e].len()..]);
            let at = |k: usize, x: f64| r[k][0] + (x + 1.0) / 2.0 * (r[k][1] - r[k][0]);
            let (ue, ve) = (at(0, u), at(1, v));
            let mut any = false;
            for bs in &self.d.basis_specs[e] {
                let f = BasisFn { rect: self.rects[e], dir: if bs.dir == BasisDir::U { Dir::U } else { Dir::V }, i: bs.i as usize, j: bs.j as usize };
                let w = f.factors_ref(ue, ve);
                let k = if bs.dir == BasisDir::U { 0 } else { 1 };
                let x = c[bs.dof_id.unwrap()] * w[0] * w[1];
                val[k] += x;
                // interval ends make single factors vanish by cancellation; count their full size
                let h = f.halves();
                size[k] += (c[bs.dof_id.unwrap()] / h[k]).abs();
                cond = cond.max(f.cond());
                any |= x != 0.0;
            }
            layers += any as usize;
        }
        (val, size, layers, cond)
    }
}

pub fn para(m: usize, n: usize) -> f64 {
    -1.0 + 2.0 * m as f64 / (n - 1) as f64
}

pub fn rand_coefs(rng: &mut Rng, n: usize) -> Vec<f64> {
    // of any magnitude
    let f = if rng.chance(0.25) { 10f64.powi(rng.range(-100, 100) as i32) } else { 1.0 };
    let mut v = shaped_coefs(rng, n);
    for x in v.iter_mut() {
        *x *= f;
    }
    v
}

fn shaped_coefs(rng: &mut Rng, n: usize) -> Vec<f64> {
    match rng.below(5) {
        0 => {
            let k = rng.below(n);
            (0..n).map(|i| if i == k { 1.0 } else { 0.0 }).collect()
        }
        1 => vec![0.0; n],
        2 => (0..n).map(|_| 10f64.powf(rng.uni(-3.0, 3.0)) * if rng.chance(0.5) { -1.0 } else { 1.0 }).collect(),
        _ => (0..n).map(|_| rng.uni(-1.0, 1.0)).collect(),
    }
}

fn run(ctx: &mut Ctx) -> Res {
    let kind = ctx.kind;
    case::<HierPoly>(ctx, kind)
}

pub fn case<S: HierCurlBasisFnSpace>(ctx: &mut Ctx, kind: &str) -> Res {
    let path = ctx.scratch_file("mesh.json");
    let mut rng = ctx.rng.clone();
    let (ho, om) = match kind {
        "layers" => (HistOpts { max_elems: 60, max_ops: 10, max_depth: 10 }, OrderMode::Mixed(3)),
        "derived" => (HistOpts { max_elems: 12, max_ops: 3, max_depth: 4 }, OrderMode::Mixed(3)),
        // now and then, orders up to the largest
        _ if rng.chance(0.15) => (HistOpts { max_elems: 9, max_ops: 2, max_depth: 4 }, OrderMode::Skewed(8 + rng.below(13) as u8)),
        _ => (HistOpts { max_elems: 30, max_ops: 4, max_depth: 5 }, OrderMode::Mixed(6)),
    };
    let (mesh, desc) = if kind == "chains" {
        rand_chain(&mut rng, &path, &BaseOpts { max_elems: 4, ..Default::default() }, 16, 160, OrderMode::Mixed(3))?
    } else {
        rand_mesh(&mut rng, &path, &BaseOpts { max_elems: 4, ..Default::default() }, &ho, om)?
    };
    let d = domain_of(mesh)?;
    let n = d.dofs.len();
    if n == 0 {
        return Ok(());
    }
    let cap = if kind == "derived" { 4 } else { 6 };
    let dens = [2 + rng.below(cap), 2 + rng.below(cap)];
    let mut ufs = lib("UniformFieldSpace::new", || UniformFieldSpace::new(&d, dens))?;
    let out = ctx.scratch_file("f.vtk");
    if kind == "derived" {
        return derived(ctx, &mut rng, &d, &mut ufs, dens, &out, &desc);
    }
    let c = rand_coefs(&mut rng, n);
    let names = lib("xy_fields", || ufs.xy_fields::<S>("some_mode", c.clone()))?.or_viol("xy_fields")?;
    ensure!(names[0] == "some_mode_x" && names[1] == "some_mode_y", "names", "fields are called {:?}", names);
    let reference = Reference::new(&d);
    let mut max_layers = 0;
    for (k, name) in names.iter().enumerate() {
        let (v, bits) = exact_bits(&mut ufs, name, &out)?;
        let grid = locate(&v, &d.mesh, dens)?;
        for (leaf, g) in &grid {
            for m in 0..dens[0] {
                for q in 0..dens[1] {
                    let got = f64::from_bits(bits[g[m][q]]);
                    let (val, size, layers, cond) = reference.at(*leaf, para(m, dens[0]), para(q, dens[1]), &c);
                    max_layers = max_layers.max(layers);
                    let err = (got - val[k]).abs() / size[k].max(1e-300);
                    ensure!(
                        (got - val[k]).abs() <= (1e-12 + 10.0 * cond) * size[k],
                        "field-value",
                        "{}: {} at grid place [{}, {}] of {:?} on element {} is {:e}, the overlapping functions add up to {:e} (contributions up to {:e})",
                        desc, name, m, q, dens, leaf, got, val[k], size[k]
                    );
                    if size[k] > 0.0 {
                        ctx.obs.max("relative_error", err);
                    }
                    ctx.obs.add("values_compared", 1);
                }
            }
        }
    }
    ctx.obs.max("layers_in_one_value", max_layers as f64);
    if max_layers > 1 {
        ctx.nontrivial = Some(fnv(format!("{} {:?} {:?}", desc, c, dens).as_bytes()));
    }
    ctx.sample = Some(format!("{} | {} dofs, grid {:?}, up to {} layers", desc, n, dens, max_layers));
    Ok(())
}

type Model = BTreeMap<String, Vec<u64>>;

fn same_bits(a: u64, b: u64) -> bool {
    a == b || (f64::from_bits(a).is_nan() && f64::from_bits(b).is_nan())
}

const MAPS: [fn(f64) -> f64; 6] = [|x| x.abs(), |x| -x, |x| x * 1.7 + 0.3, |x| x * x, |x| x.sqrt(), |x| 1.0 / x];
const EXPRS: [fn(f64, f64) -> f64; 6] = [|a, b| a - b, |a, b| a / b, |a, b| (a * a + b * b).sqrt(), |a, b| a.atan2(b), |a, _| a, |_, b| b * 2.0];

fn compare(ctx: &mut Ctx, ufs: &mut UniformFieldSpace, model: &Model, out: &str, what: &str) -> Res {
    // the set of names
    let all = {
        let _ = std::fs::remove_file(out);
        let r = lib("print_all_to_vtk", || ufs.print_all_to_vtk(out))?;
        ensure!(r.is_ok(), "unexpected-error:print_all_to_vtk", "{}", r.err().unwrap());
        let t = std::fs::read_to_string(out).unwrap_or_default();
        let _ = std::fs::remove_file(out);
        parse(&t)?
    };
    let names: Vec<String> = all.scalars.iter().map(|s| s.0.clone()).filter(|s| !s.starts_with("__")).collect();
    let mut sorted = names.clone();
    sorted.sort();
    ensure!(sorted.iter().eq(model.keys()), "names", "{}: quantities are {:?}, should be {:?}", what, sorted, model.keys());
    for (name, want) in model {
        let (_, bits) = exact_bits(ufs, name, out)?;
        ensure!(bits.len() == want.len(), "count", "{}: {} values of {}, should be {}", what, bits.len(), name, want.len());
        for (k, (a, b)) in bits.iter().zip(want).enumerate() {
            ensure!(same_bits(*a, *b), "derived-value", "{}: value {} of {} is {:e}, should be {:e}", what, k, name, f64::from_bits(*a), f64::from_bits(*b));
        }
        ctx.obs.add("values_compared", bits.len() as u64);
    }
    Ok(())
}

fn derived(ctx: &mut Ctx, rng: &mut Rng, d: &Domain, ufs: &mut UniformFieldSpace, dens: [usize; 2], out: &str, desc: &str) -> Res {
    let n = d.dofs.len();
    let mut model = Model::new();
    let fields = ["alpha", "beta", "alpha_x"];
    let pool = ["p", "q", "r", "alpha_x", "beta_y", "alpha_x_x"];
    let (mut over, mut refused) = (0, 0);
    let mut log = String::new();
    let leaves = d.mesh.elems.iter().filter(|e| !e.has_children()).count();
    let points = leaves * dens[0] * dens[1];
    for step in 0..4 + rng.below(10) {
        let known: Vec<String> = model.keys().cloned().collect();
        let op = if known.is_empty() { 0 } else { rng.below(8) };
        let some = |rng: &mut Rng| -> String { known[rng.below(known.len())].clone() };
        match op {
            0 | 1 => {
                let f = *rng.pick(&fields);
                if rng.chance(0.25) {
                    // wrong number of coefficients
                    let len = *rng.pick(&[0, n - 1, n + 1, 2 * n]);
                    let r = lib("xy_fields", || ufs.xy_fields::<HierPoly>(f, vec![1.0; len]))?;
                    match r {
                        Err(UniformFieldError::MismatchedSolutionSize(a, b)) => ensure!(a == n && b == len, "error", "{} coefficients for {} reported as {} for {}", len, n, b, a),
                        r => return viol("missing-error", format!("{}: {} coefficients for {} degrees of freedom gave {:?}", desc, len, n, r)),
                    }
                    log += &format!(" {}!len", f);
                    refused += 1;
                } else {
                    let c = rand_coefs(rng, n);
                    let names = lib("xy_fields", || ufs.xy_fields::<HierPoly>(f, c))?.or_viol("xy_fields")?;
                    ensure!(names[0] == format!("{}_x", f) && names[1] == format!("{}_y", f), "names", "fields of {} are called {:?}", f, names);
                    for name in names {
                        let (_, bits) = exact_bits(ufs, &name, out)?;
                        ensure!(bits.len() == points, "count", "{}: {} values of {}, should be {}", desc, bits.len(), name, points);
                        over += model.insert(name, bits).is_some() as usize;
                    }
                    log += &format!(" {}=xy", f);
                }
            }
            2 | 3 | 4 => {
                let to = if rng.chance(0.3) { some(rng) } else { rng.pick(&pool).to_string() };
                let k = rng.below(MAPS.len());
                let calls = Cell::new(0usize);
                if rng.chance(0.2) {
                    let r = lib("map_to_quantity", || ufs.map_to_quantity("nothing", &to, |x| MAPS[k](*x)))?;
                    ensure!(matches!(&r, Err(UniformFieldError::MissingQuantity(q)) if q == "nothing"), "missing-error", "{}: mapping an unknown quantity gave {:?}", desc, r);
                    refused += 1;
                    log += &format!(" {}!map", to);
                } else {
                    let from = some(rng);
                    lib("map_to_quantity", || {
                        ufs.map_to_quantity(&from, &to, |x| {
                            calls.set(calls.get() + 1);
                            MAPS[k](*x)
                        })
                    })?
                    .or_viol("map_to_quantity")?;
                    let v: Vec<u64> = model[&from].iter().map(|b| MAPS[k](f64::from_bits(*b)).to_bits()).collect();
                    over += model.insert(to.clone(), v).is_some() as usize;
                    ctx.obs.add("pointwise_calls", calls.get() as u64);
                    log += &format!(" {}=f{}({})", to, k, from);
                }
            }
            _ => {
                let to = if rng.chance(0.3) { some(rng) } else { rng.pick(&pool).to_string() };
                let k = rng.below(EXPRS.len());
                if rng.chance(0.2) {
                    let mut ops = [some(rng), some(rng)];
                    let which = rng.below(2);
                    ops[which] = "nothing".into();
                    let r = lib("expression_2arg", || ufs.expression_2arg([&ops[0], &ops[1]], &to, EXPRS[k]))?;
                    ensure!(matches!(&r, Err(UniformFieldError::MissingQuantity(q)) if q == "nothing"), "missing-error", "{}: expression of {:?} gave {:?}", desc, ops, r);
                    refused += 1;
                    log += &format!(" {}!expr", to);
                } else {
                    let ops = [some(rng), some(rng)];
                    lib("expression_2arg", || ufs.expression_2arg([&ops[0], &ops[1]], &to, EXPRS[k]))?.or_viol("expression_2arg")?;
                    let v: Vec<u64> = model[&ops[0]]
                        .iter()
                        .zip(&model[&ops[1]])
                        .map(|(a, b)| EXPRS[k](f64::from_bits(*a), f64::from_bits(*b)).to_bits())
                        .collect();
                    over += model.insert(to.clone(), v).is_some() as usize;
                    log += &format!(" {}=g{}({},{})", to, k, ops[0], ops[1]);
                }
            }
        }
        if rng.chance(0.3) {
            compare(ctx, ufs, &model, out, &format!("{} grid {:?} after step {} of{}", desc, dens, step, log))?;
        }
    }
    compare(ctx, ufs, &model, out, &format!("{} grid {:?} after{}", desc, dens, log))?;
    ctx.obs.add("overwritten", over as u64);
    ctx.obs.add("refused", refused as u64);
    ctx.obs.add("sequences", 1);
    if over > 0 && refused > 0 {
        ctx.nontrivial = Some(fnv(format!("{}{}", desc, log).as_bytes()));
    }
    ctx.sample = Some(format!("grid {:?}:{}", dens, log));
    Ok(())
}
