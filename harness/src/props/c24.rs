//! Computed spectra are physically right and invariant under change of description.
use super::c09::assemble;
use crate::gen::*;
use crate::refmath::*;
use crate::structure::*;
use crate::util::*;
use crate::{Ctx, Kind, Prop};
use fem_2d::prelude::*;
use nalgebra::DMatrix;
use std::collections::BTreeMap;
use std::f64::consts::PI;

pub const PROP: Prop = Prop {
    id: "C24",
    kinds: &[Kind::new("tensor", 400, 9000), Kind::new("cavity", 250, 6000), Kind::new("same", 500, 12000)],
    run,
    threads: 8,
    rule: "tensor: rectangular cavities on irregularly spaced grids, also globally refined, with uniform orders; the whole spectrum (numerical zeros included) against the sums of the eigenvalues of two independently solved one dimensional problems, and those against the analytic resonances; cavity: locally hp-refined rectangular cavities against the analytic resonances, nothing in between; same: one domain described twice (moved, mirrored, axes exchanged, renumbered, scaled (down to elements a few times the shortest allowed), other uniform factors on the materials) must have one spectrum; non-trivial = a refined mesh, or a change of description, distinct by case",
    assumptions: &["eigenvalues of dense symmetric matrices from nalgebra", "orders up to 5", "differences count from 1e-9 of the largest eigenvalue (tensor, same), or from the accuracy expected of the coarsest elements and lowest orders (cavity)"],
};

/// one description of a domain: base mesh, refinement steps by path, orders by path
#[derive(Clone)]
struct Story {
    spec: BaseSpec,
    steps: Vec<Vec<((usize, Vec<u8>), HRef)>>,
    orders: Vec<((usize, Vec<u8>), [u8; 2])>,
}

fn build(s: &Story, path: &str) -> Res<Mesh> {
    let mut mesh = s.spec.load(path)?;
    for step in &s.steps {
        let ids = by_path(&mesh);
        let l: Vec<(usize, HRef)> = step.iter().map(|(k, h)| (ids[k], *h)).collect();
        lib("execute_h_refinements", || mesh.execute_h_refinements(l.clone()))?.or_viol("execute_h_refinements")?;
    }
    let ids = by_path(&mesh);
    let l: Vec<(usize, Orders)> = s.orders.iter().map(|(k, o)| (ids[k], Orders::new(o[0], o[1]))).collect();
    lib("set_expansion_orders", || mesh.set_expansion_orders(l.clone()))?.or_viol("set_expansion_orders")?;
    Ok(mesh)
}

/// random local refinement and orders, recorded
fn tell(rng: &mut Rng, spec: BaseSpec, path: &str, n_steps: usize, max_elems: usize, top: usize) -> Res<Story> {
    let mut s = Story { spec, steps: Vec::new(), orders: Vec::new() };
    let mut mesh = s.spec.load(path)?;
    for _ in 0..n_steps {
        let mut lv: Vec<usize> = leaves(&mesh).into_iter().filter(|e| min_side(&mesh, *e) > 1e-3).collect();
        if lv.is_empty() || mesh.elems.len() >= max_elems {
            break;
        }
        rng.shuffle(&mut lv);
        lv.truncate(1 + rng.below(3));
        let step: Vec<((usize, Vec<u8>), HRef)> = lv.iter().map(|e| ((mesh.elems[*e].element.id, elem_path(&mesh, *e)), rand_href(rng))).collect();
        let l: Vec<(usize, HRef)> = lv.iter().zip(&step).map(|(e, x)| (*e, x.1)).collect();
        lib("execute_h_refinements", || mesh.execute_h_refinements(l.clone()))?.or_viol("execute_h_refinements")?;
        s.steps.push(step);
    }
    let same = rng.chance(0.4);
    let mut o = || [1 + rng.below(top) as u8, 1 + rng.below(top) as u8];
    let all = o();
    for k in by_path(&mesh).into_keys() {
        let x = o();
        s.orders.push((k, if same { all } else { x }));
    }
    Ok(s)
}

fn spectrum(mesh: Mesh, limit: usize, desc: &str) -> Res<Option<Vec<f64>>> {
    let d = domain_of(mesh)?;
    if d.dofs.is_empty() || d.dofs.len() > limit {
        return Ok(None);
    }
    let g = assemble(&d, None)?;
    let [a, b] = lib("to_nalgebra_dense_mats", || g.to_nalgebra_dense_mats())?;
    match gen_eig(&a, &b) {
        Some(e) => Ok(Some(e)),
        None => viol("not-definite", format!("{}: the mass matrix is not positive definite", desc)),
    }
}

/// eigenvalues of -f'' on a partition with piecewise polynomials of the given order, zero at both ends
fn line(x: &[f64], p: usize) -> Option<Vec<f64>> {
    let n = x.len() - 1;
    let dim = n * p + 1; // nodes first, then bubbles
    let (mut a, mut b) = (DMatrix::zeros(dim, dim), DMatrix::zeros(dim, dim));
    let (gx, gw) = gauss(p + 2);
    for e in 0..n {
        let h = (x[e + 1] - x[e]) / 2.0;
        let idx = |j: usize| if j < 2 { e + j } else { n + 1 + e * (p - 1) + j - 2 };
        for j in 0..=p {
            for k in 0..=p {
                for (t, w) in gx.iter().zip(&gw) {
                    a[(idx(j), idx(k))] += w * tang_d1(j, *t) * tang_d1(k, *t) / h;
                    b[(idx(j), idx(k))] += w * tang(j, *t) * tang(k, *t) * h;
                }
            }
        }
    }
    let keep: Vec<usize> = (1..n).chain(n + 1..dim).collect();
    if keep.is_empty() {
        return Some(vec![]);
    }
    let sub = |m: &DMatrix<f64>| DMatrix::from_fn(keep.len(), keep.len(), |i, j| m[(keep[i], keep[j])]);
    gen_eig(&sub(&a), &sub(&b))
}

fn bisect(x: &[f64]) -> Vec<f64> {
    let mut y = vec![x[0]];
    for w in x.windows(2) {
        y.push((w[0] + w[1]) / 2.0);
        y.push(w[1]);
    }
    y
}

fn rectangle(rng: &mut Rng, nx: usize, ny: usize, sp: Spacing) -> (BaseSpec, Vec<f64>, Vec<f64>, [f64; 2]) {
    let (xs, ys) = (coords(rng, nx, sp), coords(rng, ny, sp));
    let (eps, mu) = if rng.chance(0.3) { (1.0, 1.0) } else { (tidy(rng.uni(0.5, 9.0)), tidy(rng.uni(0.5, 4.0))) };
    let at = |i: usize, j: usize| j * (nx + 1) + i;
    let mut nodes = vec![[0.0; 2]; (nx + 1) * (ny + 1)];
    for j in 0..=ny {
        for i in 0..=nx {
            nodes[at(i, j)] = [xs[i], ys[j]];
        }
    }
    let mut elems = Vec::new();
    for j in 0..ny {
        for i in 0..nx {
            elems.push(([at(i, j), at(i + 1, j), at(i, j + 1), at(i + 1, j + 1)], [eps, 0.0, mu, 0.0]));
        }
    }
    let mut s = BaseSpec { nodes, elems };
    renumber(rng, &mut s);
    (s, xs, ys, [eps, mu])
}

/// other numbers for the same nodes and elements; returns where every element went
fn renumber(rng: &mut Rng, s: &mut BaseSpec) -> Vec<usize> {
    let mut to: Vec<usize> = (0..s.nodes.len()).collect();
    rng.shuffle(&mut to);
    let old = s.nodes.clone();
    for (k, p) in old.iter().enumerate() {
        s.nodes[to[k]] = *p;
    }
    let mut order: Vec<usize> = (0..s.elems.len()).collect();
    rng.shuffle(&mut order);
    let elems: Vec<_> = order.iter().map(|k| (s.elems[*k].0.map(|n| to[n]), s.elems[*k].1)).collect();
    s.elems = elems;
    let mut went = vec![0; order.len()];
    for (new, old) in order.iter().enumerate() {
        went[*old] = new;
    }
    went
}

fn transform(s: &Story, code: impl Fn(u8) -> u8, href: impl Fn(HRef) -> HRef, went: &[usize], swap: bool) -> (Vec<Vec<((usize, Vec<u8>), HRef)>>, Vec<((usize, Vec<u8>), [u8; 2])>) {
    let key = |k: &(usize, Vec<u8>)| (went[k.0], k.1.iter().map(|c| code(*c)).collect::<Vec<u8>>());
    let steps = s.steps.iter().map(|l| l.iter().map(|(k, h)| (key(k), href(*h))).collect()).collect();
    let orders = s.orders.iter().map(|(k, o)| (key(k), if swap { [o[1], o[0]] } else { *o })).collect();
    (steps, orders)
}

fn run(ctx: &mut Ctx) -> Res {
    let path = ctx.scratch_file("mesh.json");
    let mut rng = ctx.rng.clone();
    match ctx.kind {
        "tensor" => {
            let (nx, ny) = (1 + rng.below(4), 1 + rng.below(4));
            let sp = *rng.pick(&[Spacing::Random, Spacing::Random, Spacing::Unit, Spacing::Dyadic]);
            let (spec, mut xs, mut ys, [eps, mu]) = rectangle(&mut rng, nx, ny, sp);
            let mut mesh = spec.load(&path)?;
            let mut desc = spec.to_json();
            let (p, q) = (1 + rng.below(5), 1 + rng.below(5));
            let mut levels = 0;
            for _ in 0..rng.below(4) {
                let (h, u, v) = *rng.pick(&[(HRef::T, 1, 1), (HRef::U(None), 1, 0), (HRef::V(None), 0, 1)]);
                let (mx, my) = ((xs.len() - 1) * (1 + u), (ys.len() - 1) * (1 + v));
                if 2 * mx * p * my * q > 300 {
                    break;
                }
                desc += &format!(" global {}", h);
                lib("global_h_refinement", || mesh.global_h_refinement(h))?;
                levels += 1;
                if u == 1 {
                    xs = bisect(&xs);
                }
                if v == 1 {
                    ys = bisect(&ys);
                }
            }
            desc += &format!(" orders {} {}", p, q);
            lib("set_global_expansion_orders", || mesh.set_global_expansion_orders(Orders::new(p as u8, q as u8)))?;
            let (dx, dy) = ((xs.len() - 1) * p - 1, (ys.len() - 1) * q - 1);
            let dim = 2 * dx * dy + dx + dy;
            let got = match spectrum(mesh, 420, &desc)? {
                Some(g) => g,
                None => {
                    ensure!(dim == 0 || dim > 420, "dimension", "{}: no degrees of freedom, should be {}", desc, dim);
                    ctx.obs.add("skipped_by_size", 1);
                    return Ok(());
                }
            };
            ensure!(got.len() == dim, "dimension", "{}: {} degrees of freedom, should be {}", desc, got.len(), dim);
            let (a, b) = match (line(&xs, p), line(&ys, q)) {
                (Some(a), Some(b)) => (a, b),
                _ => {
                    ctx.obs.add("skipped_by_oracle", 1);
                    return Ok(());
                }
            };
            let mut want = vec![0.0; dx * dy];
            for x in std::iter::once(&0.0).chain(&a) {
                for y in std::iter::once(&0.0).chain(&b) {
                    want.push((x + y) / (eps * mu));
                }
            }
            want.remove(dx * dy); // the constant pair
            want.sort_by(|x, y| x.partial_cmp(y).unwrap());
            let scale = want[dim - 1];
            for k in 0..dim {
                let err = (got[k] - want[k]).abs() / scale;
                ctx.obs.max("error_tensor", err);
                ctx.obs.add("eigenvalues_compared", 1);
                ensure!(err <= 1e-9, "spectrum", "{}: eigenvalue {} is {:e}, should be {:e} (largest {:e})", desc, k, got[k], want[k], scale);
            }
            // the one dimensional values against physics: from above
            for (m, len) in [(&a, xs[xs.len() - 1] - xs[0]), (&b, ys[ys.len() - 1] - ys[0])] {
                for (k, v) in m.iter().enumerate() {
                    let e = (PI * (k + 1) as f64 / len).powi(2);
                    ensure!(*v >= e * (1.0 - 1e-9), "oracle", "{}: one dimensional value {} below {}", desc, v, e);
                }
            }
            if levels > 0 || nx * ny > 1 {
                ctx.nontrivial = Some(fnv(desc.as_bytes()));
            }
            ctx.sample = Some(format!("{} | {} eigenvalues up to {:e}", desc, dim, scale));
        }
        "cavity" => {
            let (nx, ny) = (1 + rng.below(3), 1 + rng.below(3));
            let sp = *rng.pick(&[Spacing::Unit, Spacing::Random, Spacing::Dyadic]);
            let (spec, xs, ys, [eps, mu]) = rectangle(&mut rng, nx, ny, sp);
            let mut s = tell(&mut rng, spec, &path, 4, if ctx.idx % 2 == 0 { 24 } else { 12 }, 1)?;
            let low = 2 + rng.below(4) as u8;
            // orders do not fall from an element to the elements on top of it
            let mut by: BTreeMap<(usize, Vec<u8>), [u8; 2]> = BTreeMap::new();
            for (k, o) in s.orders.iter_mut() {
                let base = k.1.split_last().map(|(_, up)| by[&(k.0, up.to_vec())]).unwrap_or([low; 2]);
                *o = base.map(|b| (b + rng.below(2) as u8).min(low + 1));
                by.insert(k.clone(), *o);
            }
            let desc = format!("{} | {:?} | {:?}", s.spec.to_json(), s.steps, s.orders);
            let mesh = build(&s, &path)?;
            // largest element sides
            let (mut hx, mut hy) = (0.0f64, 0.0f64);
            for e in leaves(&mesh) {
                let r = elem_rect(&mesh, e);
                hx = hx.max(r[0][1] - r[0][0]);
                hy = hy.max(r[1][1] - r[1][0]);
            }
            let (w, h) = (xs[nx] - xs[0], ys[ny] - ys[0]);
            let got = match spectrum(mesh, 420, &desc)? {
                Some(g) => g,
                None => {
                    ctx.obs.add("skipped_by_size", 1);
                    return Ok(());
                }
            };
            let top = got[got.len() - 1];
            let mut modes: Vec<(f64, f64)> = Vec::new(); // resonance, relative accuracy to be expected
            for m in 0..12 {
                for n in 0..12 {
                    if m + n > 0 {
                        let (kx, ky) = (PI * m as f64 / w, PI * n as f64 / h);
                        let p = low as f64;
                        let acc = |k: f64, h: f64| (k * h / (2.0 * p + 1.0)).powf(2.0 * p);
                        modes.push(((kx * kx + ky * ky) / (eps * mu), acc(kx, hx) + acc(ky, hy)));
                    }
                }
            }
            modes.sort_by(|x, y| x.partial_cmp(y).unwrap());
            let first = modes[0].0;
            let zeros = got.iter().filter(|v| v.abs() < 0.5 * first).count();
            for k in 0..zeros {
                ctx.obs.max("zero", got[k].abs() / top);
                ensure!(got[k].abs() <= 1e-9 * top, "spurious", "{}: eigenvalue {:e} between the zeros and the first resonance {:e}", desc, got[k], first);
            }
            let mut n = 0;
            for (k, (v, acc)) in modes.iter().enumerate() {
                if *acc > 0.005 || zeros + k >= got.len() {
                    break;
                }
                let g = got[zeros + k];
                let err = (g - v) / v;
                ctx.obs.max("error_over_expected", err / (acc + 1e-9));
                ctx.obs.min("error_over_expected", err / (acc + 1e-9));
                n += 1;
                ensure!(err.abs() <= 25.0 * acc + 1e-8, "resonance", "{}: resonance {} is {:e}, should be {:e} (accuracy expected {:e})", desc, k, g, v, acc);
            }
            ctx.obs.add("resonances_compared", n);
            ctx.obs.add("zeros", zeros as u64);
            if !s.steps.is_empty() && n > 0 {
                ctx.nontrivial = Some(fnv(desc.as_bytes()));
            }
            ctx.sample = Some(format!("{} | {} zeros, first resonance {:e}, {} compared", desc, zeros, got[zeros.min(got.len() - 1)], n));
        }
        _ => {
            let spec = base_spec(&mut rng, &BaseOpts { max_nx: 3, max_ny: 3, max_elems: 5, ..Default::default() });
            let s = tell(&mut rng, spec, &path, 4, 20, 3)?;
            let mut t = s.clone();
            let mut factor = 1.0;
            let ident: Vec<usize> = (0..s.spec.elems.len()).collect();
            let what = rng.below(6);
            let name = match what {
                0 => {
                    let (ox, oy) = (tidy(rng.uni(-40.0, 40.0)), tidy(rng.uni(-40.0, 40.0)));
                    for n in t.spec.nodes.iter_mut() {
                        *n = [n[0] + ox, n[1] + oy];
                    }
                    format!("moved by {} {}", ox, oy)
                }
                1 => {
                    for n in t.spec.nodes.iter_mut() {
                        *n = [n[1], n[0]];
                    }
                    for e in t.spec.elems.iter_mut() {
                        e.0.swap(1, 2);
                    }
                    let href = |h: HRef| match h {
                        HRef::T => HRef::T,
                        HRef::U(c) => HRef::V(c),
                        HRef::V(c) => HRef::U(c),
                    };
                    (t.steps, t.orders) = transform(&s, |c| [0, 2, 1, 3, 6, 7, 4, 5][c as usize], href, &ident, true);
                    "axes exchanged".to_string()
                }
                2 => {
                    let (fx, fy) = *rng.pick(&[(true, false), (false, true), (true, true)]);
                    for n in t.spec.nodes.iter_mut() {
                        *n = [if fx { -n[0] } else { n[0] }, if fy { -n[1] } else { n[1] }];
                    }
                    for e in t.spec.elems.iter_mut() {
                        if fx {
                            e.0 = [e.0[1], e.0[0], e.0[3], e.0[2]];
                        }
                        if fy {
                            e.0 = [e.0[2], e.0[3], e.0[0], e.0[1]];
                        }
                    }
                    let href = |h: HRef| match h {
                        HRef::U(Some(c)) if fx => HRef::U(Some(1 - c)),
                        HRef::V(Some(c)) if fy => HRef::V(Some(1 - c)),
                        _ => h,
                    };
                    let code = |c: u8| {
                        let c = if fx { [1, 0, 3, 2, 5, 4, 6, 7][c as usize] } else { c };
                        if fy {
                            [2, 3, 0, 1, 4, 5, 7, 6][c as usize]
                        } else {
                            c
                        }
                    };
                    (t.steps, t.orders) = transform(&s, code, href, &ident, false);
                    format!("mirrored {} {}", fx, fy)
                }
                3 => {
                    let went = renumber(&mut rng, &mut t.spec);
                    (t.steps, t.orders) = transform(&s, |c| c, |h| h, &went, false);
                    for l in t.steps.iter_mut() {
                        rng.shuffle(l);
                    }
                    "renumbered".to_string()
                }
                4 => {
                    // down to elements a few times the smallest allowed length
                    let mesh = build(&s, &path)?;
                    let side = leaves(&mesh).into_iter().map(|e| min_side(&mesh, e)).fold(f64::MAX, f64::min);
                    let f = if rng.chance(0.5) {
                        rng.uni(1.2e-4, 1e-3) / side
                    } else {
                        *rng.pick(&[0.5, 2.0, 3.0, 0.37, 100.0, 5000.0, 1e6, 3.7e7])
                    };
                    ctx.obs.min("shortest_side", f * side);
                    for n in t.spec.nodes.iter_mut() {
                        *n = [n[0] * f, n[1] * f];
                    }
                    factor = 1.0 / (f * f);
                    format!("scaled by {}", f)
                }
                _ => {
                    let (a, b) = (*rng.pick(&[0.25, 2.0, 3.0, 9.8]), *rng.pick(&[0.5, 1.0, 4.0, 7.3]));
                    for e in t.spec.elems.iter_mut() {
                        e.1[0] *= a;
                        e.1[2] *= b;
                    }
                    factor = 1.0 / (a * b);
                    format!("permittivity by {}, permeability by {}", a, b)
                }
            };
            let desc = format!("{} | {:?} | {:?} | {}", s.spec.to_json(), s.steps, s.orders, name);
            let (a, b) = (build(&s, &path)?, build(&t, &path)?);
            let (ea, eb) = match (spectrum(a, 300, &desc)?, spectrum(b, 300, &desc)?) {
                (Some(x), Some(y)) => (x, y),
                (None, None) => {
                    ctx.obs.add("skipped_by_size", 1);
                    return Ok(());
                }
                _ => return viol("dimension", format!("{}: only one of the two has degrees of freedom", desc)),
            };
            ensure!(ea.len() == eb.len(), "dimension", "{}: {} and {} degrees of freedom", desc, ea.len(), eb.len());
            let top = ea[ea.len() - 1] * factor;
            for k in 0..ea.len() {
                let err = (ea[k] * factor - eb[k]).abs() / top;
                ctx.obs.max("difference", err);
                ctx.obs.add("eigenvalues_compared", 1);
                ensure!(err <= 1e-9, "description", "{}: eigenvalue {} is {:e} in the first and {:e} in the second (times {})", desc, k, ea[k], eb[k], factor);
            }
            ctx.obs.add(&format!("described_twice_{}", what), 1);
            ctx.nontrivial = Some(fnv(desc.as_bytes()));
            ctx.sample = Some(format!("{} | {} eigenvalues up to {:e}", desc, ea.len(), top));
        }
    }
    Ok(())
}
