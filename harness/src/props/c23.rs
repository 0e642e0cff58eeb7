//! Refining never loses anything the coarser discretisation could represent.
use super::c09::{assemble, basis_fn};
use crate::gen::*;
use crate::refmath::*;
use crate::structure::*;
use crate::util::*;
use crate::{Ctx, Kind, Prop};
use fem_2d::prelude::*;
use std::collections::BTreeMap;
use std::sync::Mutex;

pub const PROP: Prop = Prop {
    id: "C23",
    kinds: &[Kind::new("h", 2400, 48000), Kind::new("late", 900, 18000), Kind::new("chains", 600, 12000), Kind::new("p", 900, 18000), Kind::new("spectrum", 900, 18000)],
    run,
    threads: 8,
    rule: "two domains, one refined from the other (h: random further h-refinement, late: coarse neighbours of deep refinement refined afterwards, p: raised orders, also unequally); every function of the coarse domain is projected onto the span of the functions of the fine domain, exactly, and nothing may be left; spectrum: the k-th eigenvalue of the assembled problem never rises; non-trivial = the coarse domain has edge functions and the fine one more degrees of freedom, distinct by pair",
    assumptions: &["what is left of a function relative to its size counts from 1e-7", "function values from their closed form, which other monitors compare with the library"],
};

type Rules = BTreeMap<usize, (Vec<f64>, Vec<f64>)>;
static RULES: Mutex<Rules> = Mutex::new(BTreeMap::new());

fn rule(n: usize) -> (Vec<f64>, Vec<f64>) {
    RULES.lock().unwrap().entry(n).or_insert_with(|| gauss(n)).clone()
}

/// reference coordinates of a point of `leaf` (given in its own reference coordinates) in `r`, without cancellation
fn within(r: [f64; 2], leaf: [f64; 2], t: f64) -> f64 {
    let w = r[1] - r[0];
    let lo = 2.0 * (leaf[0] - r[0]) / w - 1.0;
    let hi = 1.0 - 2.0 * (r[1] - leaf[1]) / w;
    (lo + hi) / 2.0 + (hi - lo) / 2.0 * t
}

/// weighted samples of the x part (or the y part) of every degree of freedom of a domain over the given leaves
fn samples(d: &Domain, dir: Dir, leaves_: &[(usize, Vec<u8>, Rect)], n: [usize; 2]) -> Vec<Vec<f64>> {
    let rects: Vec<Rect> = (0..d.mesh.elems.len()).map(|e| elem_rect(&d.mesh, e)).collect();
    let rules = n.map(rule);
    let mut cols = vec![vec![0.0; leaves_.len() * n[0] * n[1]]; d.dofs.len()];
    for (e, specs) in d.basis_specs.iter().enumerate() {
        if specs.is_empty() {
            continue;
        }
        let (el, path) = (d.mesh.elems[e].element.id, elem_path(&d.mesh, e));
        for (l, (lel, lpath, lr)) in leaves_.iter().enumerate() {
            if *lel != el || lpath.len() < path.len() || lpath[..path.len()] != path[..] {
                continue;
            }
            let at: [Vec<f64>; 2] = [0, 1].map(|ax| rules[ax].0.iter().map(|t| within(rects[e][ax], lr[ax], *t)).collect());
            let area = ((lr[0][1] - lr[0][0]) * (lr[1][1] - lr[1][0]) / 4.0).sqrt();
            for bs in specs {
                let f = basis_fn(&d.mesh, &rects, bs);
                if f.dir != dir {
                    continue;
                }
                let c = &mut cols[bs.dof_id.unwrap()];
                for a in 0..n[0] {
                    for b in 0..n[1] {
                        let v = f.factors_ref(at[0][a], at[1][b]);
                        c[(l * n[0] + a) * n[1] + b] += v[0] * v[1] * area * (rules[0].1[a] * rules[1].1[b]).sqrt();
                    }
                }
            }
        }
    }
    cols
}

fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}

/// orthonormal basis of the span, every vector orthogonalised twice
fn orthonormal(cols: Vec<Vec<f64>>) -> Vec<Vec<f64>> {
    let mut q: Vec<Vec<f64>> = Vec::new();
    for mut c in cols {
        let n0 = dot(&c, &c).sqrt();
        if n0 == 0.0 {
            continue;
        }
        for x in c.iter_mut() {
            *x /= n0;
        }
        for _ in 0..3 {
            remove(&q, &mut c);
        }
        let n1 = dot(&c, &c).sqrt();
        if n1 < 1e-12 {
            continue;
        }
        for x in c.iter_mut() {
            *x /= n1;
        }
        remove(&q, &mut c);
        q.push(c);
    }
    q
}

fn remove(q: &[Vec<f64>], c: &mut [f64]) {
    for v in q {
        let s = dot(v, c);
        for (x, y) in c.iter_mut().zip(v) {
            *x -= s * y;
        }
    }
}

/// every function of `coarse` lies in the span of the functions of `fine`
fn contained(coarse: &Domain, fine: &Domain, obs: &mut Obs, desc: &str) -> Res {
    ensure!(fine.dofs.len() >= coarse.dofs.len(), "fewer-dofs", "{}: {} degrees of freedom became {}", desc, coarse.dofs.len(), fine.dofs.len());
    let lv: Vec<(usize, Vec<u8>, Rect)> = leaves(&fine.mesh).into_iter().map(|e| (fine.mesh.elems[e].element.id, elem_path(&fine.mesh, e), elem_rect(&fine.mesh, e))).collect();
    let n = fine.mesh.elems.iter().fold([0, 0], |m: [usize; 2], e| [m[0].max(e.poly_orders.ni as usize + 1), m[1].max(e.poly_orders.nj as usize + 1)]);
    for dir in [Dir::U, Dir::V] {
        let q = orthonormal(samples(fine, dir, &lv, n));
        for (k, mut c) in samples(coarse, dir, &lv, n).into_iter().enumerate() {
            let n0 = dot(&c, &c).sqrt();
            if n0 == 0.0 {
                continue;
            }
            remove(&q, &mut c);
            remove(&q, &mut c);
            let left = dot(&c, &c).sqrt() / n0;
            obs.max("left_over", left);
            obs.add("functions_projected", 1);
            ensure!(left < 1e-7, "lost", "{}: degree of freedom {} ({:?}) of the coarse domain: {:e} of it cannot be represented", desc, k, coarse.dofs[k].get_basis_specs(), left);
        }
    }
    Ok(())
}

fn refine_around(rng: &mut Rng, mesh: &mut Mesh, steps: usize) -> Res<String> {
    let mut log = String::new();
    let b = base_rect(mesh, rng.below(mesh.elements.len()));
    let c = [b[0][rng.below(2)], b[1][rng.below(2)]];
    for _ in 0..steps {
        let mut l = Vec::new();
        for e in leaves(mesh) {
            let r = elem_rect(mesh, e);
            if r[0].contains(&c[0]) && r[1].contains(&c[1]) && min_side(mesh, e) > 1e-3 && rng.chance(0.8) {
                l.push((e, rand_href(rng)));
            }
        }
        log += &format!("around({:?}); ", l);
        lib("execute_h_refinements", || mesh.execute_h_refinements(l.clone()))?.or_viol("execute_h_refinements")?;
    }
    Ok(log)
}

fn refine_coarse(rng: &mut Rng, mesh: &mut Mesh, steps: usize) -> Res<String> {
    let mut log = String::new();
    for _ in 0..steps {
        let mut lv: Vec<usize> = leaves(mesh).into_iter().filter(|e| min_side(mesh, *e) > 1e-3).collect();
        lv.sort_by_key(|e| mesh.elems[*e].loc_stack().len());
        lv.truncate(4);
        let l: Vec<(usize, HRef)> = lv.into_iter().filter_map(|e| if rng.chance(0.6) { Some((e, rand_href(rng))) } else { None }).collect();
        log += &format!("coarse({:?}); ", l);
        lib("execute_h_refinements", || mesh.execute_h_refinements(l.clone()))?.or_viol("execute_h_refinements")?;
    }
    Ok(log)
}

fn run(ctx: &mut Ctx) -> Res {
    let path = ctx.scratch_file("mesh.json");
    let mut rng = ctx.rng.clone();
    let spec = base_spec(&mut rng, &BaseOpts { max_nx: 3, max_ny: 2, max_elems: 4, ..Default::default() });
    let mut mesh = spec.load(&path)?;
    let mut desc = spec.to_json();
    let top = if ctx.kind == "spectrum" { 3 } else { 5 };
    let o = if ctx.kind != "spectrum" && ctx.idx % 9 < 2 && ctx.idx % 2 == 0 {
        // high orders along one axis only
        let mut o = [1 + rng.below(2), 6 + rng.below(7)];
        if rng.chance(0.5) {
            o.swap(0, 1);
        }
        o
    } else if ctx.idx % 9 == 0 { [top, 1] } else { [1 + rng.below(if ctx.kind == "late" { 2 } else { 3 }), 1 + rng.below(3)] };
    let set = |m: &mut Mesh| lib("set_global_expansion_orders", || m.set_global_expansion_orders(Orders::new(o[0] as u8, o[1] as u8)));
    let first = rng.chance(0.5);
    if first {
        // inherited by everything that follows
        set(&mut mesh)?;
    }
    desc += " | ";
    desc += &match ctx.kind {
        "late" => refine_around(&mut rng, &mut mesh, 3)?,
        "chains" => {
            let n = 2 + rng.below(12);
            chain_history(&mut rng, &mut mesh, n, 90)?
        }
        _ => refine_history(&mut rng, &mut mesh, &HistOpts { max_elems: 14, max_ops: 3, max_depth: 4 })?,
    };
    if !first {
        set(&mut mesh)?;
    }
    let coarse = domain_of(mesh.clone())?;
    desc += &format!("| orders {:?} | then ", o);
    let mut which = ctx.kind;
    if which == "spectrum" {
        which = *rng.pick(&["h", "h", "late", "p"]);
    }
    match which {
        "h" => {
            desc += &refine_history(&mut rng, &mut mesh, &HistOpts { max_elems: 34, max_ops: 3, max_depth: 6 })?;
            if !first {
                set(&mut mesh)?;
            }
        }
        "late" => {
            let steps = 1 + rng.below(2);
            desc += &refine_coarse(&mut rng, &mut mesh, steps)?;
        }
        "chains" => {
            if rng.chance(0.5) {
                desc += &refine_coarse(&mut rng, &mut mesh, 1)?;
            } else {
                let most = mesh.elems.len() + 30;
                desc += &chain_history(&mut rng, &mut mesh, 6, most)?;
            }
        }
        _ => {
            let up = |rng: &mut Rng| [rng.below(3), rng.below(3)];
            if rng.chance(0.4) {
                let u = up(&mut rng);
                desc += &format!("orders raised by {:?}", u);
                lib("global_p_refinement", || mesh.global_p_refinement(PRef::from(u[0] as i8, u[1] as i8)))?;
            } else {
                let l: Vec<(usize, Orders)> = (0..mesh.elems.len()).map(|e| {
                    let u = up(&mut rng);
                    (e, Orders::new((o[0] + u[0]) as u8, (o[1] + u[1]) as u8))
                }).collect();
                desc += &format!("orders raised to {:?}", l);
                lib("set_expansion_orders", || mesh.set_expansion_orders(l.clone()))?.or_viol("set_expansion_orders")?;
            }
        }
    }
    if ctx.kind == "chains" && !first {
        set(&mut mesh)?;
    }
    let fine = domain_of(mesh)?;
    if coarse.dofs.is_empty() || fine.dofs.len() > 420 {
        ctx.obs.add("skipped_by_size", 1);
        return Ok(());
    }
    if ctx.kind == "spectrum" {
        let mut ev = Vec::new();
        for d in [&coarse, &fine] {
            let g = assemble(d, None)?;
            let [a, b] = lib("to_nalgebra_dense_mats", || g.to_nalgebra_dense_mats())?;
            match gen_eig(&a, &b) {
                Some(e) => ev.push(e),
                None => return viol("not-definite", format!("{}: mass matrix is not positive definite", desc)),
            }
        }
        ensure!(ev[1].len() >= ev[0].len(), "fewer-dofs", "{}: {} degrees of freedom became {}", desc, ev[0].len(), ev[1].len());
        let scale = ev[1].last().unwrap().max(*ev[0].last().unwrap());
        for (k, c) in ev[0].iter().enumerate() {
            let rise = (ev[1][k] - c) / scale;
            ctx.obs.max("rise", rise);
            ctx.obs.add("eigenvalues_compared", 1);
            ensure!(rise <= 1e-9, "spectrum", "{}: eigenvalue {} rose from {:e} to {:e} (largest {:e})", desc, k, c, ev[1][k], scale);
        }
    } else {
        contained(&coarse, &fine, &mut ctx.obs, &desc)?;
    }
    ctx.obs.max("dofs", fine.dofs.len() as f64);
    ctx.obs.add("pairs", 1);
    if fine.dofs.len() > coarse.dofs.len() && coarse.dofs.iter().any(|f| f.get_basis_specs().len() > 1) {
        ctx.nontrivial = Some(fnv(desc.as_bytes()));
    }
    ctx.sample = Some(format!("{} | {} -> {} degrees of freedom", desc, coarse.dofs.len(), fine.dofs.len()));
    Ok(())
}
