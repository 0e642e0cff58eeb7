//! Mesh and domain queries answer correctly or report a missing item.
use crate::gen::*;
use crate::structure::*;
use crate::util::*;
use crate::{Ctx, Kind, Prop};
use fem_2d::fem_domain::domain::dof::basis_spec::{BSAddress, BasisDir};
use fem_2d::fem_domain::domain::mesh::p_refinement::PolyOrders;
use fem_2d::fem_domain::domain::mesh::space::Point;
use fem_2d::fem_domain::domain::mesh::{MeshAccessError, MAX_POLYNOMIAL_ORDER, MIN_EDGE_LENGTH};
use fem_2d::prelude::*;
use std::collections::{BTreeMap, BTreeSet};

pub const PROP: Prop = Prop {
    id: "C22",
    kinds: &[Kind::new("queries", 15000, 300000), Kind::new("short", 5000, 100000), Kind::new("galerkin", 10000, 200000)],
    run,
    threads: 8,
    rule: "queries: every query for every id of a random hp-refined mesh and its domain, against answers derived from refinement paths and side geometry, and for ids and addresses past the end; short: meshes refined down to the smallest permitted sides, checking refineability; galerkin: assembly of domains without degrees of freedom, with another continuity condition, with too few points in either direction; non-trivial = a mesh refined at least twice, or a refused assembly, distinct by state",
    assumptions: &["sides within a relative 1e-6 of the smallest length are not judged", "with several reasons to refuse an assembly any of them may be reported"],
};

fn missing_elem<T>(what: &str, id: usize, r: Result<T, MeshAccessError>) -> Res {
    match r {
        Err(MeshAccessError::ElemDoesNotExist(k)) if k == id => Ok(()),
        Err(e) => viol("wrong-error", format!("{}({}) gave {:?}", what, id, e)),
        Ok(_) => viol("missing-error", format!("{}({}) answered for an elem that does not exist", what, id)),
    }
}

fn missing_edge<T>(what: &str, id: usize, r: Result<T, MeshAccessError>) -> Res {
    match r {
        Err(MeshAccessError::EdgeDoesNotExist(k)) if k == id => Ok(()),
        Err(e) => viol("wrong-error", format!("{}({}) gave {:?}", what, id, e)),
        Ok(_) => viol("missing-error", format!("{}({}) answered for an edge that does not exist", what, id)),
    }
}

fn at(p: &Point, x: f64, y: f64, size: f64) -> bool {
    let t = |v: f64| 1e-9 * size + 1e-14 * v.abs();
    (p.x - x).abs() <= t(x) && (p.y - y).abs() <= t(y)
}

fn set(what: &str, got: Vec<usize>, want: &BTreeSet<usize>) -> Res {
    let s: BTreeSet<usize> = got.iter().copied().collect();
    ensure!(s.len() == got.len(), what, "{}: an item is listed twice in {:?}", what, got);
    ensure!(s == *want, what, "{}: {:?}, should be {:?}", what, got, want);
    Ok(())
}

/// What expansion orders say about the functions they stand for
fn check_orders(o: &PolyOrders, obs: &mut Obs) -> Res {
    let n = [o.ni, o.nj];
    ensure!(o.as_array() == [n[0] as usize, n[1] as usize], "orders", "{:?} as an array is {:?}", o, o.as_array());
    for (dir, top) in [(BasisDir::U, [n[0] as i32 - 1, n[1] as i32]), (BasisDir::V, [n[0] as i32, n[1] as i32 - 1]), (BasisDir::W, [n[0] as i32, n[1] as i32])] {
        let got: Vec<[u8; 2]> = lib("permutations", || o.permutations(dir).collect())?;
        let all: BTreeSet<[u8; 2]> = got.iter().copied().collect();
        let fits = all.iter().all(|p| p[0] as i32 <= top[0] && p[1] as i32 <= top[1]);
        ensure!(all.len() == got.len() && fits && got.len() as i32 == (top[0] + 1) * (top[1] + 1), "permutations", "{:?} towards {}: {:?}", o, dir, got);
    }
    for other in [[0, 0], [n[1], n[0]], [n[0].saturating_add(1), n[1] - 1], [255, 1], [1, 255]] {
        let got = o.max_with(other);
        ensure!(got == [n[0].max(other[0]), n[1].max(other[1])], "max-with", "{:?} with {:?} is {:?}", o, other, got);
    }
    obs.add("orders_checked", 1);
    Ok(())
}

pub fn check_mesh(mesh: &Mesh, obs: &mut Obs) -> Res {
    // elems by region and path
    let paths: BTreeMap<(usize, Vec<u8>), usize> = by_path(mesh);
    ensure!(paths.len() == mesh.elems.len(), "tree", "two elems have the same path");
    let mut below: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); mesh.elems.len()];
    let mut above: Vec<Vec<usize>> = vec![Vec::new(); mesh.elems.len()];
    for ((el, p), id) in &paths {
        for k in (0..p.len()).rev() {
            let a = paths[&(*el, p[..k].to_vec())];
            above[*id].push(a);
            below[a].insert(*id);
        }
    }
    let mut max = [0u8; 2];
    for e in mesh.elems.iter() {
        max = [max[0].max(e.poly_orders.ni), max[1].max(e.poly_orders.nj)];
        check_orders(&e.poly_orders, obs)?;
        let r = elem_rect(mesh, e.id);
        let (w, h) = (r[0][1] - r[0][0], r[1][1] - r[1][0]);
        let size = w.max(h);
        let p = lib("elem_points", || mesh.elem_points(e.id))?.or_viol("elem_points")?;
        for c in 0..4 {
            ensure!(at(p[c], r[0][c % 2], r[1][c / 2], size), "elem-points", "elem {} corner {} is {:?}, region {:?}", e.id, c, p[c], r);
        }
        let q = lib("elem_diag_points", || mesh.elem_diag_points(e.id))?.or_viol("elem_diag_points")?;
        ensure!(at(q[0], r[0][0], r[1][0], size) && at(q[1], r[0][1], r[1][1], size), "diag-points", "elem {} has diagonal {:?}, region {:?}", e.id, q, r);
        for inc in [true, false] {
            let mut want = below[e.id].clone();
            let mut up = above[e.id].clone();
            if inc {
                want.insert(e.id);
                up.insert(0, e.id);
            }
            set("descendant-elems", lib("descendant_elems", || mesh.descendant_elems(e.id, inc))?.or_viol("descendant_elems")?, &want)?;
            let got = lib("ancestor_elems", || mesh.ancestor_elems(e.id, inc))?.or_viol("ancestor_elems")?;
            ensure!(got == up, "ancestor-elems", "ancestors of elem {} ({}): {:?}, should be {:?}", e.id, inc, got, up);
        }
        let got = lib("elem_is_h_refineable", || mesh.elem_is_h_refineable(e.id))?.or_viol("elem_is_h_refineable")?;
        let short = w.min(h);
        if (short / MIN_EDGE_LENGTH - 1.0).abs() > 1e-6 || !below[e.id].is_empty() {
            let want = below[e.id].is_empty() && short > MIN_EDGE_LENGTH;
            ensure!(got == want, "refineable", "elem {} of {} by {} with {} descendants: refineable {}", e.id, w, h, below[e.id].len(), got);
            obs.add(if want { "refineable" } else if below[e.id].is_empty() { "too_short" } else { "refined" }, 1);
        }
        let got = lib("elem_p_refinement_window", || mesh.elem_p_refinement_window(e.id))?.or_viol("elem_p_refinement_window")?;
        let m = MAX_POLYNOMIAL_ORDER as i64;
        let want = [e.poly_orders.ni as i64, e.poly_orders.nj as i64].map(|o| [1 - o, m - o]);
        ensure!(got.map(|w| w.map(|x| x as i64)) == want, "window", "elem {} with orders {:?} has window {:?}", e.id, e.poly_orders, got);
        obs.add("elems_queried", 1);
    }
    let got = lib("max_expansion_orders", || mesh.max_expansion_orders())?;
    ensure!(got == max, "max-orders", "largest orders {:?}, should be {:?}", got, max);
    // edges: contained edges on the same line; those of one side of one element region form one family
    let seg: Vec<[f64; 4]> = mesh
        .edges
        .iter()
        .map(|e| {
            let (p, q) = (&mesh.nodes[e.nodes[0]].coords, &mesh.nodes[e.nodes[1]].coords);
            [p.x, p.y, q.x, q.y]
        })
        .collect();
    for e in mesh.edges.iter() {
        let p = lib("edge_points", || mesh.edge_points(e.id))?.or_viol("edge_points")?;
        let s = seg[e.id];
        ensure!([p[0].x, p[0].y, p[1].x, p[1].y] == s, "edge-points", "edge {} has points {:?}, nodes at {:?}", e.id, p, s);
        // where the elems that use it as a side say it is
        let size = (s[2] - s[0]) + (s[3] - s[1]);
        let t = 1e-12 * (size + s.iter().fold(0.0f64, |m, x| m.max(x.abs())));
        let want: BTreeSet<usize> = mesh
            .edges
            .iter()
            .filter(|f| f.id != e.id && f.dir == e.dir)
            .filter(|f| {
                let g = seg[f.id];
                g[0] >= s[0] - t && g[2] <= s[2] + t && g[1] >= s[1] - t && g[3] <= s[3] + t
            })
            .map(|f| f.id)
            .collect();
        for inc in [true, false] {
            let mut w = want.clone();
            if inc {
                w.insert(e.id);
            }
            set("descendant-edges", lib("descendant_edges", || mesh.descendant_edges(e.id, inc))?.or_viol("descendant_edges")?, &w)?;
        }
        if let Some([a, b]) = e.active_elem_pair() {
            for (x, y) in [(a, b), (b, a)] {
                let o = lib("other_active_elem_id", || e.other_active_elem_id(x))?;
                ensure!(o == Some(y), "other-active", "edge {} with active pair [{}, {}]: the other one of {} is {:?}", e.id, a, b, x, o);
            }
        } else {
            let o = lib("other_active_elem_id", || e.other_active_elem_id(0))?;
            ensure!(o.is_none(), "other-active", "inactive edge {} names {:?}", e.id, o);
        }
        obs.add("edges_queried", 1);
    }
    Ok(())
}

fn missing(mesh: &Mesh, rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = mesh.elems.len();
    for id in [n, n + 1, n + rng.below(1000), usize::MAX, usize::MAX / 2 + rng.below(9), 1 << 32] {
        missing_elem("elem_points", id, lib("elem_points past the end", || mesh.elem_points(id))?)?;
        missing_elem("elem_diag_points", id, lib("elem_diag_points past the end", || mesh.elem_diag_points(id))?)?;
        missing_elem("elem_is_h_refineable", id, lib("elem_is_h_refineable past the end", || mesh.elem_is_h_refineable(id))?)?;
        missing_elem("elem_p_refinement_window", id, lib("elem_p_refinement_window past the end", || mesh.elem_p_refinement_window(id))?)?;
        for inc in [true, false] {
            missing_elem("descendant_elems", id, lib("descendant_elems past the end", || mesh.descendant_elems(id, inc))?)?;
            missing_elem("ancestor_elems", id, lib("ancestor_elems past the end", || mesh.ancestor_elems(id, inc))?)?;
        }
        obs.add("missing_elems", 1);
    }
    let n = mesh.edges.len();
    for id in [n, n + 1, n + rng.below(1000), usize::MAX, 1 << 32] {
        missing_edge("edge_points", id, lib("edge_points past the end", || mesh.edge_points(id))?)?;
        for inc in [true, false] {
            missing_edge("descendant_edges", id, lib("descendant_edges past the end", || mesh.descendant_edges(id, inc))?)?;
        }
        obs.add("missing_edges", 1);
    }
    Ok(())
}

fn check_domain(d: &Domain, rng: &mut Rng, obs: &mut Obs) -> Res {
    let mesh = &d.mesh;
    ensure!(d.elems().map(|e| e.id).eq(0..mesh.elems.len()), "iterators", "elems() does not list all elems once");
    ensure!(d.edges().map(|e| e.id).eq(0..mesh.edges.len()), "iterators", "edges() does not list all edges once");
    ensure!(d.nodes().map(|e| e.id).eq(0..mesh.nodes.len()), "iterators", "nodes() does not list all nodes once");
    // every function by the elem it says it is on; addresses come from the degrees of freedom
    let mut on: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); mesh.elems.len()];
    for l in &d.basis_specs {
        for b in l {
            on[b.elem_id].insert(b.elem_idx.unwrap_or(usize::MAX));
        }
    }
    for (dof, x) in d.dofs.iter().enumerate() {
        for a in x.get_basis_specs() {
            let b = lib("get_basis_spec", || d.get_basis_spec(a))?.or_viol("get_basis_spec")?;
            ensure!(b.elem_id == a.elem_id && b.elem_idx == Some(a.elem_idx) && b.dof_id == Some(dof), "address", "degree of freedom {} leads to elem {} index {:?} of {:?}", dof, b.elem_id, b.elem_idx, b.dof_id);
            obs.add("addresses", 1);
        }
    }
    for e in 0..mesh.elems.len() {
        let n = on[e].len();
        ensure!(on[e].iter().copied().eq(0..n), "address", "functions on elem {} have indices {:?}", e, on[e]);
        for k in 0..n {
            let b = lib("get_basis_spec", || d.get_basis_spec(BSAddress::new(e, k)))?.or_viol("get_basis_spec")?;
            ensure!(b.elem_id == e && b.elem_idx == Some(k), "address", "address ({}, {}) leads to ({}, {:?})", e, k, b.elem_id, b.elem_idx);
            let (o, dir, dof) = lib("integration_data", || b.integration_data())?;
            ensure!(o == [b.i as usize, b.j as usize] && dir == b.dir && Some(dof) == b.dof_id, "integration-data", "function ({}, {}) towards {} of {:?} gives {:?}, {} and {}", b.i, b.j, b.dir, b.dof_id, o, dir, dof);
        }
        for k in [n, n + 1, n + rng.below(100), usize::MAX] {
            let r = lib("get_basis_spec past the end", || d.get_basis_spec(BSAddress::new(e, k)).map(|b| b.id))?;
            ensure!(r.is_err(), "missing-error", "address ({}, {}) is answered, elem has {} functions", e, k, n);
            obs.add("missing_addresses", 1);
        }
        let key = |l: &Vec<fem_2d::fem_domain::domain::dof::basis_spec::BasisSpec>| -> Vec<(usize, usize)> { l.iter().map(|b| (b.elem_id, b.elem_idx.unwrap_or(usize::MAX))).collect() };
        let own = |e: usize| -> Vec<(usize, usize)> { (0..on[e].len()).map(|k| (e, k)).collect() };
        let l = lib("local_basis_specs", || d.local_basis_specs(e))?.or_viol("local_basis_specs")?;
        ensure!(key(l) == own(e), "listing", "elem {} lists functions {:?}", e, key(l));
        let path = elem_path(mesh, e);
        let (mut down, mut up) = (BTreeMap::new(), Vec::new());
        for f in 0..mesh.elems.len() {
            if mesh.elems[f].element.id != mesh.elems[e].element.id || f == e {
                continue;
            }
            let q = elem_path(mesh, f);
            if q.len() > path.len() && q[..path.len()] == path[..] {
                down.insert(f, own(f));
            } else if q.len() < path.len() && path[..q.len()] == q[..] {
                up.push((q.len(), f));
            }
        }
        up.sort();
        let got = lib("descendant_basis_specs", || d.descendant_basis_specs(e))?.or_viol("descendant_basis_specs")?;
        let m: BTreeMap<usize, Vec<(usize, usize)>> = got.iter().map(|(f, l)| (*f, key(l))).collect();
        ensure!(m.len() == got.len() && m == down, "listing", "below elem {}: {:?}, should be {:?}", e, m, down);
        let got = lib("ancestor_basis_specs", || d.ancestor_basis_specs(e))?.or_viol("ancestor_basis_specs")?;
        let g: Vec<(usize, Vec<(usize, usize)>)> = got.iter().map(|(f, l)| (*f, key(l))).collect();
        let w: Vec<(usize, Vec<(usize, usize)>)> = up.iter().rev().map(|(_, f)| (*f, own(*f))).collect();
        ensure!(g == w, "listing", "above elem {}: {:?}, should be {:?}", e, g, w);
    }
    missing_domain(d, rng, obs)
}

fn missing_domain(d: &Domain, rng: &mut Rng, obs: &mut Obs) -> Res {
    let n = d.mesh.elems.len();
    for id in [n, n + 1, n + rng.below(1000), usize::MAX, 1 << 32] {
        missing_elem("local_basis_specs", id, lib("local_basis_specs past the end", || d.local_basis_specs(id))?)?;
        missing_elem("descendant_basis_specs", id, lib("descendant_basis_specs past the end", || d.descendant_basis_specs(id))?)?;
        missing_elem("ancestor_basis_specs", id, lib("ancestor_basis_specs past the end", || d.ancestor_basis_specs(id))?)?;
        for k in [0, 1, usize::MAX] {
            let r = lib("get_basis_spec past the end", || d.get_basis_spec(BSAddress::new(id, k)).map(|b| b.id))?;
            ensure!(r.is_err(), "missing-error", "address ({}, {}) is answered, there are {} elems", id, k, n);
        }
        obs.add("missing_in_domain", 1);
    }
    missing(&d.mesh, rng, obs)
}

fn assemble(d: &Domain, dims: Option<[usize; 2]>) -> Res<Result<GEP, GalerkinSamplingError>> {
    lib("galerkin_sample_gep_hcurl", || galerkin_sample_gep_hcurl::<HierPoly, CurlCurl, L2Inner>(d, dims))
}

fn run(ctx: &mut Ctx) -> Res {
    let path = ctx.scratch_file("mesh.json");
    let mut rng = ctx.rng.clone();
    match ctx.kind {
        "queries" => {
            let top = *rng.pick(&[3u8, 3, 6, 20]);
            let ho = HistOpts { max_elems: if top > 6 { 25 } else { 80 }, max_ops: 7, max_depth: 12 };
            let om = if top > 6 { OrderMode::Mixed(top) } else { OrderMode::Random(top) };
            let (mesh, desc) = if ctx.idx % 12 == 0 {
                rand_chain(&mut rng, &path, &BaseOpts::default(), 18, 200, OrderMode::Mixed(3))?
            } else {
                rand_mesh(&mut rng, &path, &BaseOpts::default(), &ho, om)?
            };
            let within = |v: Violation| Violation { sig: v.sig, msg: format!("{}; {}", v.msg, desc) };
            check_mesh(&mesh, &mut ctx.obs).map_err(within)?;
            missing(&mesh, &mut rng, &mut ctx.obs).map_err(within)?;
            let deep = mesh.elems.iter().any(|e| e.loc_stack().len() > 1);
            let h = snap_hash(&snapshot(&mesh, false));
            let d = domain_of(mesh)?;
            check_mesh(&d.mesh, &mut ctx.obs).map_err(within)?;
            check_domain(&d, &mut rng, &mut ctx.obs).map_err(within)?;
            if ctx.idx % 50 == 0 {
                // nothing exists in an empty mesh
                let cc = *rng.pick(&[ContinuityCondition::HCurl, ContinuityCondition::HDiv, ContinuityCondition::Discontinuous]);
                let d = lib("Domain::blank", || Domain::blank(cc))?;
                missing_domain(&d, &mut rng, &mut ctx.obs)?;
                let m = lib("max_expansion_orders", || d.mesh.max_expansion_orders())?;
                ensure!(m == [0, 0], "max-orders", "an empty mesh has largest orders {:?}", m);
            }
            if ctx.idx % 50 == 1 {
                // the domain over the square
                let cc = ContinuityCondition::HCurl;
                let d = lib("Domain::unit", || Domain::unit(cc))?;
                let r = elem_rect(&d.mesh, 0);
                ensure!(d.mesh.elems.len() == 1 && r == [[-1.0, 1.0]; 2] && d.cc == cc, "unit", "the domain over the square has {} elems, the first over {:?}, continuity {}", d.mesh.elems.len(), r, d.cc);
                let m = [d.mesh.elems[0].get_materials(), &fem_2d::fem_domain::domain::mesh::element::Materials::default()].map(|m| [m.eps_rel.re, m.eps_rel.im, m.mu_rel.re, m.mu_rel.im]);
                ensure!(m == [[1.0, 0.0, 1.0, 0.0]; 2], "unit", "the square and the default materials have eps, mu = {:?}, not those of vacuum", m);
                check_mesh(&d.mesh, &mut ctx.obs)?;
                check_domain(&d, &mut rng, &mut ctx.obs)?;
            }
            if deep {
                ctx.nontrivial = Some(h);
            }
            ctx.sample = Some(desc);
        }
        "short" => {
            let mut spec = base_spec(&mut rng, &BaseOpts { max_nx: 2, max_ny: 2, max_elems: 4, ..Default::default() });
            // lengths around small multiples of the smallest one
            let f = MIN_EDGE_LENGTH * 2f64.powf(rng.uni(-2.0, 6.0)) / min_side(&spec.load(&path)?, 0);
            for n in spec.nodes.iter_mut() {
                *n = [n[0] * f, n[1] * f];
            }
            let mut mesh = spec.load(&path)?;
            let mut log = spec.to_json();
            check_mesh(&mesh, &mut ctx.obs)?;
            for _ in 0..8 {
                let c: Vec<usize> = leaves(&mesh).into_iter().filter(|e| min_side(&mesh, *e) > 2.5 * MIN_EDGE_LENGTH).collect();
                if c.is_empty() || mesh.elems.len() > 60 {
                    break;
                }
                let l = vec![(*rng.pick(&c), rand_href(&mut rng))];
                log += &format!(" {:?}", l);
                // a shorter side next to it may still forbid this; what is allowed is for other monitors to decide
                match try_lib(|| mesh.execute_h_refinements(l.clone())) {
                    Ok(_) => (),
                    Err(_) => return Ok(()),
                }
            }
            let within = |v: Violation| Violation { sig: v.sig, msg: format!("{}; {}", v.msg, log) };
            check_mesh(&mesh, &mut ctx.obs).map_err(within)?;
            missing(&mesh, &mut rng, &mut ctx.obs).map_err(within)?;
            if mesh.elems.iter().any(|e| e.loc_stack().len() > 1) {
                ctx.nontrivial = Some(snap_hash(&snapshot(&mesh, false)));
            }
            ctx.sample = Some(log);
        }
        _ => {
            let (mut d, desc) = match rng.below(5) {
                0 => (Domain::blank(ContinuityCondition::HCurl), "blank".to_string()),
                1 => {
                    // no two elements share a side and the orders leave nothing inside
                    let mut m = lib("Mesh::unit", Mesh::unit)?;
                    if rng.chance(0.5) {
                        let spec = base_spec(&mut rng, &BaseOpts { max_nx: 1, max_ny: 1, max_elems: 1, ..Default::default() });
                        m = spec.load(&path)?;
                    }
                    (domain_of(m)?, "single element of order 1".to_string())
                }
                _ => {
                    let (m, desc) = rand_mesh(&mut rng, &path, &BaseOpts { max_nx: 2, max_ny: 2, max_elems: 3, ..Default::default() }, &HistOpts { max_elems: 15, max_ops: 2, max_depth: 3 }, OrderMode::Random(3))?;
                    (domain_of(m)?, desc)
                }
            };
            let mut reasons: BTreeSet<&str> = BTreeSet::new();
            if d.dofs.is_empty() {
                reasons.insert("EmptyDOFSet");
            }
            if rng.chance(0.3) {
                d.cc = *rng.pick(&[ContinuityCondition::HDiv, ContinuityCondition::Discontinuous]);
                reasons.insert("WrongContinuityCondition");
            }
            let dims = if rng.chance(0.3) {
                None
            } else {
                let mut q = [4 + rng.below(6), 4 + rng.below(6)];
                if rng.chance(0.6) {
                    let few = rng.below(4);
                    match rng.below(3) {
                        0 => q[0] = few,
                        1 => q[1] = few,
                        _ => q = [few, rng.below(4)],
                    }
                }
                if q[0] < 4 || q[1] < 4 {
                    reasons.insert("InvalidGLQSettings");
                }
                Some(q)
            };
            let before = snapshot(&d.mesh, true);
            let got = match assemble(&d, dims)? {
                Ok(g) => {
                    ensure!(g.a.dimension == d.dofs.len() && g.b.dimension == d.dofs.len(), "dimension", "{}: matrices of dimension {} and {} for {} degrees of freedom", desc, g.a.dimension, g.b.dimension, d.dofs.len());
                    None
                }
                Err(GalerkinSamplingError::WrongContinuityCondition(want, is)) => {
                    ensure!(want == ContinuityCondition::HCurl && is == d.cc, "wrong-error", "{}: error names {} and {}", desc, want, is);
                    Some("WrongContinuityCondition")
                }
                Err(GalerkinSamplingError::EmptyDOFSet) => Some("EmptyDOFSet"),
                Err(GalerkinSamplingError::InvalidGLQSettings) => Some("InvalidGLQSettings"),
            };
            same_snapshot(&before, &snapshot(&d.mesh, true), "changed-mesh", &desc)?;
            match got {
                None => ensure!(reasons.is_empty(), "missing-error", "{}: points {:?}, continuity {}, {} degrees of freedom: accepted", desc, dims, d.cc, d.dofs.len()),
                Some(g) => ensure!(reasons.contains(g), "wrong-error", "{}: points {:?}, continuity {}, {} degrees of freedom: refused with {}", desc, dims, d.cc, d.dofs.len(), g),
            }
            ctx.obs.add(&format!("assembly_{}", got.unwrap_or("accepted")), 1);
            if !reasons.is_empty() {
                ctx.nontrivial = Some(fnv(format!("{} {:?} {}", desc, dims, d.cc).as_bytes()));
            }
            ctx.sample = Some(format!("{} | points {:?} continuity {} -> {:?}", desc, dims, d.cc, got));
        }
    }
    Ok(())
}
