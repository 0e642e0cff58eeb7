//! Degrees of freedom and basis functions pair up exactly once and completely.
use crate::gen::*;
use crate::structure::*;
use crate::util::*;
use crate::{Ctx, Kind, Prop};
use fem_2d::fem_domain::domain::dof::basis_spec::{BasisDir, BasisLoc};
use fem_2d::prelude::*;
use std::collections::{BTreeMap, BTreeSet};

pub const PROP: Prop = Prop {
    id: "C06",
    kinds: &[
        Kind::new("mixed", 30000, 750000),
        Kind::new("high", 1500, 37500),
        Kind::new("large", 250, 6250),
        Kind::new("chains", 4000, 100000),
        Kind::new("huge", 5, 100),
    ],
    run,
    threads: 8,
    rule: "random hp-meshes with independent orders on every elem; the complete expected set of degrees of freedom and basis functions is derived from the refinement tree and compared with the domain in both directions; huge: thousands of elements and up to some hundred thousand degrees of freedom; non-trivial = at least one edge-type degree of freedom, distinct by the set of functions",
    assumptions: &["continuity condition H(curl), the only one the library implements"],
};

type Fun = (usize, u8, u8, u8); // elem, dir (0 = U, 1 = V), i, j

pub fn expected_dofs(mesh: &Mesh) -> BTreeSet<Vec<Fun>> {
    let mut set = BTreeSet::new();
    for e in mesh.elems.iter().filter(|e| !e.has_children()) {
        let (ni, nj) = (e.poly_orders.ni, e.poly_orders.nj);
        for i in 0..ni {
            for j in 2..=nj {
                set.insert(vec![(e.id, 0, i, j)]);
            }
        }
        for i in 2..=ni {
            for j in 0..nj {
                set.insert(vec![(e.id, 1, i, j)]);
            }
        }
    }
    for (id, pair) in expected_activation(mesh).iter().enumerate() {
        if let Some([a, b]) = pair {
            let (oa, ob) = (&mesh.elems[*a].poly_orders, &mesh.elems[*b].poly_orders);
            let horizontal = mesh.elems[*a].edges[1] == id;
            if horizontal {
                for i in 0..oa.ni.min(ob.ni) {
                    let mut v = vec![(*a, 0, i, 1), (*b, 0, i, 0)];
                    v.sort();
                    set.insert(v);
                }
            } else {
                for j in 0..oa.nj.min(ob.nj) {
                    let mut v = vec![(*a, 1, 1, j), (*b, 1, 0, j)];
                    v.sort();
                    set.insert(v);
                }
            }
        }
    }
    set
}

pub fn check_domain(d: &Domain, obs: &mut Obs) -> Res<u64> {
    let mesh = &d.mesh;
    let n = mesh.elems.len();
    ensure!(d.basis_specs.len() == n, "basis-lists", "{} basis lists for {} elems", d.basis_specs.len(), n);
    for (k, dof) in d.dofs.iter().enumerate() {
        ensure!(dof.id == k, "dof-id", "dof at position {} has id {}", k, dof.id);
    }
    // stored functions
    let mut owner: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    let mut got: BTreeSet<Vec<Fun>> = BTreeSet::new();
    for dof in d.dofs.iter() {
        let mut funs = Vec::new();
        for ad in dof.get_basis_specs() {
            let bs = lib("get_basis_spec", || d.get_basis_spec(ad))?.map_err(|e| Violation {
                sig: "address".into(),
                msg: format!("dof {}: address {} gives {}", dof.id, ad, e),
            })?;
            ensure!(
                bs.dof_id == Some(dof.id) && bs.elem_id == ad.elem_id && bs.elem_idx == Some(ad.elem_idx),
                "address",
                "dof {}: at {} there is {} with elem_idx {:?}",
                dof.id,
                ad,
                bs,
                bs.elem_idx
            );
            if let Some(o) = owner.insert((ad.elem_id, ad.elem_idx), dof.id) {
                return viol("shared-function", format!("function {} belongs to dofs {} and {}", ad, o, dof.id));
            }
            let dir = match bs.dir {
                BasisDir::U => 0,
                BasisDir::V => 1,
                BasisDir::W => return viol("direction", format!("function {} is W-directed", bs)),
            };
            // the geometric component it is stored with
            let e = &mesh.elems[bs.elem_id];
            let loc = match (dir, bs.i, bs.j) {
                (0, _, j) if j < 2 => BasisLoc::EdgeBs(j, e.edges[j as usize]),
                (1, i, _) if i < 2 => BasisLoc::EdgeBs(i + 2, e.edges[i as usize + 2]),
                _ => BasisLoc::ElemBs,
            };
            ensure!(bs.loc == loc, "location", "function {} is recorded at {:?}, belongs at {:?}", bs, bs.loc, loc);
            funs.push((bs.elem_id, dir, bs.i, bs.j));
        }
        funs.sort();
        ensure!(got.insert(funs.clone()), "duplicate-dof", "two dofs for {:?}", funs);
    }
    let mut all: BTreeSet<Fun> = BTreeSet::new();
    for (e, l) in d.basis_specs.iter().enumerate() {
        for (k, bs) in l.iter().enumerate() {
            ensure!(bs.elem_id == e && bs.elem_idx == Some(k), "basis-lists", "function {} is stored at {}({})", bs, e, k);
            ensure!(owner.get(&(e, k)).copied() == bs.dof_id && bs.dof_id.is_some(), "orphan", "function {} at {}({}) has no dof that lists it", bs, e, k);
            let dir = if bs.dir == BasisDir::U { 0 } else { 1 };
            ensure!(all.insert((e, dir, bs.i, bs.j)), "duplicate-function", "function {} is stored twice", bs);
            obs.add("functions_checked", 1);
        }
    }
    let exp = expected_dofs(mesh);
    if let Some(x) = exp.difference(&got).next() {
        return viol("missing-dof", format!("no degree of freedom for {:?} (elem, dir, i, j)", x));
    }
    if let Some(x) = got.difference(&exp).next() {
        return viol("extra-dof", format!("unexpected degree of freedom for {:?} (elem, dir, i, j)", x));
    }
    // listings
    // (of large meshes, a sample)
    let step = 1 + n / 1500;
    for e in (0..n).filter(|e| e % step == n % step) {
        let l = lib("local_basis_specs", || d.local_basis_specs(e))?.or_viol("local_basis_specs")?;
        ensure!(l.len() == d.basis_specs[e].len() && l.iter().zip(d.basis_specs[e].iter()).all(|(a, b)| a == b && a.id == b.id), "listing", "local_basis_specs({})", e);
        for (name, r) in [
            ("descendant_basis_specs", lib("descendant_basis_specs", || d.descendant_basis_specs(e))?.or_viol("descendant_basis_specs")?),
            ("ancestor_basis_specs", lib("ancestor_basis_specs", || d.ancestor_basis_specs(e))?.or_viol("ancestor_basis_specs")?),
        ] {
            let me = elem_path(mesh, e);
            let el = mesh.elems[e].element.id;
            let want: BTreeSet<usize> = (0..n)
                .filter(|x| {
                    let p = elem_path(mesh, *x);
                    *x != e
                        && mesh.elems[*x].element.id == el
                        && if name.starts_with('d') { p.len() > me.len() && p[..me.len()] == me[..] } else { me.len() > p.len() && me[..p.len()] == p[..] }
                })
                .collect();
            let have: BTreeSet<usize> = r.iter().map(|x| x.0).collect();
            ensure!(want == have && r.len() == have.len(), "listing", "{}({}) lists elems {:?}, expected {:?}", name, e, have, want);
            for (x, l) in r {
                ensure!(
                    l.len() == d.basis_specs[x].len() && l.iter().zip(d.basis_specs[x].iter()).all(|(a, b)| a == b && a.elem_id == b.elem_id && a.dof_id == b.dof_id),
                    "listing",
                    "{}({}): functions of elem {}",
                    name,
                    e,
                    x
                );
            }
        }
    }
    obs.add("dofs_checked", d.dofs.len() as u64);
    obs.add("edge_dofs", got.iter().filter(|g| g.len() == 2).count() as u64);
    obs.add("edge_dofs_on_refined_elems", got.iter().filter(|g| g.len() == 2 && g.iter().any(|f| mesh.elems[f.0].has_children())).count() as u64);
    let h = if got.iter().any(|g| g.len() == 2) { fnv(format!("{:?}", got).as_bytes()) } else { 0 };
    Ok(h)
}

fn run(ctx: &mut Ctx) -> Res {
    let path = ctx.scratch_file("mesh.json");
    let mut rng = ctx.rng.clone();
    let (max_elems, p) = match ctx.kind {
        "high" => (12, 20),
        "large" => (400, 3),
        _ => (60, 5),
    };
    let (mesh, desc) = if ctx.kind == "huge" {
        // more than 65 536 degrees of freedom now and then
        let s = if ctx.idx % 5 == 4 { large_spec(&mut rng, 7500, 9000, Materials4::Unit) } else { large_spec(&mut rng, 500, 2500, Materials4::Unit) };
        let mut m = s.load(&path)?;
        let h = refine_history(&mut rng, &mut m, &HistOpts { max_elems: s.elems.len() + 2000, max_ops: 3, max_depth: 6 })?;
        set_orders(&mut rng, &mut m, OrderMode::Mixed(6))?;
        (m, format!("{} base elements, {} chars of refinements", s.elems.len(), h.len()))
    } else if ctx.kind == "chains" {
        rand_chain(&mut rng, &path, &BaseOpts::default(), 18, 260, OrderMode::Mixed(3))?
    } else {
        rand_mesh(&mut rng, &path, &BaseOpts::default(), &HistOpts { max_elems, max_ops: if ctx.kind == "large" { 12 } else { 5 }, max_depth: 10 }, OrderMode::Mixed(p))?
    };
    let d = domain_of(mesh)?;
    let h = check_domain(&d, &mut ctx.obs)?;
    ctx.obs.max("dofs", d.dofs.len() as f64);
    if h != 0 {
        ctx.nontrivial = Some(h);
    }
    ctx.sample = Some(format!("{} | {} dofs", desc, d.dofs.len()));
    Ok(())
}
