//! Refined mesh stays a valid nested tiling with no duplicated geometry.
use crate::gen::*;
use crate::structure::*;
use crate::util::*;
use crate::{Ctx, Kind, Prop};
use fem_2d::prelude::*;

pub const PROP: Prop = Prop {
    id: "C01",
    kinds: &[
        Kind::new("history", 10400, 260000),
        Kind::new("deep", 2400, 60000),
        Kind::new("tiny", 2400, 60000),
        Kind::new("unit", 2400, 60000),
        Kind::new("large", 240, 6000),
        Kind::new("huge", 4, 60),
    ],
    run,
    threads: 8,
    rule: "random base mesh (grid with holes, permuted numbering, random/anisotropic/near-limit sizes) + random h-refinement history through all entry points; the full structural monitor runs after every operation; huge: tens of thousands of elems; non-trivial = at least one refinement happened, distinct by final snapshot",
    assumptions: &["base meshes are axis aligned, conforming and listed with corners in the documented order"],
};

fn run(ctx: &mut Ctx) -> Res {
    let path = ctx.scratch_file("mesh.json");
    let mut rng = ctx.rng.clone();
    if ctx.kind == "huge" {
        return huge(ctx, &mut rng, &path);
    }
    let (mut mesh, desc) = match ctx.kind {
        "unit" => (lib("Mesh::unit", Mesh::unit)?, "unit".to_string()),
        "tiny" => {
            let s = base_spec(&mut rng, &BaseOpts { spacing: Spacing::Tiny, ..Default::default() });
            (s.load(&path)?, s.to_json())
        }
        "large" => {
            let s = base_spec(&mut rng, &BaseOpts { max_nx: 6, max_ny: 6, max_elems: 30, ..Default::default() });
            (s.load(&path)?, s.to_json())
        }
        _ => {
            let s = base_spec(&mut rng, &BaseOpts::default());
            (s.load(&path)?, s.to_json())
        }
    };
    ctx.sample = Some(desc.clone());
    check(&mesh, &mut ctx.obs)?;
    let steps = match ctx.kind {
        "deep" => 12 + rng.below(8),
        "large" => 5,
        _ => 1 + rng.below(7),
    };
    let max = if ctx.kind == "large" { 3000 } else { 500 };
    let mut log = String::new();
    let focus = {
        let b = base_rect(&mesh, rng.below(mesh.elements.len()));
        let f = [rng.f(), rng.f()].map(|t| if t < 0.3 { 0.0 } else if t > 0.7 { 1.0 } else { t });
        [b[0][0] + f[0] * (b[0][1] - b[0][0]), b[1][0] + f[1] * (b[1][1] - b[1][0])]
    };
    let mut refined = 0u64;
    for _ in 0..steps {
        if mesh.elems.len() > max {
            break;
        }
        let before = mesh.elems.len();
        if ctx.kind == "deep" {
            // follow a point down to the smallest sizes
            let lv = leaves(&mesh);
            let mut l = Vec::new();
            for e in lv {
                let r = elem_rect(&mesh, e);
                if r[0][0] <= focus[0] && focus[0] <= r[0][1] && r[1][0] <= focus[1] && focus[1] <= r[1][1] {
                    l.push((e, rand_href(&mut rng)));
                }
            }
            let r = lib("execute_h_refinements", || mesh.execute_h_refinements(l.clone()))?;
            log += &format!("exec {:?} -> {}; ", l, r.is_ok());
            ctx.obs.add("operations", 1);
        } else if ctx.kind == "tiny" {
            let lv = leaves(&mesh);
            let mut l = Vec::new();
            for _ in 0..1 + rng.below(3) {
                l.push((*rng.pick(&lv), rand_href(&mut rng)));
            }
            let r = lib("execute_h_refinements", || mesh.execute_h_refinements(l.clone()))?;
            log += &format!("exec {:?} -> {}; ", l, r.is_ok());
            ctx.obs.add("operations", 1);
        } else {
            log += &refine_history(&mut rng, &mut mesh, &HistOpts { max_elems: max, max_ops: 1, max_depth: 30 })?;
            ctx.obs.add("operations", 1);
        }
        check(&mesh, &mut ctx.obs)?;
        refined += (mesh.elems.len() - before) as u64;
    }
    check_points(&mesh, &mut rng, 60)?;
    // a domain built from the mesh must not disturb it
    let dom = domain_of(mesh)?;
    check(&dom.mesh, &mut ctx.obs)?;
    ctx.obs.add("elems_created", refined);
    if refined > 0 {
        ctx.nontrivial = Some(snap_hash(&snapshot(&dom.mesh, true)));
    }
    ctx.sample = Some(format!("{} | {}", desc, log));
    let _: &Mesh = &dom.mesh;
    Ok(())
}

/// tens of thousands of elems (now and then more than 65 536), then a few more operations
fn huge(ctx: &mut Ctx, rng: &mut Rng, path: &str) -> Res {
    let most = ctx.idx % 4 == 3;
    let (mut mesh, desc) = if rng.chance(0.5) {
        (lib("Mesh::unit", Mesh::unit)?, "unit".to_string())
    } else {
        let s = large_spec(rng, 50, 300, Materials4::Unit);
        (s.load(path)?, format!("{} base elements", s.elems.len()))
    };
    let goal = if most { 66_000 } else { 12_000 };
    let mut log = String::new();
    while mesh.elems.len() < goal {
        let h = if mesh.elems.len() < goal / 4 && rng.chance(0.7) { HRef::T } else { *rng.pick(&[HRef::u(), HRef::v()]) };
        let before = mesh.elems.len();
        if rng.chance(0.5) {
            lib("global_h_refinement", || mesh.global_h_refinement(h))?;
        } else {
            let lv = leaves(&mesh);
            lib("h_refine_elems", || mesh.h_refine_elems(lv.clone(), h))?.or_viol("h_refine_elems")?;
        }
        log += &format!("all {} -> {}; ", h, mesh.elems.len());
        ensure!(mesh.elems.len() > before, "no-progress", "{} {}", desc, log);
        ctx.obs.add("operations", 1);
    }
    check(&mesh, &mut ctx.obs)?;
    // the last ones refined further
    for _ in 0..3 {
        let lv = leaves(&mesh);
        let mut l: Vec<(usize, HRef)> = (0..4).map(|_| (*rng.pick(&lv), rand_href(rng))).collect();
        l.push((*lv.last().unwrap(), rand_href(rng)));
        l.sort_by_key(|x| x.0);
        l.dedup_by_key(|x| x.0);
        let before = mesh.elems.len();
        lib("execute_h_refinements", || mesh.execute_h_refinements(l.clone()))?.or_viol("execute_h_refinements")?;
        log += &format!("{:?} -> {}; ", l, mesh.elems.len());
        ensure!(mesh.elems.len() > before, "no-progress", "{} {}", desc, log);
        ctx.obs.add("operations", 1);
    }
    check(&mesh, &mut ctx.obs)?;
    check_points(&mesh, rng, 60)?;
    ctx.obs.max("elems", mesh.elems.len() as f64);
    ctx.nontrivial = Some(fnv(log.as_bytes()));
    ctx.sample = Some(format!("{} | {}", desc, log));
    Ok(())
}
