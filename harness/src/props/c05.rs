//! Interior edges are activated at exactly one level; boundary edges never.
use crate::gen::*;
use crate::structure::*;
use crate::util::*;
use crate::{Ctx, Kind, Prop};
use fem_2d::fem_domain::domain::mesh::space::ParaDir;
use fem_2d::prelude::*;

pub const PROP: Prop = Prop {
    id: "C05",
    kinds: &[
        Kind::new("history", 45000, 1125000),
        Kind::new("deep", 9000, 225000),
        Kind::new("late", 12000, 300000),
        Kind::new("chains", 6000, 150000),
        Kind::new("huge", 12, 300),
    ],
    run,
    threads: 8,
    rule: "activation after every refinement step of random histories (n-irregular, anisotropic; also where a coarse neighbour is refined only later), re-derived from the elems' own side lists and checked geometrically on every elementary segment; non-trivial = some interior edge below the coarsest level is active or an edge was handed over, distinct by activation pattern",
    assumptions: &["base meshes are axis aligned and conforming"],
};

pub fn check_activation(mesh: &Mesh, obs: &mut Obs) -> Res<u64> {
    let exp = expected_activation(mesh);
    let users = edge_users(mesh);
    let mut h = 0u64;
    for e in mesh.edges.iter() {
        let a = e.active_elem_pair();
        ensure!(!(e.boundary && a.is_some()), "boundary-active", "boundary edge {} is active with {:?}", e.id, a);
        if let Some([x, y]) = a {
            ensure!(
                users[e.id][0].contains(&x) && users[e.id][1].contains(&y),
                "active-pair",
                "edge {} is active with {:?}; elems below/left {:?}, above/right {:?}",
                e.id,
                a,
                users[e.id][0],
                users[e.id][1]
            );
            // geometric: x lies below / left
            let (rx, ry) = (elem_rect(mesh, x), elem_rect(mesh, y));
            let ok = match e.dir {
                ParaDir::U => rx[1][1] <= ry[1][0] + 1e-12 * ry[1][0].abs(),
                ParaDir::V => rx[0][1] <= ry[0][0] + 1e-12 * ry[0][0].abs(),
            };
            ensure!(ok, "active-pair", "edge {}: elem {} {:?} is not below/left of {} {:?}", e.id, x, rx, y, ry);
            let o = |i| lib("other_active_elem_id", || e.other_active_elem_id(i));
            ensure!(o(x)? == Some(y) && o(y)? == Some(x), "other-active", "edge {}: {:?}", e.id, a);
        } else {
            let o = lib("other_active_elem_id", || e.other_active_elem_id(0))?;
            ensure!(o.is_none(), "other-active", "inactive edge {} names {:?}", e.id, o);
        }
        ensure!(a == exp[e.id], "activation", "edge {} ({:?}): active pair {:?}, expected {:?}", e.id, e.nodes, a, exp[e.id]);
        if a.is_some() {
            h = h.rotate_left(7) ^ fnv(format!("{} {:?}", e.id, a).as_bytes());
            obs.add("active_edges", 1);
            if e.parent_id().is_some() {
                obs.add("active_edges_below_coarsest", 1);
            }
            if e.has_children() {
                obs.add("active_edges_with_children", 1);
            }
        }
    }
    // geometric: every elementary segment of every interior line is covered by exactly one active edge
    let seg: Vec<(usize, [f64; 2], ParaDir)> = mesh
        .edges
        .iter()
        .filter(|e| !e.has_children())
        .map(|e| {
            let (p, q) = (&mesh.nodes[e.nodes[0]].coords, &mesh.nodes[e.nodes[1]].coords);
            (e.id, [p.x + (q.x - p.x) * 0.37, p.y + (q.y - p.y) * 0.37], e.dir)
        })
        .collect();
    let act: Vec<(usize, [f64; 4], ParaDir)> = mesh
        .edges
        .iter()
        .filter(|e| e.active_elem_pair().is_some())
        .map(|e| {
            let (p, q) = (&mesh.nodes[e.nodes[0]].coords, &mesh.nodes[e.nodes[1]].coords);
            (e.id, [p.x, p.y, q.x, q.y], e.dir)
        })
        .collect();
    let base: Vec<Rect> = (0..mesh.elements.len()).map(|i| base_rect(mesh, i)).collect();
    // a step off a line that stays within the smallest elem
    let d = 0.2360679775 * leaves(mesh).iter().map(|e| min_side(mesh, *e)).fold(base_gap(mesh), f64::min);
    for (id, p, dir) in &seg {
        let len = mesh.edges[*id].length;
        let t = (1e-6 * len).min(d);
        let n = act
            .iter()
            .filter(|(_, r, d)| {
                d == dir
                    && match d {
                        ParaDir::U => (r[1] - p[1]).abs() < t && r[0] < p[0] && p[0] < r[2],
                        ParaDir::V => (r[0] - p[0]).abs() < t && r[1] < p[1] && p[1] < r[3],
                    }
            })
            .count();
        let interior = match dir {
            ParaDir::U => in_domain(&base, p[0], p[1] - d) && in_domain(&base, p[0], p[1] + d),
            ParaDir::V => in_domain(&base, p[0] - d, p[1]) && in_domain(&base, p[0] + d, p[1]),
        };
        ensure!(
            n == interior as usize,
            "coverage",
            "segment of edge {} at {:?} ({}) is covered by {} active edges",
            id,
            p,
            if interior { "interior" } else { "boundary" },
            n
        );
        obs.add("segments_checked", 1);
    }
    Ok(h)
}

fn run(ctx: &mut Ctx) -> Res {
    let path = ctx.scratch_file("mesh.json");
    let mut rng = ctx.rng.clone();
    let spec = if ctx.kind == "huge" { large_spec(&mut rng, 100, 900, Materials4::Unit) } else { base_spec(&mut rng, &BaseOpts::default()) };
    let mut mesh = spec.load(&path)?;
    let mut log = if ctx.kind == "huge" { format!("{} base elements; ", spec.elems.len()) } else { spec.to_json() };
    if ctx.kind == "huge" {
        let l = refine_history(&mut rng, &mut mesh, &HistOpts { max_elems: 4000, max_ops: 8, max_depth: 7 })?;
        log += &format!("{} characters of refinements; ", l.len());
        ctx.obs.max("elems", mesh.elems.len() as f64);
    }
    let mut h = check_activation(&mesh, &mut ctx.obs)?;
    let steps = if ctx.kind == "deep" { 10 } else { 1 + rng.below(6) };
    let c = [0, 1].map(|k| {
        let b = base_rect(&mesh, 0);
        b[k][rng.below(2)]
    });
    if ctx.kind == "chains" {
        log += &chain_history(&mut rng, &mut mesh, 18, 260)?;
        ctx.obs.max("levels", mesh.elems.iter().map(|e| e.loc_stack().len()).max().unwrap() as f64);
        h = check_activation(&mesh, &mut ctx.obs)?;
        ctx.obs.add("steps", 1);
    }
    for s in 0..if ctx.kind == "chains" { 2 } else { steps } {
        if mesh.elems.len() > 220 && ctx.kind != "huge" || mesh.elems.len() > 6000 {
            break;
        }
        if ctx.kind == "deep" || (ctx.kind == "late" && s < 3) {
            // refine around a corner; "late" then refines the coarse neighbours afterwards
            let mut l = Vec::new();
            for e in leaves(&mesh) {
                let r = elem_rect(&mesh, e);
                if (r[0][0] == c[0] || r[0][1] == c[0]) && (r[1][0] == c[1] || r[1][1] == c[1]) && min_side(&mesh, e) > 1e-3 && rng.chance(0.8) {
                    l.push((e, rand_href(&mut rng)));
                }
            }
            log += &format!(" exec {:?};", l);
            lib("execute_h_refinements", || mesh.execute_h_refinements(l.clone()))?.or_viol("execute_h_refinements")?;
        } else if ctx.kind == "late" {
            let mut lv: Vec<usize> = leaves(&mesh).into_iter().filter(|e| min_side(&mesh, *e) > 1e-3).collect();
            lv.sort_by_key(|e| mesh.elems[*e].loc_stack().len());
            lv.truncate(4);
            if lv.is_empty() {
                break;
            }
            let l = vec![(*rng.pick(&lv), rand_href(&mut rng))];
            log += &format!(" exec {:?};", l);
            lib("execute_h_refinements", || mesh.execute_h_refinements(l.clone()))?.or_viol("execute_h_refinements")?;
        } else {
            log += &refine_history(&mut rng, &mut mesh, &HistOpts { max_elems: 220, max_ops: 1, max_depth: 12 })?;
        }
        h = check_activation(&mesh, &mut ctx.obs)?;
        ctx.obs.add("steps", 1);
    }
    let below = mesh.edges.iter().any(|e| e.active_elem_pair().is_some() && e.parent_id().is_some());
    let dom = domain_of(mesh)?;
    let h2 = check_activation(&dom.mesh, &mut ctx.obs)?;
    ensure!(h == h2, "activation", "building a domain changed the activation");
    if below {
        ctx.nontrivial = Some(h);
    }
    ctx.sample = Some(log);
    Ok(())
}
