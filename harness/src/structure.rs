//! C01 monitor: everything the mesh reports, checked against the geometry implied by its base elements and refinement
//! paths; and the observable snapshot of a mesh used by other monitors.
use crate::util::*;
use fem_2d::fem_domain::domain::mesh::h_refinement::HRefLoc;
use fem_2d::fem_domain::domain::mesh::space::ParaDir;
use fem_2d::fem_domain::domain::mesh::{Mesh, MAX_POLYNOMIAL_ORDER};
use json::JsonValue;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

pub type Rect = [[f64; 2]; 2]; // [x range, y range]

/// 0..8 code of a location
pub fn loc_code(l: HRefLoc) -> u8 {
    match l {
        HRefLoc::SW => 0,
        HRefLoc::SE => 1,
        HRefLoc::NW => 2,
        HRefLoc::NE => 3,
        HRefLoc::W => 4,
        HRefLoc::E => 5,
        HRefLoc::S => 6,
        HRefLoc::N => 7,
    }
}

/// which half of the u / v range a location takes: -1 lower, 1 upper, 0 both
pub fn loc_halves(code: u8) -> [i8; 2] {
    match code {
        0 => [-1, -1],
        1 => [1, -1],
        2 => [-1, 1],
        3 => [1, 1],
        4 => [-1, 0],
        5 => [1, 0],
        6 => [0, -1],
        7 => [0, 1],
        _ => unreachable!(),
    }
}

pub fn sub_interval([a, b]: [f64; 2], h: i8) -> [f64; 2] {
    let m = (a + b) / 2.0;
    match h {
        -1 => [a, m],
        1 => [m, b],
        _ => [a, b],
    }
}

pub fn sub_rect(r: Rect, code: u8) -> Rect {
    let h = loc_halves(code);
    [sub_interval(r[0], h[0]), sub_interval(r[1], h[1])]
}

pub fn base_rect(mesh: &Mesh, element: usize) -> Rect {
    let p = &mesh.elements[element].points;
    [[p[0].x, p[3].x], [p[0].y, p[3].y]]
}

/// smallest distance between two different base coordinates on one axis (holes included)
pub fn base_gap(mesh: &Mesh) -> f64 {
    let mut g = f64::INFINITY;
    for ax in 0..2 {
        let mut c: Vec<f64> = (0..mesh.elements.len()).flat_map(|e| base_rect(mesh, e)[ax]).collect();
        c.sort_by(|a, b| a.partial_cmp(b).unwrap());
        for w in c.windows(2) {
            if w[1] > w[0] {
                g = g.min(w[1] - w[0]);
            }
        }
    }
    g
}

/// rectangle of an elem from its base element and its recorded path only
pub fn elem_rect(mesh: &Mesh, elem: usize) -> Rect {
    let e = &mesh.elems[elem];
    let mut r = base_rect(mesh, e.element.id);
    for (_, l) in e.loc_stack() {
        r = sub_rect(r, loc_code(*l));
    }
    r
}

/// same as a path of codes
pub fn elem_path(mesh: &Mesh, elem: usize) -> Vec<u8> {
    mesh.elems[elem].loc_stack().iter().map(|(_, l)| loc_code(*l)).collect()
}

pub fn in_domain(base: &[Rect], x: f64, y: f64) -> bool {
    base.iter().any(|r| r[0][0] < x && x < r[0][1] && r[1][0] < y && y < r[1][1])
}

fn tol_at(size: f64, coord: f64) -> f64 {
    (1e-9 * size.abs()).max(coord.abs() * 1e-15).max(1e-300)
}

fn near(a: f64, b: f64, size: f64) -> bool {
    (a - b).abs() <= tol_at(size, a.abs().max(b.abs()))
}

pub struct JsonView {
    pub elems: Vec<JsonValue>,
    pub nodes: Vec<JsonValue>,
    pub edges: Vec<JsonValue>,
}

pub fn ids(v: &JsonValue) -> Vec<usize> {
    v.members().filter_map(|m| m.as_usize()).collect()
}

pub fn json_view(mesh: &Mesh) -> JsonView {
    JsonView {
        elems: mesh.elems.iter().map(|e| e.to_json()).collect(),
        nodes: mesh.nodes.iter().map(|e| e.to_json()).collect(),
        edges: mesh.edges.iter().map(|e| e.to_json()).collect(),
    }
}

/// Everything observable about a mesh, in a canonical textual form. `activation` selects whether the active elems of
/// edges are part of it.
pub fn snapshot(mesh: &Mesh, activation: bool) -> Vec<String> {
    let mut out = Vec::new();
    for e in mesh.elements.iter() {
        let p: Vec<String> = e.points.iter().map(|p| format!("{:x},{:x}", p.x.to_bits(), p.y.to_bits())).collect();
        out.push(format!("element {} {:?} {:?}", e.id, p, e.materials));
    }
    for e in mesh.elems.iter() {
        let path: Vec<(usize, u8)> = e.loc_stack().iter().map(|(i, l)| (*i, loc_code(*l))).collect();
        out.push(format!(
            "elem {} el{} par{:?} n{:?} e{:?} h{},{} p{},{} ch{:?} path{:?}",
            e.id,
            e.element.id,
            e.parent_id(),
            e.nodes,
            e.edges,
            e.h_levels.u,
            e.h_levels.v,
            e.poly_orders.ni,
            e.poly_orders.nj,
            e.child_ids().map(|c| c.to_vec()),
            path
        ));
    }
    for n in mesh.nodes.iter() {
        let j = n.to_json();
        out.push(format!(
            "node {} {:x},{:x} b{} el{}",
            n.id,
            n.coords.x.to_bits(),
            n.coords.y.to_bits(),
            n.boundary,
            j["elems"].dump()
        ));
    }
    for e in mesh.edges.iter() {
        let j = e.to_json();
        out.push(format!(
            "edge {} n{:?} b{} dir{:?} len{:x} par{:?} ch{:?} cn{:?} el{} isb{} act{:?}",
            e.id,
            e.nodes,
            e.boundary,
            e.dir,
            e.length.to_bits(),
            e.parent_id(),
            e.child_ids().map(|c| c.to_vec()),
            e.child_node_id(),
            j["elems"].dump(),
            e.is_boundary(),
            if activation { e.active_elem_pair() } else { None },
        ));
    }
    out
}

pub fn same_snapshot(a: &[String], b: &[String], sig: &str, what: &str) -> Res {
    ensure!(a.len() == b.len(), sig, "{}: number of entities changed from {} to {}", what, a.len(), b.len());
    for (x, y) in a.iter().zip(b.iter()) {
        ensure!(x == y, sig, "{}: was `{}` now `{}`", what, x, y);
    }
    Ok(())
}

pub fn snap_hash(s: &[String]) -> u64 {
    let mut h = 0u64;
    for l in s {
        h = h.rotate_left(5) ^ fnv(l.as_bytes());
    }
    h
}

/// The full structural check (C01)
pub fn check(mesh: &Mesh, obs: &mut Obs) -> Res {
    let nb = mesh.elements.len();
    for (i, e) in mesh.elements.iter().enumerate() {
        ensure!(e.id == i, "ids", "element at position {} has id {}", i, e.id);
    }
    for (i, e) in mesh.elems.iter().enumerate() {
        ensure!(e.id == i, "ids", "elem at position {} has id {}", i, e.id);
    }
    for (i, e) in mesh.nodes.iter().enumerate() {
        ensure!(e.id == i, "ids", "node at position {} has id {}", i, e.id);
    }
    for (i, e) in mesh.edges.iter().enumerate() {
        ensure!(e.id == i, "ids", "edge at position {} has id {}", i, e.id);
    }
    ensure!(mesh.elems.len() >= nb, "forest", "fewer elems than base elements");
    let base: Vec<Rect> = (0..nb).map(|i| base_rect(mesh, i)).collect();

    // ---- forest
    let mut is_child_of: Vec<Option<usize>> = vec![None; mesh.elems.len()];
    for e in mesh.elems.iter() {
        ensure!(
            Arc::ptr_eq(&e.element, mesh.elements.get(e.element.id).unwrap_or(&mesh.elements[0])),
            "forest",
            "elem {} does not share the base element {}",
            e.id,
            e.element.id
        );
        ensure!(e.has_children() == e.child_ids().is_some(), "forest", "elem {}: has_children", e.id);
        if e.id < nb {
            ensure!(
                e.parent_id().is_none() && e.loc_stack().is_empty() && e.element.id == e.id,
                "forest",
                "elem {} should be the base elem of element {}",
                e.id,
                e.id
            );
        } else {
            ensure!(e.parent_id().is_some(), "forest", "elem {} has no parent", e.id);
        }
        if let Some(ch) = e.child_ids() {
            let mut codes = Vec::new();
            for c in ch.iter() {
                ensure!(*c < mesh.elems.len(), "forest", "elem {}: child {} does not exist", e.id, c);
                let ce = &mesh.elems[*c];
                ensure!(is_child_of[*c].is_none(), "forest", "elem {} is the child of two elems", c);
                is_child_of[*c] = Some(e.id);
                ensure!(ce.parent_id() == Some(e.id), "forest", "elem {}'s child {} has parent {:?}", e.id, c, ce.parent_id());
                let (a, b) = (e.loc_stack(), ce.loc_stack());
                ensure!(
                    b.len() == a.len() + 1 && &b[..a.len()] == a && b[a.len()].0 == e.id,
                    "forest",
                    "elem {}'s path {:?} does not extend its parent's {:?}",
                    c,
                    b,
                    a
                );
                codes.push(loc_code(b[a.len()].1));
                ensure!(ce.element.id == e.element.id, "forest", "elem {} and child {} on different elements", e.id, c);
            }
            ensure!(
                codes == [0, 1, 2, 3] || codes == [4, 5] || codes == [6, 7],
                "child-layout",
                "children of elem {} are at {:?}",
                e.id,
                codes
            );
            obs.state("refinement_kinds", codes[0] as u64);
        }
    }
    for e in mesh.elems.iter() {
        ensure!(
            is_child_of[e.id] == e.parent_id(),
            "forest",
            "elem {} has parent {:?} but is listed as child of {:?}",
            e.id,
            e.parent_id(),
            is_child_of[e.id]
        );
        let mut u = 0u32;
        let mut v = 0u32;
        for (_, l) in e.loc_stack() {
            let h = loc_halves(loc_code(*l));
            u += (h[0] != 0) as u32;
            v += (h[1] != 0) as u32;
        }
        ensure!(
            e.h_levels.u as u32 == u && e.h_levels.v as u32 == v,
            "h-levels",
            "elem {} has levels {:?}, its path says {},{}",
            e.id,
            e.h_levels,
            u,
            v
        );
        ensure!(
            (1..=MAX_POLYNOMIAL_ORDER).contains(&e.poly_orders.ni) && (1..=MAX_POLYNOMIAL_ORDER).contains(&e.poly_orders.nj),
            "orders",
            "elem {} has orders {:?}",
            e.id,
            e.poly_orders
        );
        obs.max("depth", e.loc_stack().len() as f64);
    }

    // ---- corners and sides
    let mut leaf_area = 0.0;
    let mut min_size = f64::INFINITY;
    for e in mesh.elems.iter() {
        let r = elem_rect(mesh, e.id);
        let (w, h) = (r[0][1] - r[0][0], r[1][1] - r[1][0]);
        ensure!(w > 0.0 && h > 0.0, "corners", "elem {} has an empty rectangle", e.id);
        min_size = min_size.min(w).min(h);
        for k in 0..4 {
            ensure!(e.nodes[k] < mesh.nodes.len(), "corners", "elem {}: node {} does not exist", e.id, e.nodes[k]);
            ensure!(e.edges[k] < mesh.edges.len(), "corners", "elem {}: edge {} does not exist", e.id, e.edges[k]);
            let p = &mesh.nodes[e.nodes[k]].coords;
            let (x, y) = (r[0][k % 2], r[1][k / 2]);
            ensure!(
                near(p.x, x, w) && near(p.y, y, h),
                "corners",
                "elem {} corner {} is at ({}, {}), should be at ({}, {})",
                e.id,
                k,
                p.x,
                p.y,
                x,
                y
            );
        }
        for (k, nn) in [(0, [0, 1]), (1, [2, 3]), (2, [0, 2]), (3, [1, 3])] {
            let ed = &mesh.edges[e.edges[k]];
            ensure!(
                ed.nodes == [e.nodes[nn[0]], e.nodes[nn[1]]],
                "sides",
                "elem {} side {} is edge {} between nodes {:?}, should be {:?}",
                e.id,
                k,
                ed.id,
                ed.nodes,
                [e.nodes[nn[0]], e.nodes[nn[1]]]
            );
        }
        if !e.has_children() {
            leaf_area += w * h;
        }
    }
    let area: f64 = base.iter().map(|r| (r[0][1] - r[0][0]) * (r[1][1] - r[1][0])).sum();
    ensure!((leaf_area - area).abs() <= 1e-9 * area, "tiling", "leaf area {} vs domain area {}", leaf_area, area);

    // ---- no duplicated geometry
    let mut by_x: Vec<(f64, f64, usize)> = mesh.nodes.iter().map(|n| (n.coords.x, n.coords.y, n.id)).collect();
    by_x.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let dtol = min_size * 1e-3;
    for i in 0..by_x.len() {
        let mut j = i + 1;
        while j < by_x.len() && by_x[j].0 - by_x[i].0 <= dtol {
            ensure!(
                (by_x[j].1 - by_x[i].1).abs() > dtol,
                "duplicate-node",
                "nodes {} and {} are both at ({}, {})",
                by_x[i].2,
                by_x[j].2,
                by_x[i].0,
                by_x[i].1
            );
            j += 1;
        }
    }
    let mut pairs: HashMap<[usize; 2], usize> = HashMap::new();
    for e in mesh.edges.iter() {
        let mut p = e.nodes;
        ensure!(p[0] < mesh.nodes.len() && p[1] < mesh.nodes.len(), "edges", "edge {}: nodes {:?}", e.id, p);
        p.sort();
        if let Some(o) = pairs.insert(p, e.id) {
            return viol("duplicate-edge", format!("edges {} and {} both join nodes {:?}", o, e.id, p));
        }
    }

    // ---- edges
    let gap = base_gap(mesh);
    let mut edge_parent: Vec<Option<usize>> = vec![None; mesh.edges.len()];
    for e in mesh.edges.iter() {
        let (p, q) = (&mesh.nodes[e.nodes[0]].coords, &mesh.nodes[e.nodes[1]].coords);
        let (dx, dy) = (q.x - p.x, q.y - p.y);
        let len = (dx * dx + dy * dy).sqrt();
        let dir_ok = match e.dir {
            ParaDir::U => dx > 0.0 && dy.abs() <= tol_at(len, p.y),
            ParaDir::V => dy > 0.0 && dx.abs() <= tol_at(len, p.x),
        };
        ensure!(dir_ok, "edge-dir", "edge {} from ({},{}) to ({},{}) has direction {:?}", e.id, p.x, p.y, q.x, q.y, e.dir);
        ensure!((e.length - len).abs() <= 1e-8 * len, "edge-length", "edge {} has length {}, should be {}", e.id, e.length, len);
        ensure!(
            e.has_children() == e.child_ids().is_some() && e.has_children() == e.child_node_id().is_some(),
            "edge-tree",
            "edge {}: children {:?} and mid node {:?}",
            e.id,
            e.child_ids(),
            e.child_node_id()
        );
        if let (Some(ch), Some(cn)) = (e.child_ids(), e.child_node_id()) {
            ensure!(ch.len() == 2 && cn < mesh.nodes.len(), "edge-tree", "edge {}: children {:?}, node {}", e.id, ch, cn);
            let c = &mesh.nodes[cn].coords;
            ensure!(
                near(c.x, (p.x + q.x) / 2.0, len) && near(c.y, (p.y + q.y) / 2.0, len),
                "edge-tree",
                "edge {}: mid node {} is at ({}, {})",
                e.id,
                cn,
                c.x,
                c.y
            );
            for (k, exp) in [(0, [e.nodes[0], cn]), (1, [cn, e.nodes[1]])] {
                ensure!(ch[k] < mesh.edges.len(), "edge-tree", "edge {}: child {} does not exist", e.id, ch[k]);
                let ce = &mesh.edges[ch[k]];
                ensure!(ce.nodes == exp, "edge-tree", "edge {}: child {} joins {:?}, should join {:?}", e.id, ce.id, ce.nodes, exp);
                ensure!(ce.parent_id() == Some(e.id), "edge-tree", "edge {}: child {} has parent {:?}", e.id, ce.id, ce.parent_id());
                ensure!(edge_parent[ch[k]].is_none(), "edge-tree", "edge {} is a child twice", ch[k]);
                edge_parent[ch[k]] = Some(e.id);
            }
        }
        // boundary
        let (mx, my) = ((p.x + q.x) / 2.0, (p.y + q.y) / 2.0);
        let d = min_size.min(gap) * 0.2360679775;
        let (s0, s1) = match e.dir {
            ParaDir::U => (in_domain(&base, mx, my - d), in_domain(&base, mx, my + d)),
            ParaDir::V => (in_domain(&base, mx - d, my), in_domain(&base, mx + d, my)),
        };
        // the mid point of an edge of a base element can lie on no line of another base element (conforming base mesh)
        ensure!(s0 || s1, "edge-boundary", "edge {} lies outside of the domain", e.id);
        ensure!(
            e.boundary == !(s0 && s1),
            "edge-boundary",
            "edge {} at ({}, {}) is marked boundary={}",
            e.id,
            mx,
            my,
            e.boundary
        );
        obs.add(if e.boundary { "boundary_edges" } else { "interior_edges" }, 1);
    }
    for e in mesh.edges.iter() {
        ensure!(
            edge_parent[e.id] == e.parent_id(),
            "edge-tree",
            "edge {} has parent {:?} but is listed as child of {:?}",
            e.id,
            e.parent_id(),
            edge_parent[e.id]
        );
    }

    // ---- nodes
    for n in mesh.nodes.iter() {
        let d = min_size.min(gap) * 0.2360679775;
        let inside = [(-d, -d), (d, -d), (-d, d), (d, d)]
            .iter()
            .filter(|(a, b)| in_domain(&base, n.coords.x + a, n.coords.y + b) || on_base_line(&base, n.coords.x + a, n.coords.y + b))
            .count();
        ensure!(
            n.boundary == (inside < 4),
            "node-boundary",
            "node {} at ({}, {}) is marked boundary={}, {} of its quadrants are in the domain",
            n.id,
            n.coords.x,
            n.coords.y,
            n.boundary,
            inside
        );
    }

    // ---- adjacency lists
    let mut node_use: Vec<[BTreeSet<usize>; 4]> = vec![Default::default(); mesh.nodes.len()];
    let mut edge_use: Vec<[BTreeSet<usize>; 2]> = vec![Default::default(); mesh.edges.len()];
    for e in mesh.elems.iter() {
        for k in 0..4 {
            node_use[e.nodes[k]][k].insert(e.id);
            edge_use[e.edges[k]][if k % 2 == 1 { 0 } else { 1 }].insert(e.id);
        }
    }
    for n in mesh.nodes.iter() {
        let j = n.to_json();
        for k in 0..4 {
            let l = ids(&j["elems"][k]);
            let s: BTreeSet<usize> = l.iter().copied().collect();
            ensure!(
                s == node_use[n.id][k] && l.len() == s.len(),
                "node-adjacency",
                "node {} lists {:?} in position {}, but {:?} use it there",
                n.id,
                l,
                k,
                node_use[n.id][k]
            );
        }
        ensure!(node_use[n.id].iter().any(|s| !s.is_empty()), "node-adjacency", "node {} is not used by any elem", n.id);
    }
    for e in mesh.edges.iter() {
        let j = e.to_json();
        for k in 0..2 {
            let l: Vec<usize> = j["elems"][k].members().filter_map(|m| m["cell_id"].as_usize()).collect();
            let s: BTreeSet<usize> = l.iter().copied().collect();
            ensure!(
                s == edge_use[e.id][k] && l.len() == s.len(),
                "edge-adjacency",
                "edge {} lists {:?} on side {}, but {:?} use it there",
                e.id,
                l,
                k,
                edge_use[e.id][k]
            );
        }
        ensure!(edge_use[e.id].iter().any(|s| !s.is_empty()), "edge-adjacency", "edge {} is not used by any elem", e.id);
        let one_sided = edge_use[e.id].iter().any(|s| s.is_empty());
        ensure!(e.is_boundary() == one_sided, "edge-adjacency", "edge {}: is_boundary() = {}", e.id, e.is_boundary());
        if e.boundary {
            ensure!(one_sided, "edge-boundary", "boundary edge {} has elems on both sides", e.id);
        }
    }
    obs.add("elems_checked", mesh.elems.len() as u64);
    obs.add("edges_checked", mesh.edges.len() as u64);
    obs.add("nodes_checked", mesh.nodes.len() as u64);
    Ok(())
}

// a point on a line shared by two base elements counts as inside if points on both sides of the line are
fn on_base_line(base: &[Rect], x: f64, y: f64) -> bool {
    let mut n = 0;
    for r in base {
        if r[0][0] <= x && x <= r[0][1] && r[1][0] <= y && y <= r[1][1] {
            n += 1;
        }
    }
    n >= 2
}

/// every random point of the domain must lie in exactly one leaf (an independent check of the tiling)
pub fn check_points(mesh: &Mesh, rng: &mut Rng, n: usize) -> Res {
    let leaves: Vec<Rect> = mesh.elems.iter().filter(|e| !e.has_children()).map(|e| {
        let p = mesh.nodes[e.nodes[0]].coords;
        let q = mesh.nodes[e.nodes[3]].coords;
        [[p.x, q.x], [p.y, q.y]]
    }).collect();
    for _ in 0..n {
        let b = base_rect(mesh, rng.below(mesh.elements.len()));
        let x = rng.uni(b[0][0], b[0][1]);
        let y = rng.uni(b[1][0], b[1][1]);
        let closed = leaves.iter().filter(|r| r[0][0] <= x && x <= r[0][1] && r[1][0] <= y && y <= r[1][1]).count();
        let open = leaves.iter().filter(|r| r[0][0] < x && x < r[0][1] && r[1][0] < y && y < r[1][1]).count();
        ensure!(
            closed >= 1 && open <= 1,
            "tiling",
            "point ({}, {}) is covered by {} leaf elems ({} strictly)",
            x,
            y,
            closed,
            open
        );
    }
    Ok(())
}

/// children of every elem as a map from path to id
pub fn by_path(mesh: &Mesh) -> BTreeMap<(usize, Vec<u8>), usize> {
    mesh.elems.iter().map(|e| ((e.element.id, elem_path(mesh, e.id)), e.id)).collect()
}

/// adjacency re-derived from the elems' own edge lists: side 0 = elems below / left of the edge
pub fn edge_users(mesh: &Mesh) -> Vec<[Vec<usize>; 2]> {
    let mut v: Vec<[Vec<usize>; 2]> = vec![Default::default(); mesh.edges.len()];
    for e in mesh.elems.iter() {
        for k in 0..4 {
            v[e.edges[k]][if k % 2 == 1 { 0 } else { 1 }].push(e.id);
        }
    }
    v
}

/// which edges should be active, and with which pair of elems
pub fn expected_activation(mesh: &Mesh) -> Vec<Option<[usize; 2]>> {
    let users = edge_users(mesh);
    let both = |e: usize| !users[e][0].is_empty() && !users[e][1].is_empty();
    let deepest = |l: &Vec<usize>| *l.iter().max_by_key(|e| mesh.elems[**e].loc_stack().len()).unwrap();
    let mut act = vec![None; mesh.edges.len()];
    for e in mesh.edges.iter() {
        if !both(e.id) || mesh.edges[e.id].boundary {
            continue;
        }
        // the whole family down to here must have elems on both sides: ancestors do, if this one does (checked by the
        // caller through the geometric test); it is active unless both children are supported as well
        let mut up = e.parent_id();
        let mut family = true;
        while let Some(p) = up {
            family &= both(p);
            up = mesh.edges[p].parent_id();
        }
        let finer = e.child_ids().map_or(false, |c| c.iter().all(|c| both(*c)));
        if family && !finer {
            act[e.id] = Some([deepest(&users[e.id][0]), deepest(&users[e.id][1])]);
        }
    }
    act
}
