//! Mesh files load into exactly the described mesh; malformed ones are refused.
use crate::gen::*;
use crate::structure::*;
use crate::util::*;
use crate::{Ctx, Kind, Prop};
use fem_2d::fem_domain::domain::mesh::space::ParaDir;
use fem_2d::prelude::*;
use json::{object, JsonValue};
use std::collections::{BTreeMap, BTreeSet};

pub const PROP: Prop = Prop {
    id: "C20",
    kinds: &[Kind::new("valid", 16000, 400000), Kind::new("renumbered", 5000, 120000), Kind::new("malformed", 30000, 800000), Kind::new("syntax", 8000, 200000), Kind::new("large", 10, 250)],
    run,
    threads: 8,
    rule: "valid: random axis-aligned arrangements (holes, touching corners, permuted numbering, several number and layout styles) loaded and compared item by item with the file; renumbered: the same arrangement under another numbering must describe the same geometry; malformed: one structural defect planted in a valid file; syntax: truncated, garbled, empty, non-text or missing files; large: thousands of elements, now and then more than 65 536; non-trivial = an arrangement of several elements, or a planted defect, distinct by file",
    assumptions: &["coordinates written with up to 17 digits are compared to a relative 1e-14, short decimals exactly", "a refusal is an error or a panic, never a mesh"],
};

/// more than about twelve significant digits
fn long(x: f64) -> bool {
    format!("{}", x).len() > 13
}

fn exact(a: f64, b: f64) -> bool {
    a == b || (long(b) && (a - b).abs() <= 1e-14 * b.abs())
}

/// the loaded mesh against the file
fn compare(spec: &BaseSpec, mesh: &Mesh, obs: &mut Obs) -> Res {
    let (nn, ne) = (spec.nodes.len(), spec.elems.len());
    ensure!(mesh.elements.len() == ne && mesh.elems.len() == ne, "counts", "{} elements listed, {} / {} loaded", ne, mesh.elements.len(), mesh.elems.len());
    ensure!(mesh.nodes.len() == nn, "counts", "{} nodes listed, {} loaded", nn, mesh.nodes.len());
    let jv = json_view(mesh);
    for (k, (ids_, m)) in spec.elems.iter().enumerate() {
        let (el, em) = (&mesh.elements[k], &mesh.elems[k]);
        ensure!(el.id == k && em.id == k && em.element.id == k, "numbering", "element {} has ids {} {} {}", k, el.id, em.id, em.element.id);
        for c in 0..4 {
            let p = spec.nodes[ids_[c]];
            ensure!(exact(el.points[c].x, p[0]) && exact(el.points[c].y, p[1]), "corner", "element {} corner {} is ({}, {}), listed {:?}", k, c, el.points[c].x, el.points[c].y, p);
        }
        ensure!(em.nodes == *ids_, "nodes", "element {} has nodes {:?}, listed {:?}", k, em.nodes, ids_);
        let g = [el.materials.eps_rel.re, el.materials.eps_rel.im, el.materials.mu_rel.re, el.materials.mu_rel.im];
        ensure!((0..4).all(|i| exact(g[i], m[i])), "materials", "element {} has materials {:?}, listed {:?}", k, g, m);
        ensure!(em.child_ids().is_none() && em.parent_id().is_none() && em.h_levels.u == 0 && em.h_levels.v == 0, "fresh", "element {} is not fresh", k);
        ensure!(em.poly_orders.ni == 1 && em.poly_orders.nj == 1, "fresh", "element {} has orders {:?}", k, em.poly_orders);
    }
    // sides: node pair -> [element whose upper / right side it is, element whose lower / left side it is]
    let mut sides: BTreeMap<[usize; 2], [Option<usize>; 2]> = BTreeMap::new();
    for (k, (n, _)) in spec.elems.iter().enumerate() {
        for (pair, side) in [([n[0], n[1]], 1), ([n[2], n[3]], 0), ([n[0], n[2]], 1), ([n[1], n[3]], 0)] {
            sides.entry(pair).or_insert([None, None])[side] = Some(k);
        }
    }
    ensure!(mesh.edges.len() == sides.len(), "sides", "{} sides, {} edges", sides.len(), mesh.edges.len());
    let mut wall_nodes = BTreeSet::new();
    let mut seen = BTreeSet::new();
    for (id, e) in mesh.edges.iter().enumerate() {
        let s = match sides.get(&e.nodes) {
            Some(s) => s,
            None => return viol("sides", format!("edge {} joins nodes {:?}, which is no side", id, e.nodes)),
        };
        ensure!(seen.insert(e.nodes), "sides", "side {:?} is represented twice", e.nodes);
        let wall = s.iter().flatten().count() == 1;
        if wall {
            wall_nodes.extend(e.nodes);
        }
        ensure!(e.boundary == wall && jv.edges[id]["boundary"].as_bool() == Some(wall), "boundary", "edge {} {:?}: boundary {} with elements {:?}", id, e.nodes, e.boundary, s);
        let (p, q) = (spec.nodes[e.nodes[0]], spec.nodes[e.nodes[1]]);
        let dir = if p[1] == q[1] { ParaDir::U } else { ParaDir::V };
        ensure!(e.dir == dir, "direction", "edge {} from {:?} to {:?} has direction {:?}", id, p, q, e.dir);
        let len = (p[0] - q[0]).abs() + (p[1] - q[1]).abs();
        ensure!((e.length - len).abs() <= 1e-12 * len + 1e-14 * p.iter().chain(q.iter()).fold(0.0, |a: f64, x| a.max(x.abs())), "length", "edge {} from {:?} to {:?} has length {}", id, p, q, e.length);
        for k in 0..2 {
            let l: Vec<usize> = jv.edges[id]["elems"][k].members().filter_map(|x| x["cell_id"].as_usize()).collect();
            ensure!(l == s[k].into_iter().collect::<Vec<_>>(), "attached", "edge {} {:?} has elements {:?} on side {}, should have {:?}", id, e.nodes, l, k, s[k]);
        }
        let act = ids(&jv.edges[id]["active_elems"]);
        let want: Vec<usize> = if wall { vec![] } else { s.iter().flatten().copied().collect() };
        let (mut a, mut w) = (act.clone(), want.clone());
        a.sort();
        w.sort();
        ensure!(a == w, "active", "edge {} {:?} has active pair {:?}, should have {:?}", id, e.nodes, act, want);
        obs.add("edges", 1);
    }
    for (k, em) in mesh.elems.iter().enumerate() {
        let n = spec.elems[k].0;
        for (c, pair) in [[n[0], n[1]], [n[2], n[3]], [n[0], n[2]], [n[1], n[3]]].iter().enumerate() {
            ensure!(em.edges[c] < mesh.edges.len() && mesh.edges[em.edges[c]].nodes == *pair, "elem-sides", "element {} side {} is edge {}, should join {:?}", k, c, em.edges[c], pair);
        }
    }
    let mut at_corner: Vec<[Vec<usize>; 4]> = vec![Default::default(); nn];
    for (k, e) in spec.elems.iter().enumerate() {
        for c in 0..4 {
            at_corner[e.0[c]][c].push(k);
        }
    }
    for (id, n) in mesh.nodes.iter().enumerate() {
        ensure!(n.id == id && exact(n.coords.x, spec.nodes[id][0]) && exact(n.coords.y, spec.nodes[id][1]), "node", "node {} is {} at ({}, {}), listed {:?}", id, n.id, n.coords.x, n.coords.y, spec.nodes[id]);
        ensure!(n.boundary == wall_nodes.contains(&id), "boundary", "node {}: boundary {}, on a wall side: {}", id, n.boundary, wall_nodes.contains(&id));
        for c in 0..4 {
            let l = ids(&jv.nodes[id]["elems"][c]);
            let want = &at_corner[id][c];
            ensure!(l == *want, "attached", "node {} is corner {} of {:?}, should be of {:?}", id, c, l, want);
        }
        obs.add("nodes", 1);
    }
    Ok(())
}

/// one number in one of several spellings, all of the same value
fn spell(rng: &mut Rng, x: f64) -> String {
    if long(x) {
        return format!("{}", x);
    }
    match rng.below(4) {
        0 => format!("{:e}", x).replace('e', if rng.chance(0.5) { "E" } else { "e" }),
        1 if x == x.trunc() && x.abs() < 1e9 => format!("{}", x as i64),
        2 if x == x.trunc() && x.abs() < 1e9 => format!("{:.1}", x),
        _ => format!("{}", x),
    }
}

/// the file in a random layout
fn render(rng: &mut Rng, s: &BaseSpec) -> String {
    let nl = *rng.pick(&["", "\n", "\n    ", " ", "\r\n\t"]);
    let mut el = Vec::new();
    for (n, m) in &s.elems {
        let a = format!("\"materials\":{}[{}]", nl, m.iter().map(|x| spell(rng, *x)).collect::<Vec<_>>().join(","));
        let b = format!("\"node_ids\": [{}]", n.map(|x| x.to_string()).join(&format!(",{}", nl)));
        el.push(if rng.chance(0.5) { format!("{{{}{},{}}}", nl, a, b) } else { format!("{{{},{}{}}}", b, nl, a) });
    }
    let e = format!("\"Elements\":{}[{}]", nl, el.join(&format!(",{}", nl)));
    let no: Vec<String> = s.nodes.iter().map(|p| format!("[{},{}{}]", spell(rng, p[0]), nl, spell(rng, p[1]))).collect();
    let n = format!("\"Nodes\" : [{}{}]", nl, no.join(","));
    let mut parts = vec![e, n];
    if rng.chance(0.2) {
        parts.push("\"Comment\": {\"by\": [\"nobody\", null, true]}".into());
    }
    rng.shuffle(&mut parts);
    format!("{{{}{}{}}}{}", nl, parts.join(","), nl, nl)
}

fn load(path: &str, text: &[u8]) -> Result<std::io::Result<Mesh>, Panicked> {
    std::fs::write(path, text).expect("write mesh file");
    let r = try_lib(|| Mesh::from_file(path));
    let _ = std::fs::remove_file(path);
    r
}

fn loaded(path: &str, text: &str) -> Res<Mesh> {
    match load(path, text.as_bytes()) {
        Ok(Ok(m)) => Ok(m),
        Ok(Err(e)) => viol("refused-valid", format!("a valid file was refused: {}; {}", e, text)),
        Err(p) => viol("refused-valid", format!("a valid file was refused at {}: {}; {}", p.loc, p.msg, text)),
    }
}

/// geometry without numbering
fn canonical(mesh: &Mesh) -> BTreeMap<String, String> {
    let jv = json_view(mesh);
    let pt = |n: usize| format!("({:?},{:?})", mesh.nodes[n].coords.x, mesh.nodes[n].coords.y);
    let el = |e: usize| format!("<{}-{}>", pt(mesh.elems[e].nodes[0]), pt(mesh.elems[e].nodes[3]));
    let mut out = BTreeMap::new();
    for n in &mesh.nodes {
        let a: Vec<Vec<String>> = (0..4).map(|c| ids(&jv.nodes[n.id]["elems"][c]).iter().map(|e| el(*e)).collect()).collect();
        out.insert(format!("node {}", pt(n.id)), format!("{} {:?}", n.boundary, a));
    }
    for e in &mesh.edges {
        let a: Vec<Vec<String>> = (0..2).map(|c| jv.edges[e.id]["elems"][c].members().filter_map(|x| x["cell_id"].as_usize()).map(el).collect()).collect();
        let mut act: Vec<String> = ids(&jv.edges[e.id]["active_elems"]).iter().map(|x| el(*x)).collect();
        act.sort();
        out.insert(format!("edge {} {}", pt(e.nodes[0]), pt(e.nodes[1])), format!("{} {:?} {} {:?} {:?}", e.boundary, e.dir, e.length, a, act));
    }
    for e in &mesh.elems {
        let s: Vec<String> = e.edges.iter().map(|k| format!("{}{}", pt(mesh.edges[*k].nodes[0]), pt(mesh.edges[*k].nodes[1]))).collect();
        out.insert(format!("elem {}", el(e.id)), format!("{:?} {:?} {:?}", e.nodes.map(pt), s, e.element.materials));
    }
    out
}

fn shape(rng: &mut Rng, large: bool) -> BaseSpec {
    let k = if large { 7 } else { 4 };
    base_spec(
        rng,
        &BaseOpts {
            max_nx: k,
            max_ny: k,
            max_elems: k * k,
            materials: *rng.clone().pick(&[Materials4::RandomReal, Materials4::RandomComplex, Materials4::Unit, Materials4::Distinct]),
            ..Default::default()
        },
    )
}

/// takes nodes that no element lists out of the numbering
fn drop_unused_nodes(s: &mut BaseSpec) {
    let used: BTreeSet<usize> = s.elems.iter().flat_map(|e| e.0).collect();
    let to: BTreeMap<usize, usize> = used.iter().enumerate().map(|(new, old)| (*old, new)).collect();
    s.nodes = used.iter().map(|k| s.nodes[*k]).collect();
    for e in s.elems.iter_mut() {
        e.0 = e.0.map(|n| to[&n]);
    }
}

fn json_of(s: &BaseSpec) -> JsonValue {
    json::parse(&s.to_json()).unwrap()
}

/// plants one defect of the listed kinds; None if it does not apply to this mesh
fn defect(rng: &mut Rng, s: &BaseSpec, which: usize) -> Option<(String, JsonValue)> {
    let mut j = json_of(s);
    let ne = s.elems.len();
    let nn = s.nodes.len();
    let e = rng.below(ne);
    let c = rng.below(4);
    let bad_value = |rng: &mut Rng| -> JsonValue {
        match rng.below(5) {
            0 => JsonValue::Null,
            1 => JsonValue::from("1"),
            2 => JsonValue::from(true),
            3 => JsonValue::new_array(),
            _ => object! { "x": 1 },
        }
    };
    let no_array = |rng: &mut Rng| -> JsonValue {
        match rng.below(5) {
            0 => JsonValue::Null,
            1 => JsonValue::from("[0,1,2,3]"),
            2 => JsonValue::from(4),
            3 => JsonValue::from(false),
            _ => object! { "0": 0, "1": 1, "2": 2, "3": 3 },
        }
    };
    let name = match which {
        0 => {
            let k = *rng.pick(&["Elements", "Nodes"]);
            j.remove(k);
            format!("no {} section", k)
        }
        1 => {
            let k = *rng.pick(&["Elements", "Nodes"]);
            j[k] = no_array(rng);
            format!("{} is {}", k, j[k])
        }
        2 => {
            let k = *rng.pick(&["node_ids", "materials"]);
            j["Elements"][e].remove(k);
            format!("element {} without {}", e, k)
        }
        3 => {
            let k = *rng.pick(&["node_ids", "materials"]);
            j["Elements"][e][k] = no_array(rng);
            format!("element {}: {} is {}", e, k, j["Elements"][e][k])
        }
        4 => {
            let k = *rng.pick(&["node_ids", "materials"]);
            if rng.chance(0.5) {
                j["Elements"][e][k].array_remove(c);
            } else {
                let v = j["Elements"][e][k][c].clone();
                let extra = if k == "node_ids" {
                    // an existing node which the element does not list yet, if there is one
                    (0..nn).find(|n| !s.elems[e].0.contains(n)).map(JsonValue::from).unwrap_or(v)
                } else {
                    v
                };
                j["Elements"][e][k].push(extra).unwrap();
            }
            format!("element {}: {} of length {}", e, k, j["Elements"][e][k].len())
        }
        5 => {
            let k = *rng.pick(&["node_ids", "materials"]);
            j["Elements"][e][k][c] = bad_value(rng);
            format!("element {}: {}[{}] is {}", e, k, c, j["Elements"][e][k][c])
        }
        6 => {
            let id: JsonValue = match rng.below(7) {
                0 => nn.into(),
                1 => (nn + 1).into(),
                2 => (nn + rng.below(1000)).into(),
                3 => 4294967296u64.into(),
                4 => (u64::MAX / 2).into(),
                5 => (s.elems[e].0[c] as f64 + rng.uni(0.1, 0.9)).into(),
                _ => (-1 - rng.below(3) as i64).into(),
            };
            j["Elements"][e]["node_ids"][c] = id;
            format!("element {}: unknown node {}", e, j["Elements"][e]["node_ids"][c])
        }
        7 => {
            let o = (c + 1 + rng.below(3)) % 4;
            j["Elements"][e]["node_ids"][c] = s.elems[e].0[o].into();
            format!("element {}: node {} repeated", e, s.elems[e].0[o])
        }
        8 => {
            // a node listed twice at the same place; one of its users may take the copy
            let k = rng.below(nn);
            let mut v = j["Nodes"][k].clone();
            if rng.chance(0.5) {
                // the same place, with zeros of the other sign
                for a in 0..2 {
                    if s.nodes[k][a] == 0.0 {
                        v[a] = "MINUS".into();
                    }
                }
            }
            j["Nodes"].push(v).unwrap();
            if rng.chance(0.5) {
                if let Some(u) = (0..ne).find(|u| s.elems[*u].0.contains(&k)) {
                    let c = s.elems[u].0.iter().position(|n| *n == k).unwrap();
                    j["Elements"][u]["node_ids"][c] = nn.into();
                }
            }
            format!("node {} listed twice", k)
        }
        9 => {
            // an existing node moved onto another one
            if nn < 2 {
                return None;
            }
            let a = rng.below(nn);
            let b = (a + 1 + rng.below(nn - 1)) % nn;
            let v = j["Nodes"][b].clone();
            j["Nodes"][a] = v;
            format!("node {} at the place of node {}", a, b)
        }
        10 => {
            let k = rng.below(nn);
            j["Nodes"][k] = no_array(rng);
            format!("node {} is {}", k, j["Nodes"][k])
        }
        11 => {
            let k = rng.below(nn);
            if rng.chance(0.5) {
                j["Nodes"][k].array_remove(rng.below(2));
            } else {
                j["Nodes"][k].push(0.0).unwrap();
            }
            format!("node {} has {} coordinates", k, j["Nodes"][k].len())
        }
        12 => {
            let k = rng.below(nn);
            let a = rng.below(2);
            j["Nodes"][k][a] = bad_value(rng);
            format!("node {} has coordinate {}", k, j["Nodes"][k][a])
        }
        13 => {
            // the same element twice: four sides claimed twice
            let v = j["Elements"][e].clone();
            j["Elements"].push(v).unwrap();
            format!("element {} listed twice", e)
        }
        14 => {
            // another element on the same side: shares the two nodes of one side, from the same direction
            let side = rng.below(4);
            let [a, b] = [[0, 1], [2, 3], [0, 2], [1, 3]][side];
            let n = s.elems[e].0;
            let (pa, pb, po) = (s.nodes[n[a]], s.nodes[n[b]], s.nodes[n[3 - a]]);
            // other two corners somewhat further or closer away than the original ones
            let f = *rng.pick(&[0.5, 1.5]);
            let (qa, qb) = if side < 2 { ([pa[0], pa[1] + (po[1] - pa[1]) * f], [pb[0], pb[1] + (po[1] - pb[1]) * f]) } else { ([pa[0] + (po[0] - pa[0]) * f, pa[1]], [pb[0] + (po[0] - pb[0]) * f, pb[1]]) };
            if s.nodes.iter().any(|p| *p == qa || *p == qb) {
                return None;
            }
            for q in [qa, qb] {
                j["Nodes"].push(json::array![q[0], q[1]]).unwrap();
            }
            let mut ids = [0usize; 4];
            ids[a] = n[a];
            ids[b] = n[b];
            match side {
                0 => (ids[2], ids[3]) = (nn, nn + 1),
                1 => (ids[0], ids[1]) = (nn, nn + 1),
                2 => (ids[1], ids[3]) = (nn, nn + 1),
                _ => (ids[0], ids[2]) = (nn, nn + 1),
            }
            j["Elements"].push(object! { "materials": [1.0, 0.0, 1.0, 0.0], "node_ids": ids.to_vec() }).unwrap();
            format!("side {} of element {} claimed a second time", side, e)
        }
        _ => {
            // a fifth element at an inner node
            let full = (0..nn).find(|k| s.elems.iter().filter(|x| x.0.contains(k)).count() == 4)?;
            let p = s.nodes[full];
            let (w, h) = (0.137, 0.211);
            let q = [[p[0] + w, p[1]], [p[0], p[1] + h], [p[0] + w, p[1] + h]];
            if s.nodes.iter().any(|x| q.contains(x)) {
                return None;
            }
            for x in q {
                j["Nodes"].push(json::array![x[0], x[1]]).unwrap();
            }
            j["Elements"].push(object! { "materials": [1.0, 0.0, 1.0, 0.0], "node_ids": [full, nn, nn + 1, nn + 2] }).unwrap();
            format!("node {} shared by five elements", full)
        }
    };
    Some((name, j))
}

fn run(ctx: &mut Ctx) -> Res {
    let path = ctx.scratch_file("mesh.json");
    let mut rng = ctx.rng.clone();
    match ctx.kind {
        "valid" => {
            let mut s = shape(&mut rng, ctx.idx % 7 == 0);
            let short = rng.chance(0.6);
            if !short {
                // coordinates with all digits, and zeros of both signs
                let (ox, oy) = (rng.uni(-3.0, 3.0), rng.uni(-3.0, 3.0));
                let f = rng.uni(0.7, 1.3);
                for n in s.nodes.iter_mut() {
                    *n = [n[0] * f + ox, n[1] * f + oy];
                }
                for e in s.elems.iter_mut() {
                    e.1 = [rng.uni(0.3, 9.0), rng.uni(-1.0, 1.0), rng.uni(0.3, 9.0), rng.uni(-1.0, 1.0)];
                }
            }
            let text = render(&mut rng, &s);
            let m = loaded(&path, &text)?;
            compare(&s, &m, &mut ctx.obs).map_err(|v| Violation { sig: v.sig, msg: format!("{}; {}", v.msg, text) })?;
            ctx.obs.add("elements", s.elems.len() as u64);
            ctx.obs.max("elements", s.elems.len() as f64);
            if s.elems.len() > 1 {
                ctx.nontrivial = Some(fnv(text.as_bytes()));
            }
            ctx.sample = Some(text);
        }
        "large" => {
            let mut s = if ctx.idx % 5 == 4 { large_spec(&mut rng, 66_000, 75_000, Materials4::RandomComplex) } else { large_spec(&mut rng, 1000, 20_000, Materials4::Distinct) };
            let missing = rng.below(1 + s.elems.len() / 10);
            for _ in 0..missing {
                // (the nodes stay in use by the neighbours, or are dropped below)
                let k = rng.below(s.elems.len());
                s.elems.remove(k);
            }
            drop_unused_nodes(&mut s);
            let text = render(&mut rng, &s);
            let m = loaded(&path, &text).map_err(|v| Violation { sig: v.sig, msg: v.msg.chars().take(2000).collect() })?;
            compare(&s, &m, &mut ctx.obs)?;
            ctx.obs.add("elements", s.elems.len() as u64);
            ctx.obs.max("elements", s.elems.len() as f64);
            ctx.obs.max("nodes", s.nodes.len() as f64);
            ctx.nontrivial = Some(fnv(text.as_bytes()));
            ctx.sample = Some(format!("{} elements, {} nodes", s.elems.len(), s.nodes.len()));
        }
        "renumbered" => {
            let s = shape(&mut rng, false);
            let mut t = s.clone();
            let mut to: Vec<usize> = (0..s.nodes.len()).collect();
            rng.shuffle(&mut to);
            for (k, n) in s.nodes.iter().enumerate() {
                t.nodes[to[k]] = *n;
            }
            for e in t.elems.iter_mut() {
                e.0 = e.0.map(|n| to[n]);
            }
            rng.shuffle(&mut t.elems);
            let (ta, tb) = (render(&mut rng, &s), render(&mut rng, &t));
            let (a, b) = (canonical(&loaded(&path, &ta)?), canonical(&loaded(&path, &tb)?));
            for (k, v) in a.iter().chain(b.iter()) {
                ensure!(a.get(k) == Some(v) && b.get(k) == Some(v), "numbering", "{} is {:?} in one numbering and {:?} in another; {} / {}", k, a.get(k), b.get(k), ta, tb);
                ctx.obs.add("items_compared", 1);
            }
            if s.elems.len() > 1 {
                ctx.nontrivial = Some(fnv(tb.as_bytes()));
            }
            ctx.sample = Some(format!("{} / {}", ta, tb));
        }
        "malformed" => {
            let s = shape(&mut rng, false);
            let which = (ctx.idx % 16) as usize;
            let (name, j) = match defect(&mut rng, &s, which) {
                Some(x) => x,
                None => {
                    ctx.obs.add("defect_not_applicable", 1);
                    return Ok(());
                }
            };
            let text = json::stringify(j).replace("\"MINUS\"", "-0.0");
            if let Ok(Ok(_)) = load(&path, text.as_bytes()) {
                return viol("accepted-malformed", format!("{}: the file was accepted: {}", name, text));
            }
            ctx.obs.add(&format!("refused_defect_{:02}", which), 1);
            ctx.nontrivial = Some(fnv(text.as_bytes()));
            ctx.sample = Some(format!("{}: {}", name, text));
        }
        _ => {
            let s = shape(&mut rng, false);
            let text = render(&mut rng, &s).trim_end().to_string();
            let kind = rng.below(6);
            let bytes: Vec<u8> = match kind {
                0 => text.as_bytes()[..rng.below(text.len())].to_vec(),
                1 => format!("{}{}", text, rng.pick(&["}", "]", "x", "{}", ",", "1"])).into_bytes(),
                2 => Vec::new(),
                3 => {
                    // bytes that are no text
                    let mut b = text.clone().into_bytes();
                    let at = rng.below(b.len());
                    b[at] = 0xff;
                    b
                }
                4 => {
                    // one structural character less
                    let at: Vec<usize> = text.char_indices().filter(|(_, c)| "[]{}:".contains(*c)).map(|(i, _)| i).collect();
                    let k = at[rng.below(at.len())];
                    format!("{}{}", &text[..k], &text[k + 1..]).into_bytes()
                }
                _ => {
                    match try_lib(|| Mesh::from_file(format!("{}_missing", path))) {
                        Ok(Err(_)) => (),
                        Ok(Ok(_)) => return viol("accepted-malformed", "a missing file gave a mesh"),
                        Err(p) => return viol("missing-file", format!("a missing file panicked at {}: {}", p.loc, p.msg)),
                    }
                    b"null".to_vec()
                }
            };
            if let Ok(Ok(_)) = load(&path, &bytes) {
                return viol("accepted-malformed", format!("syntax defect {}: accepted {}", kind, String::from_utf8_lossy(&bytes)));
            }
            ctx.obs.add(&format!("refused_syntax_{}", kind), 1);
            ctx.nontrivial = Some(fnv(&bytes));
        }
    }
    Ok(())
}
