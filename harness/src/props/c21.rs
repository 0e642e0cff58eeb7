//! JSON mesh export is a faithful picture of the refined mesh.
use crate::gen::*;
use crate::structure::*;
use crate::util::*;
use crate::{Ctx, Kind, Prop};
use fem_2d::fem_domain::domain::mesh::space::ParaDir;
use fem_2d::prelude::*;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C21",
    kinds: &[Kind::new("document", 3000, 60000), Kind::new("repeated", 700, 14000), Kind::new("failing", 1500, 20000)],
    run,
    threads: 8,
    rule: "document: random hp-refined meshes exported, the text read by an independent strict reader and every item compared with the mesh and with what corners, sides and tree imply; repeated: export, refine or change orders, export again to the same (longer) file, and from a clone; failing: full devices, missing directories, directories, then a good export; non-trivial = a mesh with refined elements and differing levels on some side, distinct by document",
    assumptions: &["the order in which elements attached to one side or corner are listed is free", "extra keys are not allowed: the document is compared as a whole"],
};

/// JSON with numbers kept as text
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}

struct Reader<'a> {
    s: &'a [u8],
    i: usize,
}

impl<'a> Reader<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && b" \t\r\n".contains(&self.s[self.i]) {
            self.i += 1;
        }
    }
    fn fail<T>(&self, what: &str) -> Res<T> {
        viol("json-syntax", format!("{} at byte {} of {}", what, self.i, self.s.len()))
    }
    fn eat(&mut self, c: u8) -> Res {
        self.ws();
        if self.s.get(self.i) == Some(&c) {
            self.i += 1;
            Ok(())
        } else {
            self.fail(&format!("no '{}'", c as char))
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn string(&mut self) -> Res<String> {
        self.eat(b'"')?;
        let a = self.i;
        while self.i < self.s.len() && self.s[self.i] != b'"' {
            if self.s[self.i] == b'\\' {
                return self.fail("escape");
            }
            self.i += 1;
        }
        let t = String::from_utf8_lossy(&self.s[a..self.i]).to_string();
        self.eat(b'"')?;
        Ok(t)
    }
    fn value(&mut self) -> Res<J> {
        match self.peek() {
            b'{' => {
                self.i += 1;
                let mut o = BTreeMap::new();
                if self.peek() == b'}' {
                    self.i += 1;
                    return Ok(J::Obj(o));
                }
                loop {
                    let k = self.string()?;
                    self.eat(b':')?;
                    let v = self.value()?;
                    if o.insert(k.clone(), v).is_some() {
                        return self.fail(&format!("key {} twice", k));
                    }
                    if self.peek() == b',' {
                        self.i += 1;
                    } else {
                        self.eat(b'}')?;
                        return Ok(J::Obj(o));
                    }
                }
            }
            b'[' => {
                self.i += 1;
                let mut a = Vec::new();
                if self.peek() == b']' {
                    self.i += 1;
                    return Ok(J::Arr(a));
                }
                loop {
                    a.push(self.value()?);
                    if self.peek() == b',' {
                        self.i += 1;
                    } else {
                        self.eat(b']')?;
                        return Ok(J::Arr(a));
                    }
                }
            }
            b'"' => Ok(J::Str(self.string()?)),
            _ => {
                let a = self.i;
                while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || b"+-.".contains(&self.s[self.i])) {
                    self.i += 1;
                }
                let t = std::str::from_utf8(&self.s[a..self.i]).unwrap();
                match t {
                    "null" => Ok(J::Null),
                    "true" => Ok(J::Bool(true)),
                    "false" => Ok(J::Bool(false)),
                    _ if t.starts_with(|c: char| c.is_ascii_digit() || c == '-') && t.parse::<f64>().is_ok() => Ok(J::Num(t.to_string())),
                    _ => self.fail("no value"),
                }
            }
        }
    }
}

pub fn read(text: &[u8]) -> Res<J> {
    let mut r = Reader { s: text, i: 0 };
    let v = r.value()?;
    r.ws();
    if r.i != text.len() {
        return r.fail("text after the document");
    }
    Ok(v)
}

impl J {
    /// the items of an object with exactly these keys
    fn fields(&self, keys: &[&str], what: &str) -> Res<Vec<&J>> {
        match self {
            J::Obj(o) if o.len() == keys.len() && keys.iter().all(|k| o.contains_key(*k)) => Ok(keys.iter().map(|k| &o[*k]).collect()),
            J::Obj(o) => viol("document", format!("{} has keys {:?}, should have {:?}", what, o.keys().collect::<Vec<_>>(), keys)),
            _ => viol("document", format!("{} is no object", what)),
        }
    }
    fn arr(&self, what: &str) -> Res<&Vec<J>> {
        match self {
            J::Arr(a) => Ok(a),
            _ => viol("document", format!("{} is no array: {:?}", what, self)),
        }
    }
    fn ids(&self, what: &str) -> Res<Vec<usize>> {
        self.arr(what)?.iter().map(|x| x.id(what)).collect()
    }
    fn id(&self, what: &str) -> Res<usize> {
        match self {
            J::Num(t) => match t.parse() {
                Ok(n) => Ok(n),
                _ => viol("document", format!("{} is {}", what, t)),
            },
            _ => viol("document", format!("{} is no number: {:?}", what, self)),
        }
    }
    fn num(&self, what: &str) -> Res<f64> {
        match self {
            J::Num(t) => Ok(t.parse().unwrap()),
            _ => viol("document", format!("{} is no number: {:?}", what, self)),
        }
    }
    fn opt_id(&self, what: &str) -> Res<Option<usize>> {
        match self {
            J::Null => Ok(None),
            _ => Ok(Some(self.id(what)?)),
        }
    }
}

macro_rules! same {
    ($got:expr, $want:expr, $what:expr) => {
        let (g, w) = (&$got, &$want);
        ensure!(g == w, "document", "{} is {:?} in the document, should be {:?}", $what, g, w);
    };
}

fn sorted(mut v: Vec<usize>) -> Vec<usize> {
    v.sort();
    v
}

/// the document against the mesh
pub fn compare(doc: &J, mesh: &Mesh, obs: &mut Obs) -> Res {
    let top = doc.fields(&["Elements", "Elems", "Nodes", "Edges"], "the document")?;
    let (els, ems, nos, eds) = (top[0].arr("Elements")?, top[1].arr("Elems")?, top[2].arr("Nodes")?, top[3].arr("Edges")?);
    same!([els.len(), ems.len(), nos.len(), eds.len()], [mesh.elements.len(), mesh.elems.len(), mesh.nodes.len(), mesh.edges.len()], "number of elements, elems, nodes, edges");
    for (k, (j, e)) in els.iter().zip(mesh.elements.iter()).enumerate() {
        let w = format!("element region {}", k);
        let f = j.fields(&["id", "eps_rel", "mu_rel", "eps_rel_im", "mu_rel_im"], &w)?;
        same!(f[0].id(&w)?, e.id, w);
        same!(f[0].id(&w)?, k, w);
        let m = [e.materials.eps_rel.re, e.materials.mu_rel.re, e.materials.eps_rel.im, e.materials.mu_rel.im];
        for i in 0..4 {
            same!(f[1 + i].num(&w)?, m[i], format!("{} material {}", w, i));
        }
        obs.add("regions", 1);
    }
    for (k, (j, e)) in ems.iter().zip(mesh.elems.iter()).enumerate() {
        let w = format!("elem {}", k);
        let f = j.fields(&["id", "element_id", "parent", "active", "nodes", "edges", "expansion", "h_levels", "children"], &w)?;
        same!(f[0].id(&w)?, k, w);
        same!(f[1].id(&w)?, e.element.id, format!("{} region", w));
        // the parent: the last entry of the path, and one that lists this elem as a child
        let parent = e.loc_stack().last().map(|x| x.0);
        same!(f[2].opt_id(&w)?, parent, format!("{} parent", w));
        same!(f[2].opt_id(&w)?, e.parent_id(), format!("{} parent", w));
        same!(*f[3], J::Bool(!e.has_children()), format!("{} active", w));
        same!(f[4].ids(&w)?, e.nodes.to_vec(), format!("{} corners", w));
        same!(f[5].ids(&w)?, e.edges.to_vec(), format!("{} sides", w));
        let o = f[6].fields(&["u", "v"], &w)?;
        same!([o[0].id(&w)?, o[1].id(&w)?], [e.poly_orders.ni as usize, e.poly_orders.nj as usize], format!("{} orders", w));
        let o = f[7].fields(&["u", "v"], &w)?;
        let mut lv = [0usize; 2];
        for (_, l) in e.loc_stack() {
            let h = loc_halves(loc_code(*l));
            lv[0] += (h[0] != 0) as usize;
            lv[1] += (h[1] != 0) as usize;
        }
        same!([o[0].id(&w)?, o[1].id(&w)?], lv, format!("{} levels", w));
        let kids: Vec<usize> = e.child_ids().map(|c| c.to_vec()).unwrap_or_default();
        same!(f[8].ids(&w)?, kids, format!("{} children", w));
        let back: Vec<usize> = mesh.elems.iter().filter(|x| x.parent_id() == Some(k)).map(|x| x.id).collect();
        same!(sorted(f[8].ids(&w)?), back, format!("{} children", w));
        // the corners it names lie where the region and path say
        let r = elem_rect(mesh, k);
        for (c, n) in f[4].ids(&w)?.iter().enumerate() {
            ensure!(*n < nos.len(), "document", "{} corner {} is node {}", w, c, n);
            let p = nos[*n].fields(&["id", "boundary", "point", "elems"], "a node")?[2].fields(&["x", "y"], "a point")?;
            let (x, y) = (p[0].num(&w)?, p[1].num(&w)?);
            let (ex, ey) = (r[0][c % 2], r[1][c / 2]);
            let size = (r[0][1] - r[0][0]).max(r[1][1] - r[1][0]);
            ensure!((x - ex).abs() <= 1e-9 * size + 1e-14 * ex.abs() && (y - ey).abs() <= 1e-9 * size + 1e-14 * ey.abs(), "document", "{} corner {} is written at ({}, {}), should be ({}, {})", w, c, x, y, ex, ey);
        }
        obs.add("elems", 1);
    }
    let mut corners: Vec<[Vec<usize>; 4]> = vec![Default::default(); mesh.nodes.len()];
    for e in mesh.elems.iter() {
        for c in 0..4 {
            corners[e.nodes[c]][c].push(e.id);
        }
    }
    for (k, (j, n)) in nos.iter().zip(mesh.nodes.iter()).enumerate() {
        let w = format!("node {}", k);
        let f = j.fields(&["id", "boundary", "point", "elems"], &w)?;
        same!(f[0].id(&w)?, k, w);
        same!(*f[1], J::Bool(n.boundary), format!("{} boundary", w));
        let p = f[2].fields(&["x", "y"], &w)?;
        same!([p[0].num(&w)?, p[1].num(&w)?], [n.coords.x, n.coords.y], format!("{} point", w));
        let l = f[3].arr(&w)?;
        same!(l.len(), 4, format!("{} corner lists", w));
        for c in 0..4 {
            same!(sorted(l[c].ids(&w)?), corners[k][c], format!("{} as corner {}", w, c));
        }
        obs.add("nodes", 1);
    }
    let users = edge_users(mesh);
    let act = expected_activation(mesh);
    for (k, (j, e)) in eds.iter().zip(mesh.edges.iter()).enumerate() {
        let w = format!("edge {}", k);
        let f = j.fields(&["id", "boundary", "direction", "nodes", "parent", "children", "elems", "active_elems"], &w)?;
        same!(f[0].id(&w)?, k, w);
        same!(*f[1], J::Bool(e.boundary), format!("{} boundary", w));
        same!(*f[2], J::Str(if e.dir == ParaDir::U { "U-Dir" } else { "V-Dir" }.into()), format!("{} direction", w));
        same!(f[3].ids(&w)?, e.nodes.to_vec(), format!("{} nodes", w));
        same!(f[4].opt_id(&w)?, e.parent_id(), format!("{} parent", w));
        same!(f[5].ids(&w)?, e.child_ids().map(|c| c.to_vec()).unwrap_or_default(), format!("{} children", w));
        let s = f[6].arr(&w)?;
        same!(s.len(), 2, format!("{} sides", w));
        let mut deep = 0;
        for q in 0..2 {
            let mut got = Vec::new();
            let list = s[q].arr(&w)?;
            deep = deep.max(list.len());
            for x in list {
                let g = x.fields(&["level_key", "cell_id"], &w)?;
                let id = g[1].id(&w)?;
                ensure!(id < mesh.elems.len(), "document", "{} lists elem {}", w, id);
                let h = mesh.elems[id].h_levels;
                // levels across the edge first, then along it
                let want = if e.dir == ParaDir::U { vec![h.v as usize, h.u as usize] } else { vec![h.u as usize, h.v as usize] };
                same!(g[0].ids(&w)?, want, format!("{} level key of elem {}", w, id));
                got.push(id);
            }
            same!(sorted(got), users[k][q], format!("{} elems on side {}", w, q));
        }
        let got = f[7].ids(&w)?;
        same!(got, e.active_elem_pair().map(|p| p.to_vec()).unwrap_or_default(), format!("{} active pair", w));
        same!(got, act[k].map(|p| p.to_vec()).unwrap_or_default(), format!("{} active pair", w));
        obs.add("edges", 1);
        obs.add("active_edges", act[k].is_some() as u64);
        obs.max("elems_on_one_side_of_an_edge", deep as f64);
    }
    Ok(())
}

/// one export: Ok, nothing changed, faithful document
fn export(mesh: &mut Mesh, out: &str, desc: &str, obs: &mut Obs) -> Res<Vec<u8>> {
    let before = snapshot(mesh, true);
    lib("export_to_json", || mesh.export_to_json(out))?.map_err(|e| Violation { sig: "unexpected-error".into(), msg: format!("{}: {}", desc, e) })?;
    same_snapshot(&before, &snapshot(mesh, true), "export-changed-mesh", desc)?;
    let text = std::fs::read(out).map_err(|e| Violation { sig: "no-file".into(), msg: format!("{}: {}", desc, e) })?;
    let within = |v: Violation| Violation { sig: v.sig, msg: format!("{}: {}", desc, v.msg) };
    let doc = read(&text).map_err(within)?;
    compare(&doc, mesh, obs).map_err(within)?;
    obs.add("documents", 1);
    obs.max("bytes", text.len() as f64);
    Ok(text)
}

fn run(ctx: &mut Ctx) -> Res {
    let path = ctx.scratch_file("mesh.json");
    let out = ctx.scratch_file("out.json");
    let mut rng = ctx.rng.clone();
    let materials = *rng.pick(&[Materials4::RandomReal, Materials4::RandomComplex, Materials4::Unit]);
    let top = if rng.chance(0.2) { 20 } else { 6 };
    let bo = BaseOpts { materials, ..Default::default() };
    let ho = HistOpts { max_elems: if ctx.idx % 40 == 0 { 400 } else { 90 }, max_ops: 7, max_depth: 12 };
    let (mut mesh, mut desc) = if rng.chance(0.1) {
        rand_chain(&mut rng, &path, &bo, 18, 200, OrderMode::Mixed(3))?
    } else if rng.chance(0.7) {
        rand_mesh(&mut rng, &path, &bo, &ho, OrderMode::Mixed(top))?
    } else {
        // numbers of all sizes and with all digits
        let mut spec = base_spec(&mut rng, &bo);
        let (f, ox, oy) = (rng.uni(1.0, 300.0), rng.uni(-1e4, 1e4), rng.uni(-1.0, 1.0));
        for n in spec.nodes.iter_mut() {
            *n = [n[0] * f + ox, n[1] * f + oy];
        }
        for e in spec.elems.iter_mut() {
            for m in e.1.iter_mut() {
                *m = rng.uni(-1.0, 1.0) * 10f64.powf(rng.uni(-200.0, 200.0));
                if rng.chance(0.5) {
                    *m = rng.uni(-1.0, 1.0) * 10f64.powf(rng.uni(-12.0, 12.0));
                }
            }
        }
        let mut mesh = spec.load(&path)?;
        let d = format!("base {} | {}", spec.to_json(), refine_history(&mut rng, &mut mesh, &ho)?);
        let o = set_orders(&mut rng, &mut mesh, OrderMode::Mixed(top))?;
        (mesh, format!("{}| {}", d, o))
    };
    let text = match ctx.kind {
        "document" => export(&mut mesh, &out, &desc, &mut ctx.obs)?,
        "repeated" => {
            // something longer is already there
            std::fs::write(&out, "x".repeat(rng.below(4_000_000))).unwrap();
            let a = export(&mut mesh, &out, &desc, &mut ctx.obs)?;
            let b = export(&mut mesh, &out, &desc, &mut ctx.obs)?;
            ensure!(a == b, "export-differs", "{}: a second export differs from the first", desc);
            let mut copy = mesh.clone();
            desc += &format!(" then {}", refine_history(&mut rng, &mut mesh, &HistOpts { max_elems: 250, max_ops: 3, max_depth: 12 })?);
            if rng.chance(0.5) {
                desc += &set_orders(&mut rng, &mut mesh, OrderMode::Mixed(9))?;
            }
            let c = export(&mut mesh, &out, &desc, &mut ctx.obs)?;
            let d = export(&mut copy, &out, &desc, &mut ctx.obs)?;
            ensure!(a == d, "export-differs", "{}: the export of a copy changed when the original was refined", desc);
            c
        }
        _ => {
            let before = snapshot(&mesh, true);
            let dir = format!("{}_dir", out);
            std::fs::create_dir(&dir).unwrap();
            for target in ["/dev/full".to_string(), format!("{}/no/such/x.json", dir), dir.clone(), String::new(), format!("{}/a\0b.json", dir)] {
                let r = lib("export_to_json", || mesh.export_to_json(&target))?;
                ensure!(r.is_err(), "missing-error", "{}: exporting to {:?} succeeded", desc, target);
                ctx.obs.add("refused_exports", 1);
            }
            ensure!(std::fs::read_dir(&dir).unwrap().next().is_none(), "touched-file", "{}: a refused export left files", desc);
            std::fs::remove_dir(&dir).unwrap();
            same_snapshot(&before, &snapshot(&mesh, true), "export-changed-mesh", &desc)?;
            export(&mut mesh, &out, &desc, &mut ctx.obs)?
        }
    };
    let _ = std::fs::remove_file(&out);
    if mesh.edges.iter().any(|e| e.active_elem_pair().map_or(false, |[a, b]| mesh.elems[a].loc_stack().len() != mesh.elems[b].loc_stack().len())) {
        ctx.nontrivial = Some(fnv(&text));
    }
    ctx.sample = Some(format!("{} | {} bytes", desc, text.len()));
    Ok(())
}
