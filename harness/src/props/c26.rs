//! Parametric positions and real-space geometry always agree.
use super::c12::path_range;
use crate::gen::*;
use crate::structure::*;
use crate::util::*;
use crate::{Ctx, Kind, Prop};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use fem_2d::fem_domain::domain::mesh::space::{ParaDir, Point, M2D, V2D};

pub const PROP: Prop = Prop {
    id: "C26",
    kinds: &[Kind::new("mesh", 40000, 1000000), Kind::new("deep", 6000, 150000), Kind::new("algebra", 20000, 500000)],
    run,
    threads: 8,
    rule: "every elem of random refined meshes with each of its ancestors; and random vectors, matrices and points; non-trivial = a refined mesh, distinct by the set of paths, or a matrix with non-zero determinant",
    assumptions: &["base elements are axis aligned"],
};

fn algebra(ctx: &mut Ctx) -> Res {
    let mut rng = ctx.rng.clone();
    let num = |r: &mut Rng| -> f64 {
        match r.below(6) {
            0 => 0.0,
            1 => r.range(-4, 4) as f64,
            2 => -0.0,
            3 => r.gauss() * 10f64.powi(r.range(-8, 8) as i32),
            _ => r.gauss(),
        }
    };
    for _ in 0..20 {
        let a = [num(&mut rng), num(&mut rng)];
        let b = [num(&mut rng), num(&mut rng)];
        let s = num(&mut rng);
        let (va, vb) = (V2D::from(a), V2D::from(b));
        let same = |what: &str, g: V2D, e: [f64; 2]| -> Res {
            let ok = |x: f64, y: f64| x == y || (x.is_nan() && y.is_nan()) || (x - y).abs() <= 1e-15 * y.abs();
            ensure!(ok(g.x(), e[0]) && ok(g.y(), e[1]) && ok(g[0], e[0]) && ok(g[1], e[1]), format!("algebra:{}", what), "{} of {:?} and {:?}, {} is {:?}, should be {:?}", what, a, b, s, g, e);
            Ok(())
        };
        same("from", va, a)?;
        same("default", V2D::default(), [0.0, 0.0])?;
        same("add", va + vb, [a[0] + b[0], a[1] + b[1]])?;
        same("mul", va * vb, [a[0] * b[0], a[1] * b[1]])?;
        same("mul-ref", va * &vb, [a[0] * b[0], a[1] * b[1]])?;
        same("scale", va * s, [a[0] * s, a[1] * s])?;
        if s != 0.0 {
            same("div", va / s, [a[0] / s, a[1] / s])?;
        }
        if b[0] != 0.0 && b[1] != 0.0 {
            same("div-vec", va / vb, [a[0] / b[0], a[1] / b[1]])?;
        }
        let dot = a[0] * b[0] + a[1] * b[1];
        let dt = 1e-15 * ((a[0] * b[0]).abs() + (a[1] * b[1]).abs());
        ensure!(close(va.dot_with(&vb), dot, dt) && close(V2D::dot(va, vb), dot, dt), "algebra:dot", "{:?} . {:?}", a, b);
        // matrices
        let m = [[num(&mut rng), num(&mut rng)], [num(&mut rng), num(&mut rng)]];
        let k = [[num(&mut rng), num(&mut rng)], [num(&mut rng), num(&mut rng)]];
        let (mm, mk) = (M2D::from(m[0], m[1]), M2D::from(k[0], k[1]));
        let rows = |x: &M2D| [[x.u[0], x.u[1]], [x.v[0], x.v[1]]];
        let near = |what: &str, g: [[f64; 2]; 2], e: [[f64; 2]; 2], size: [[f64; 2]; 2]| -> Res {
            for r in 0..2 {
                for c in 0..2 {
                    ensure!((g[r][c] - e[r][c]).abs() <= 1e-14 * size[r][c], format!("algebra:{}", what), "{} of {:?} and {:?} is {:?}, should be {:?}", what, m, k, g, e);
                }
            }
            Ok(())
        };
        let mut prod = [[0.0; 2]; 2];
        let mut psize = [[0.0; 2]; 2];
        for r in 0..2 {
            for c in 0..2 {
                for t in 0..2 {
                    prod[r][c] += m[r][t] * k[t][c];
                    psize[r][c] += (m[r][t] * k[t][c]).abs();
                }
            }
        }
        near("product", rows(&(mm * mk)), prod, psize)?;
        near("transpose", rows(&mm.transpose()), [[m[0][0], m[1][0]], [m[0][1], m[1][1]]], [[0.0; 2]; 2])?;
        let mv = mm * va;
        ensure!(
            close(mv[0], m[0][0] * a[0] + m[0][1] * a[1], 1e-15 * 4.0 * ((m[0][0] * a[0]).abs() + (m[0][1] * a[1]).abs()))
                && close(mv[1], m[1][0] * a[0] + m[1][1] * a[1], 1e-15 * 4.0 * ((m[1][0] * a[0]).abs() + (m[1][1] * a[1]).abs())),
            "algebra:matrix-vector",
            "{:?} times {:?} is {:?}",
            m, a, mv
        );
        let det = m[0][0] * m[1][1] - m[0][1] * m[1][0];
        let dsize = (m[0][0] * m[1][1]).abs() + (m[0][1] * m[1][0]).abs();
        ensure!(close(mm.det(), det, 1e-15 * 4.0 * dsize), "algebra:det", "{:?}: {}", m, mm.det());
        if det.abs() > 1e-6 * dsize && dsize > 0.0 {
            let inv = rows(&mm.inverse());
            let e = [[m[1][1] / det, -m[0][1] / det], [-m[1][0] / det, m[0][0] / det]];
            let f = dsize / det.abs();
            near("inverse", inv, e, e.map(|r| r.map(|x| x.abs() * f)))?;
            ctx.nontrivial = Some(fnv(format!("{:?}", m).as_bytes()));
        }
        if s != 0.0 {
            near("div-matrix", rows(&(mm / s)), m.map(|r| r.map(|x| x / s)), m.map(|r| r.map(|x| (x / s).abs())))?;
        }
        // points
        let (pa, pb) = (Point::from(a), Point::new(b[0], b[1]));
        let mid = Point::between(&pa, &pb);
        let dist = ((a[0] - b[0]).powi(2) + (a[1] - b[1]).powi(2)).sqrt();
        ensure!(close(mid.x, (a[0] + b[0]) / 2.0, 1e-15 * (a[0].abs() + b[0].abs())) && close(mid.y, (a[1] + b[1]) / 2.0, 1e-15 * (a[1].abs() + b[1].abs())), "algebra:between", "{:?} {:?} -> {:?}", a, b, mid);
        ensure!(close(pa.dist(&pb), dist, 1e-14 * dist), "algebra:dist", "{:?} {:?} -> {}", a, b, pa.dist(&pb));
        let sum = pa + pb;
        ensure!(sum.x == a[0] + b[0] && sum.y == a[1] + b[1], "algebra:point-add", "{:?} {:?}", a, b);
        if s != 0.0 {
            let q = pa / s;
            ensure!(close(q.x, a[0] / s, 1e-15 * (a[0] / s).abs()) && close(q.y, a[1] / s, 1e-15 * (a[1] / s).abs()), "algebra:point-div", "{:?} / {}", a, s);
        }
        // equality and what has to agree with it
        let hash = |p: &Point| {
            let mut h = DefaultHasher::new();
            p.hash(&mut h);
            h.finish()
        };
        let z = Point::default();
        let origin = Point::from([if rng.chance(0.5) { 0.0 } else { -0.0 }, 0.0]);
        ensure!(z.x == 0.0 && z.y == 0.0 && z == origin && hash(&z) == hash(&origin), "algebra:point-default", "{:?}", z);
        ensure!(z.y_order(&pa) == 0.0f64.partial_cmp(&a[1]).unwrap() || a[1].abs() < 1e-9, "algebra:point-default", "{:?} {:?}", z, pa);
        ensure!(z.x_order(&pa) == 0.0f64.partial_cmp(&a[0]).unwrap() || a[0].abs() < 1e-9, "algebra:point-default", "{:?} {:?}", z, pa);
        let again = Point::new(a[0], a[1]);
        ensure!(pa == again && again == pa && hash(&pa) == hash(&again), "algebra:point-equality", "{:?} differs from itself", a);
        ensure!((pa == pb) == (pb == pa), "algebra:point-equality", "{:?} {:?}: one way only", a, b);
        if pa == pb {
            ensure!(hash(&pa) == hash(&pb), "algebra:point-hash", "{:?} and {:?} are equal with different hashes", a, b);
        }
        let apart = |k: usize| (a[k] - b[k]).abs() > 1e-9 * (1.0 + a[k].abs());
        if apart(0) || apart(1) {
            ensure!(pa != pb, "algebra:point-equality", "{:?} and {:?} count as one point", a, b);
        }
        // ordering and direction, for points that are clearly apart
        let (dx, dy) = ((a[0] - b[0]).abs(), (a[1] - b[1]).abs());
        if dx > 1e-9 * (1.0 + a[0].abs()) || dx == 0.0 {
            let o = pa.x_order(&pb);
            ensure!(o == a[0].partial_cmp(&b[0]).unwrap(), "algebra:x-order", "{:?} {:?}: {:?}", a, b, o);
        }
        if dy > 1e-9 * (1.0 + a[1].abs()) || dy == 0.0 {
            let o = pa.y_order(&pb);
            ensure!(o == a[1].partial_cmp(&b[1]).unwrap(), "algebra:y-order", "{:?} {:?}: {:?}", a, b, o);
        }
        if dx.max(dy) > 1e-6 * (1.0 + a[0].abs() + a[1].abs() + b[0].abs() + b[1].abs()) && (dx - dy).abs() > 1e-9 * dx.max(dy) {
            let o = lib("orientation_with", || pa.orientation_with(&pb))?;
            ensure!(o == if dx > dy { ParaDir::U } else { ParaDir::V }, "algebra:orientation", "{:?} {:?}: {:?}", a, b, o);
        }
        ctx.obs.add("operations", 30);
    }
    ctx.sample = Some("20 random vectors, matrices and points".into());
    Ok(())
}

fn run(ctx: &mut Ctx) -> Res {
    if ctx.kind == "algebra" {
        return algebra(ctx);
    }
    let path = ctx.scratch_file("mesh.json");
    let mut rng = ctx.rng.clone();
    let spec = base_spec(&mut rng, &BaseOpts::default());
    let mut mesh = spec.load(&path)?;
    let deep = ctx.kind == "deep";
    let log = if deep && ctx.idx % 2 == 0 {
        chain_history(&mut rng, &mut mesh, 24, 160)?
    } else {
        refine_history(&mut rng, &mut mesh, &HistOpts { max_elems: if deep { 160 } else { 80 }, max_ops: if deep { 16 } else { 6 }, max_depth: if deep { 22 } else { 8 } })?
    };
    let mut key = 0u64;
    for e in 0..mesh.elems.len() {
        let el = &mesh.elems[e];
        // the recorded path has to be the chain of parents
        let st = el.loc_stack().to_vec();
        let mut cur = e;
        for (a, l) in st.iter().rev() {
            ensure!(mesh.elems[cur].parent_id() == Some(*a), "path", "elem {}: recorded ancestor {} is not the parent of {}", e, a, cur);
            // and the recorded place has to be the place among the children
            let ch = mesh.elems[*a].child_ids().map(|c| c.to_vec()).unwrap_or_default();
            let at = ch.iter().position(|c| *c == cur);
            let want = match (ch.len(), loc_code(*l)) {
                (4, c @ 0..=3) => Some(c as usize),
                (2, 4) | (2, 6) => Some(0),
                (2, 5) | (2, 7) => Some(1),
                _ => None,
            };
            ensure!(at.is_some() && at == want, "path", "elem {}: is child {:?} of {} but recorded at {:?}", cur, at, a, l);
            ensure!(Some(l.index()) == at, "path", "elem {}: {:?} says child {} of {}, it is child {:?}", cur, l, l.index(), a, at);
            cur = *a;
        }
        ensure!(mesh.elems[cur].parent_id().is_none(), "path", "elem {}: path ends at {} which has a parent", e, cur);
        let mut own = [[-1.0, 1.0]; 2];
        for (_, l) in st.iter() {
            own = lib("sub_range", || l.sub_range(own))?;
        }
        let path = elem_path(&mesh, e);
        key = key.rotate_left(5) ^ fnv(&path);
        // corners as the mesh reports them
        let c = [el.nodes[0], el.nodes[3]].map(|n| mesh.nodes[n].coords);
        let real = [[c[0].x, c[1].x], [c[0].y, c[1].y]];
        let to_real = |range: Rect, over: Rect| {
            [0, 1].map(|k| range[k].map(|t| over[k][0] * (1.0 - t) / 2.0 + over[k][1] * (1.0 + t) / 2.0))
        };
        let tol = |k: usize| 1e-14 * real[k][0].abs().max(real[k][1].abs()).max(base_rect(&mesh, el.element.id)[k].iter().fold(0.0f64, |a, b| a.max(b.abs())));
        let same = |what: &str, range: Rect, over: Rect, exact: Rect| -> Res {
            for k in 0..2 {
                for s in 0..2 {
                    ensure!((range[k][s] - exact[k][s]).abs() <= 1e-15, "range", "elem {}: {} is {:?}, its recorded path gives {:?}", e, what, range, exact);
                    let r = to_real(range, over);
                    ensure!((r[k][s] - real[k][s]).abs() <= tol(k), "range-real", "elem {}: {} {:?} maps to {:?}, corner nodes give {:?}", e, what, range, r, real);
                }
            }
            Ok(())
        };
        let pr = lib("parametric_range", || el.parametric_range())?;
        same("range composed along the path", own, base_rect(&mesh, el.element.id), path_range(&path))?;
        same("parametric range", pr, base_rect(&mesh, el.element.id), path_range(&path))?;
        for (k, (a, _)) in st.iter().enumerate() {
            let rr = lib("relative_parametric_range", || el.relative_parametric_range(*a))?;
            let ae = &mesh.elems[*a];
            let ca = [ae.nodes[0], ae.nodes[3]].map(|n| mesh.nodes[n].coords);
            same(&format!("range in ancestor {}", a), rr, [[ca[0].x, ca[1].x], [ca[0].y, ca[1].y]], path_range(&path[k..]))?;
            // composing the ancestor's own range with this one gives the whole
            let ar = lib("parametric_range", || ae.parametric_range())?;
            let comp = to_real(rr, ar);
            for x in 0..2 {
                for s in 0..2 {
                    ensure!((comp[x][s] - pr[x][s]).abs() <= 1e-14, "composition", "elem {}: range {:?} in ancestor {} at {:?} composes to {:?}, reported {:?}", e, rr, a, ar, comp, pr);
                }
            }
            ctx.obs.add("ancestor_pairs", 1);
        }
        // transformation
        let p = [rng.uni(-1.0, 1.0), rng.uni(-1.0, 1.0)];
        let j = lib("parametric_mapping", || el.parametric_mapping(V2D::from(p), pr))?;
        let h = [0, 1].map(|k| (real[k][1] - real[k][0]) / 2.0);
        ensure!(
            (j.u[0] - h[0]).abs() <= tol(0) && (j.v[1] - h[1]).abs() <= tol(1) && j.u[1] == 0.0 && j.v[0] == 0.0 && j.det() > 0.0,
            "transformation",
            "elem {}: {:?}, half sizes {:?}",
            e, j, h
        );
        ctx.obs.add("elems", 1);
        ctx.obs.max("depth", path.len() as f64);
    }
    if mesh.elems.len() > mesh.elements.len() {
        ctx.nontrivial = Some(key);
    }
    ctx.sample = Some(format!("{} | {} | {} elems", spec.to_json(), log, mesh.elems.len()));
    Ok(())
}
