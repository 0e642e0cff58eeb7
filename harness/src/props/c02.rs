//! h-refinement requests do exactly what the documented semantics say.
use crate::gen::*;
use crate::model::*;
use crate::structure::*;
use crate::util::*;
use crate::{Ctx, Kind, Prop};
use fem_2d::fem_domain::domain::mesh::h_refinement::HRefError;
use fem_2d::prelude::*;
use std::collections::BTreeMap;
use std::sync::Arc;

pub const PROP: Prop = Prop {
    id: "C02",
    kinds: &[
        Kind::new("mixed", 18000, 450000),
        Kind::new("combine", 10500, 262500),
        Kind::new("nearmin", 10500, 262500),
        Kind::new("algebra", 1, 1),
    ],
    run,
    threads: 8,
    rule: "random meshes and requests through all four entry points (several refinements per elem, extensions, ineligible ids given to filter/global, sizes around the smallest edge length); after each request the whole refinement tree is compared with a reference model; non-trivial = the request refined at least one elem, distinct by resulting snapshot",
    assumptions: &["base meshes are axis aligned and conforming"],
};

fn elem_static(mesh: &Mesh, id: usize) -> String {
    let e = &mesh.elems[id];
    format!(
        "{} {:?} {:?} {} {:?} {:?} {:?} {:?}",
        e.id,
        e.nodes,
        e.edges,
        e.element.id,
        e.h_levels,
        e.poly_orders,
        e.parent_id(),
        elem_path(mesh, id)
    )
}

/// all pairs and triples of refinement kinds combine to the least cover, whatever the order
fn algebra(ctx: &mut Ctx) -> Res {
    let all = [HRef::T, HRef::U(None), HRef::V(None), HRef::U(Some(0)), HRef::U(Some(1)), HRef::V(Some(0)), HRef::V(Some(1))];
    for a in all {
        for b in all {
            let mut x = a;
            x += b;
            ensure!(x == combine(a, b), "combination", "{} + {} = {}, expected {}", a, b, x, combine(a, b));
            for c in all {
                let mut y = x;
                y += c;
                let e = combine(combine(a, b), c);
                ensure!(y == e, "combination", "{} + {} + {} = {}, expected {}", a, b, c, y, e);
                ctx.obs.add("combinations", 1);
            }
        }
    }
    ensure!(HRef::t() == HRef::T && HRef::u() == HRef::U(None) && HRef::v() == HRef::V(None), "constructors", "t/u/v");
    for i in 0..=255u8 {
        for (r, e) in [
            (HRef::u_extened(i), HRef::U(Some(i as usize))),
            (HRef::v_extened(i), HRef::V(Some(i as usize))),
        ] {
            match r {
                Ok(h) => ensure!(i < 2 && h == e, "constructors", "extended({}) gave {}", i, h),
                Err(er) => ensure!(i >= 2 && matches!(er, HRefError::BisectionIdxExceeded), "constructors", "extended({}) gave {:?}", i, er),
            }
        }
    }
    ctx.nontrivial = Some(1);
    Ok(())
}

fn run(ctx: &mut Ctx) -> Res {
    if ctx.kind == "algebra" {
        return algebra(ctx);
    }
    let path = ctx.scratch_file("mesh.json");
    let mut rng = ctx.rng.clone();
    let near = ctx.kind == "nearmin";
    let mut mesh;
    let mut desc;
    if near {
        let s = base_spec(&mut rng, &BaseOpts { spacing: Spacing::Tiny, ..Default::default() });
        mesh = s.load(&path)?;
        desc = s.to_json();
        set_orders(&mut rng, &mut mesh, OrderMode::Random(6))?;
    } else {
        let (m, d) = rand_mesh(&mut rng, &path, &BaseOpts::default(), &HistOpts { max_elems: 60, max_ops: 4, max_depth: 6 }, OrderMode::Mixed(8))?;
        mesh = m;
        desc = d;
    }
    let steps = 1 + rng.below(4);
    let mut did = 0;
    for _ in 0..steps {
        if mesh.elems.len() > 250 {
            break;
        }
        let n = mesh.elems.len();
        let mut model = Model::of(&mesh);
        let keys: Vec<Key> = (0..n).map(|i| key_of(&mesh, i).unwrap()).collect();
        let elig: Vec<usize> = (0..n).filter(|i| model.eligible(&keys[*i])).collect();
        // the library's own idea of eligibility must be the documented one
        for i in 0..n {
            let l = lib("elem_is_h_refineable", || mesh.elem_is_h_refineable(i))?.or_viol("elem_is_h_refineable")?;
            ensure!(l == elig.contains(&i), "eligibility", "elem_is_h_refineable({}) = {}", i, l);
        }
        if elig.is_empty() {
            break;
        }
        let before: Vec<String> = (0..n).map(|i| elem_static(&mesh, i)).collect();
        let snap = snapshot(&mesh, true);
        let api = if ctx.kind == "combine" { 0 } else { rng.below(4) };
        let what;
        match api {
            0 => {
                let k = 1 + rng.below(if ctx.kind == "combine" { 3 } else { 6 });
                let mut l: Vec<(usize, HRef)> = Vec::new();
                for _ in 0..k {
                    let e = *rng.pick(&elig);
                    let reps = if ctx.kind == "combine" { 1 + rng.below(4) } else { 1 + rng.below(2) * rng.below(2) };
                    for _ in 0..reps {
                        l.push((e, rand_href(&mut rng)));
                    }
                }
                rng.shuffle(&mut l);
                what = format!("execute_h_refinements({:?})", l);
                let list: Vec<(Option<Key>, HRef)> = l.iter().map(|(e, h)| (Some(keys[*e].clone()), *h)).collect();
                let pred = model.execute(&list);
                let mut twin = mesh.clone();
                let r = lib("execute_h_refinements", || mesh.execute_h_refinements(l.clone()))?;
                check_result(&pred, &r, &what)?;
                did += *pred.as_ref().unwrap_or(&0);
                // the order in which they are listed does not matter
                let mut l2 = l.clone();
                rng.shuffle(&mut l2);
                let r2 = lib("execute_h_refinements", || twin.execute_h_refinements(l2.clone()))?;
                ensure!(r.is_ok() == r2.is_ok(), "order-dependent", "{}: {:?} but listed as {:?}: {:?}", what, r, l2, r2);
                model.compare(&twin, "order-dependent")?;
                ctx.obs.add("explicit_requests", 1);
            }
            1 => {
                let mut l = elig.clone();
                rng.shuffle(&mut l);
                l.truncate(1 + rng.below(6));
                let h = rand_href(&mut rng);
                what = format!("h_refine_elems({:?}, {})", l, h);
                let list: Vec<(Option<Key>, HRef)> = l.iter().map(|e| (Some(keys[*e].clone()), h)).collect();
                let pred = model.execute(&list);
                let r = lib("h_refine_elems", || mesh.h_refine_elems(l.clone(), h))?;
                check_result(&pred, &r, &what)?;
                did += *pred.as_ref().unwrap_or(&0);
                ctx.obs.add("list_requests", 1);
            }
            2 if elig.len() <= 60 => {
                let h = rand_href(&mut rng);
                what = format!("global_h_refinement({})", h);
                let sel: BTreeMap<usize, HRef> = elig.iter().map(|e| (*e, h)).collect();
                let pr = try_lib(|| mesh.global_h_refinement(h));
                did += silent(ctx, &mut model, &keys, &sel, &mut mesh, pr, "global_h_refinement", &what, &snap)?;
                ctx.obs.add("global_requests", 1);
            }
            _ => {
                let mut sel: BTreeMap<usize, HRef> = BTreeMap::new();
                for i in 0..n {
                    // asks for ineligible elems as well
                    if rng.chance(0.4) {
                        sel.insert(i, rand_href(&mut rng));
                    }
                }
                what = format!("h_refine_with_filter({:?})", sel);
                let pr = try_lib(|| mesh.h_refine_with_filter(|e| sel.get(&e.id).copied()));
                let sel: BTreeMap<usize, HRef> = sel.into_iter().filter(|(e, _)| elig.contains(e)).collect();
                did += silent(ctx, &mut model, &keys, &sel, &mut mesh, pr, "h_refine_with_filter", &what, &snap)?;
                ctx.obs.add("filter_requests", 1);
            }
        }
        desc += &format!(" ; {}", what);
        model.compare(&mesh, "wrong-refinement").map_err(|v| Violation { sig: v.sig, msg: format!("after {}: {}", what, v.msg) })?;
        for (i, b) in before.iter().enumerate() {
            let now = elem_static(&mesh, i);
            ensure!(*b == now, "existing-elem-changed", "after {}: elem was {} now {}", what, b, now);
            ensure!(
                Arc::ptr_eq(&mesh.elems[i].element, &mesh.elements[mesh.elems[i].element.id]),
                "material",
                "elem {} changed its base element",
                i
            );
        }
        for e in mesh.elems.iter().skip(n) {
            let p = &mesh.elems[e.parent_id().unwrap()];
            ensure!(Arc::ptr_eq(&e.element, &p.element), "material", "elem {} does not share its parent's element", e.id);
            ctx.obs.add("children_checked", 1);
        }
        ctx.obs.add("requests", 1);
    }
    if did > 0 {
        ctx.nontrivial = Some(snap_hash(&snapshot(&mesh, false)));
    }
    ctx.obs.add("refined_elems", did as u64);
    ctx.sample = Some(desc);
    Ok(())
}

fn check_result(pred: &Result<usize, Refusal>, r: &Result<(), HRefError>, what: &str) -> Res {
    match (pred, r) {
        (Ok(_), Ok(())) | (Err(_), Err(_)) => Ok(()),
        (Ok(_), Err(e)) => viol("valid-refused", format!("{} was refused: {}", what, e)),
        (Err(e), Ok(())) => viol("invalid-accepted", format!("{} was accepted, but should be refused: {:?}", what, e)),
    }
}

/// global and filter forms: no result; elems which are eligible but too short for this refinement are to be skipped
fn silent(
    ctx: &mut Ctx,
    model: &mut Model,
    keys: &[Key],
    sel: &BTreeMap<usize, HRef>,
    mesh: &mut Mesh,
    r: Result<(), Panicked>,
    name: &str,
    what: &str,
    snap: &[String],
) -> Res<usize> {
    let short = sel.iter().any(|(e, h)| !model.long_enough(&keys[*e], *h));
    match r {
        Ok(()) => {
            let list: Vec<(Option<Key>, HRef)> =
                sel.iter().filter(|(e, h)| model.long_enough(&keys[**e], **h)).map(|(e, h)| (Some(keys[*e].clone()), *h)).collect();
            model.execute(&list).map_err(|e| Violation { sig: "model".into(), msg: format!("{:?}", e) })
        }
        Err(p) => {
            let v = Violation {
                sig: if short && p.msg.contains("MinEdgeLength") {
                    format!("short-edge-panic:{}", name)
                } else {
                    format!("panic:{}", name)
                },
                msg: format!("{} panicked at {}: {} (elems whose sides are between once and twice the smallest length: {})", what, p.loc, p.msg, short),
            };
            if v.sig.starts_with("short-edge-panic") {
                // listed as a known finding; the mesh must at least be untouched
                same_snapshot(snap, &snapshot(mesh, true), "panic-changed-mesh", what)?;
                ctx.report_side(v);
                ctx.obs.add("short_edge_panics", 1);
                Ok(0)
            } else {
                Err(v)
            }
        }
    }
}
