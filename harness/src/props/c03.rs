//! A rejected refinement or order request leaves the mesh untouched.
use crate::gen::*;
use crate::model::*;
use crate::structure::*;
use crate::util::*;
use crate::{Ctx, Kind, Prop};
use fem_2d::prelude::*;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C03",
    kinds: &[
        Kind::new("h", 9000, 225000),
        Kind::new("hnear", 4800, 120000),
        Kind::new("p", 9000, 225000),
        Kind::new("set", 3600, 90000),
    ],
    run,
    threads: 8,
    rule: "valid requests with invalid entries (missing / refined / too small elems, duplicates, malformed extensions, orders out of range) put in random positions through every fallible entry point; the observable snapshot before and after a refusal is compared, and a later valid request on the refused mesh is compared with the same request on a mesh that never saw the refusal; non-trivial = a request was refused, distinct by (mesh, request)",
    assumptions: &["the global and filter h-refinement forms return no result; their behaviour on too short elems is recorded under C02"],
};

fn missing(rng: &mut Rng, n: usize) -> usize {
    match rng.below(4) {
        0 | 1 => n,
        2 => n + 1 + rng.below(5),
        _ => *rng.pick(&[usize::MAX, usize::MAX - 1, 1 << 40, 1 << 32]),
    }
}

fn run(ctx: &mut Ctx) -> Res {
    let path = ctx.scratch_file("mesh.json");
    let mut rng = ctx.rng.clone();
    let (mut mesh, desc) = if ctx.kind == "hnear" {
        let s = base_spec(&mut rng, &BaseOpts { spacing: Spacing::Tiny, ..Default::default() });
        let mut m = s.load(&path)?;
        set_orders(&mut rng, &mut m, OrderMode::Random(6))?;
        (m, s.to_json())
    } else {
        rand_mesh(&mut rng, &path, &BaseOpts::default(), &HistOpts { max_elems: 60, max_ops: 4, max_depth: 6 }, OrderMode::Mixed(20))?
    };
    let rounds = 1 + rng.below(3);
    let mut log = String::new();
    for _ in 0..rounds {
        let snap = snapshot(&mesh, true);
        let pristine = mesh.clone();
        let (what, refused) = match ctx.kind {
            "h" | "hnear" => h_round(ctx, &mut rng, &mut mesh)?,
            "p" => p_round(ctx, &mut rng, &mut mesh)?,
            _ => set_round(ctx, &mut rng, &mut mesh)?,
        };
        log += &what;
        log += "; ";
        if refused {
            same_snapshot(&snap, &snapshot(&mesh, true), "refusal-changed-mesh", &what)?;
            ctx.nontrivial = Some(snap_hash(&snap) ^ fnv(what.as_bytes()));
            ctx.obs.add("refusals", 1);
            // still fully usable: same behaviour as a mesh that never saw the refused request
            let mut twin = pristine;
            let lv: Vec<usize> = leaves(&mesh).into_iter().filter(|e| min_side(&mesh, *e) > 4.5 * 3.0518e-5).collect();
            if !lv.is_empty() && mesh.elems.len() < 150 {
                let l: Vec<(usize, HRef)> = (0..1 + rng.below(3)).map(|_| (*rng.pick(&lv), rand_href(&mut rng))).collect();
                let a = lib("execute_h_refinements after a refusal", || mesh.execute_h_refinements(l.clone()))?;
                let b = lib("execute_h_refinements", || twin.execute_h_refinements(l.clone()))?;
                ensure!(a.is_ok() && b.is_ok(), "unusable-after-refusal", "after refused {}: {:?} gave {:?} / {:?}", what, l, a, b);
                same_snapshot(&snapshot(&twin, true), &snapshot(&mesh, true), "unusable-after-refusal", &format!("after refused {}: {:?}", what, l))?;
                check(&mesh, &mut Obs::default())?;
            }
            lib("global_p_refinement after a refusal", || mesh.global_p_refinement(PRef::from(1, -1)))?;
            lib("global_p_refinement", || twin.global_p_refinement(PRef::from(1, -1)))?;
            same_snapshot(&snapshot(&twin, true), &snapshot(&mesh, true), "unusable-after-refusal", &format!("after refused {}: p", what))?;
        } else {
            ctx.obs.add("accepted", 1);
        }
    }
    ctx.sample = Some(format!("{} | {}", desc, log));
    Ok(())
}

fn h_round(ctx: &mut Ctx, rng: &mut Rng, mesh: &mut Mesh) -> Res<(String, bool)> {
    let n = mesh.elems.len();
    let model = Model::of(mesh);
    let keys: Vec<Key> = (0..n).map(|i| key_of(mesh, i).unwrap()).collect();
    let elig: Vec<usize> = (0..n).filter(|i| model.eligible(&keys[*i])).collect();
    let bad: Vec<usize> = (0..n).filter(|i| !model.eligible(&keys[*i])).collect();
    let mut l: Vec<(usize, HRef)> = Vec::new();
    if !elig.is_empty() {
        for _ in 0..rng.below(5) {
            l.push((*rng.pick(&elig), rand_href(rng)));
        }
    }
    let n_bad = rng.below(10) / 4; // 0, 1 or 2
    let list_api = rng.chance(0.35);
    if list_api {
        l.sort_by_key(|x| x.0);
        l.dedup_by_key(|x| x.0);
        rng.shuffle(&mut l);
        let h = rand_href(rng);
        for x in l.iter_mut() {
            x.1 = h;
        }
    }
    let mut dup = false;
    for _ in 0..n_bad {
        let pos = rng.below(l.len() + 1);
        match rng.below(4) {
            0 => l.insert(pos, (missing(rng, n), rand_href(rng))),
            1 if !bad.is_empty() => l.insert(pos, (*rng.pick(&bad), rand_href(rng))),
            2 if !elig.is_empty() => {
                let c = *rng.pick(&[2usize, 3, 4, 255, usize::MAX]);
                let h = if rng.chance(0.5) { HRef::U(Some(c)) } else { HRef::V(Some(c)) };
                // possibly together with valid refinements of the same elem
                let e = if rng.chance(0.5) && !l.is_empty() { l[rng.below(l.len())].0 } else { *rng.pick(&elig) };
                l.insert(pos, (e, h));
            }
            3 if list_api && !l.is_empty() => {
                let d = l[rng.below(l.len())];
                l.insert(pos, d);
                dup = true;
            }
            _ => l.insert(pos, (missing(rng, n), rand_href(rng))),
        }
    }
    if list_api {
        let h = l.iter().find(|x| matches!(x.1, HRef::U(Some(c)) | HRef::V(Some(c)) if c > 1)).or(l.first()).map(|x| x.1).unwrap_or(HRef::T);
        let ids: Vec<usize> = l.iter().map(|x| x.0).collect();
        let mut s = ids.clone();
        s.sort();
        s.dedup();
        dup |= s.len() != ids.len();
        let list: Vec<(Option<Key>, HRef)> = ids.iter().map(|e| (keys.get(*e).cloned(), h)).collect();
        let pred = if dup { Err(Refusal::Duplicate) } else { model.clone().execute(&list) };
        let what = format!("h_refine_elems({:?}, {})", ids, h);
        let r = lib("h_refine_elems", || mesh.h_refine_elems(ids.clone(), h))?;
        return judge(ctx, &what, pred.map(|_| ()), r.map_err(|e| e.to_string()));
    }
    let list: Vec<(Option<Key>, HRef)> = l.iter().map(|(e, h)| (keys.get(*e).cloned(), *h)).collect();
    let pred = model.clone().execute(&list);
    let what = format!("execute_h_refinements({:?})", l);
    let r = lib("execute_h_refinements", || mesh.execute_h_refinements(l.clone()))?;
    judge(ctx, &what, pred.map(|_| ()), r.map_err(|e| e.to_string()))
}

fn judge(ctx: &mut Ctx, what: &str, pred: Result<(), Refusal>, r: Result<(), String>) -> Res<(String, bool)> {
    match (&pred, &r) {
        (Ok(()), Ok(())) => Ok((what.to_string(), false)),
        (Err(e), Err(_)) => {
            ctx.obs.add(&format!("refused_{:?}", e), 1);
            Ok((what.to_string(), true))
        }
        (Ok(()), Err(e)) => viol("valid-refused", format!("{} was refused: {}", what, e)),
        (Err(e), Ok(())) => viol("invalid-accepted", format!("{} was accepted, although {:?}", what, e)),
    }
}

fn p_round(ctx: &mut Ctx, rng: &mut Rng, mesh: &mut Mesh) -> Res<(String, bool)> {
    let n = mesh.elems.len();
    let orders: Vec<[i64; 2]> = mesh.elems.iter().map(|e| [e.poly_orders.ni as i64, e.poly_orders.nj as i64]).collect();
    // amounts that keep the elem inside its window
    let fit = |rng: &mut Rng, o: i64| rng.range((1 - o).max(-5), (20 - o).min(5));
    let mut l: Vec<(usize, [i64; 2])> = Vec::new();
    for _ in 0..rng.below(5) {
        let e = rng.below(n);
        if l.iter().any(|x| x.0 == e) {
            continue;
        }
        l.push((e, [fit(rng, orders[e][0]), fit(rng, orders[e][1])]));
    }
    if rng.chance(0.5) && !l.is_empty() {
        // split an amount into several entries which only fit in sum
        let k = rng.below(l.len());
        let (e, d) = l[k];
        let s = [rng.range(-60, 60), rng.range(-60, 60)];
        l[k].1 = [d[0] - s[0], d[1] - s[1]];
        let pos = rng.below(l.len() + 1);
        l.insert(pos, (e, s));
    }
    let n_bad = rng.below(10) / 4;
    for _ in 0..n_bad {
        let pos = rng.below(l.len() + 1);
        if rng.chance(0.4) {
            l.insert(pos, (missing(rng, n), [fit(rng, 5), fit(rng, 5)]));
        } else {
            let e = rng.below(n);
            let ax = rng.below(2);
            let mut d = [0, 0];
            d[ax] = if rng.chance(0.5) { 21 - orders[e][ax] + rng.range(0, 3) } else { -orders[e][ax] - rng.range(0, 3) };
            if rng.chance(0.2) {
                d[ax] = *rng.pick(&[127, -127, -128]);
            }
            d[1 - ax] = if rng.chance(0.5) { 0 } else { fit(rng, orders[e][1 - ax]) };
            l.insert(pos, (e, d));
        }
    }
    let api = rng.below(3);
    let pr = |d: [i64; 2]| PRef::from(d[0].clamp(-128, 127) as i8, d[1].clamp(-128, 127) as i8);
    let predict = |l: &[(usize, [i64; 2])]| -> Result<(), Refusal> {
        let mut m: BTreeMap<usize, [i64; 2]> = BTreeMap::new();
        for (e, d) in l {
            if *e >= n {
                return Err(Refusal::Missing);
            }
            let s = m.entry(*e).or_insert([0, 0]);
            s[0] += d[0].clamp(-128, 127);
            s[1] += d[1].clamp(-128, 127);
        }
        for (e, s) in m {
            for a in 0..2 {
                if !(1..=20).contains(&(orders[e][a] + s[a])) {
                    return Err(Refusal::NotRefineable);
                }
            }
        }
        Ok(())
    };
    match api {
        0 => {
            let d = l.first().map(|x| x.1).unwrap_or([1, 0]);
            let ids: Vec<usize> = l.iter().map(|x| x.0).collect();
            let mut s = ids.clone();
            s.sort();
            s.dedup();
            let ll: Vec<(usize, [i64; 2])> = ids.iter().map(|i| (*i, d)).collect();
            let pred = if s.len() != ids.len() { Err(Refusal::Duplicate) } else { predict(&ll) };
            let what = format!("p_refine_elems({:?}, {:?})", ids, d);
            let r = lib("p_refine_elems", || mesh.p_refine_elems(ids.clone(), pr(d)))?;
            judge(ctx, &what, pred, r.map_err(|e| e.to_string()))
        }
        1 => {
            // the bounded filter: at most one amount per existing elem
            let mut m: BTreeMap<usize, [i64; 2]> = BTreeMap::new();
            for (e, d) in &l {
                if *e < n {
                    m.insert(*e, *d);
                }
            }
            let ll: Vec<(usize, [i64; 2])> = m.iter().map(|(a, b)| (*a, *b)).collect();
            let pred = predict(&ll);
            let what = format!("p_refine_with_filter_bounded({:?})", ll);
            let r = lib("p_refine_with_filter_bounded", || mesh.p_refine_with_filter_bounded(|e, _| m.get(&e.id).map(|d| pr(*d))))?;
            judge(ctx, &what, pred, r.map_err(|e| e.to_string()))
        }
        _ => {
            let pred = predict(&l);
            let what = format!("execute_p_refinements({:?})", l);
            let r = lib("execute_p_refinements", || mesh.execute_p_refinements(l.iter().map(|(e, d)| (*e, pr(*d))).collect()))?;
            judge(ctx, &what, pred, r.map_err(|e| e.to_string()))
        }
    }
}

fn set_round(ctx: &mut Ctx, rng: &mut Rng, mesh: &mut Mesh) -> Res<(String, bool)> {
    let n = mesh.elems.len();
    let mut l: Vec<(usize, [u8; 2])> = Vec::new();
    for _ in 0..rng.below(6) {
        let e = rng.below(n);
        if !l.iter().any(|x| x.0 == e) {
            l.push((e, [1 + rng.below(20) as u8, 1 + rng.below(20) as u8]));
        }
    }
    for _ in 0..rng.below(10) / 4 {
        let pos = rng.below(l.len() + 1);
        if rng.chance(0.5) || l.is_empty() {
            l.insert(pos, (missing(rng, n), [2, 2]));
        } else {
            let e = l[rng.below(l.len())].0;
            l.insert(pos, (e, [1 + rng.below(20) as u8, 1 + rng.below(20) as u8]));
        }
    }
    let same = rng.chance(0.4);
    if same {
        for i in 1..l.len() {
            l[i].1 = l[0].1;
        }
    }
    let mut s: Vec<usize> = l.iter().map(|x| x.0).collect();
    s.sort();
    let len = s.len();
    s.dedup();
    let pred = if l.iter().any(|x| x.0 >= n) {
        Err(Refusal::Missing)
    } else if s.len() != len {
        Err(Refusal::Duplicate)
    } else {
        Ok(())
    };
    if same {
        let o = l.first().map(|x| x.1).unwrap_or([3, 3]);
        let ids: Vec<usize> = l.iter().map(|x| x.0).collect();
        let what = format!("set_expansion_on_elems({:?}, {:?})", ids, o);
        let r = lib("set_expansion_on_elems", || mesh.set_expansion_on_elems(ids.clone(), Orders::new(o[0], o[1])))?;
        judge(ctx, &what, pred, r.map_err(|e| e.to_string()))
    } else {
        let what = format!("set_expansion_orders({:?})", l);
        let r = lib("set_expansion_orders", || mesh.set_expansion_orders(l.iter().map(|(e, o)| (*e, Orders::new(o[0], o[1]))).collect()))?;
        judge(ctx, &what, pred, r.map_err(|e| e.to_string()))
    }
}
