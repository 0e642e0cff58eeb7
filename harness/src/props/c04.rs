//! Expansion orders follow exact, saturating-free p-refinement arithmetic.
use crate::gen::*;
use crate::structure::*;
use crate::util::*;
use crate::{Ctx, Kind, Prop};
use fem_2d::fem_domain::domain::mesh::p_refinement::PolyOrders;
use fem_2d::fem_domain::domain::mesh::space::ParaDir;
use fem_2d::prelude::*;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C04",
    kinds: &[
        Kind::new("mesh", 40000, 1000000),
        Kind::new("pref", 8000, 200000),
        Kind::new("orders", 1, 1),
        Kind::new("poly", 1, 1),
    ],
    run,
    threads: 8,
    rule: "random sequences of order requests (global, list, filter, bounded, explicit with repeated elems, direct setting, refinement in between) against an integer model of every elem's orders; random sequences of sums/constraints of p-refinements against i64 arithmetic; Orders and single amounts exhaustively; non-trivial = distinct final orders / sums",
    assumptions: &[],
};

fn pick_delta(rng: &mut Rng) -> i8 {
    match rng.below(6) {
        0 => *rng.pick(&[0, 1, -1, 19, -19, 20, -20, 127, -127, -128]),
        1 => rng.range(-128, 127) as i8,
        _ => rng.range(-6, 6) as i8,
    }
}

fn run(ctx: &mut Ctx) -> Res {
    match ctx.kind {
        "orders" => orders(ctx),
        "poly" => poly(ctx),
        "pref" => pref(ctx),
        _ => mesh_case(ctx),
    }
}

fn orders(ctx: &mut Ctx) -> Res {
    for i in 0..=255u8 {
        for j in 0..=255u8 {
            let ok = (1..=20).contains(&i) && (1..=20).contains(&j);
            match lib("Orders::try_new", || Orders::try_new(i, j))? {
                Ok(o) => ensure!(ok && o.to_array() == [i, j], "orders", "try_new({}, {}) gave {:?}", i, j, o),
                Err(_) => ensure!(!ok, "orders", "try_new({}, {}) was refused", i, j),
            }
            ctx.obs.add("orders_tried", 1);
            if i < 24 && j < 24 {
                let r = try_lib(|| Orders::new(i, j).to_array());
                ensure!(r.is_ok() == ok, "orders", "Orders::new({}, {})", i, j);
                if let Ok(a) = r {
                    ensure!(a == [i, j], "orders", "Orders::new({}, {}) gave {:?}", i, j, a);
                }
                for (ni, nj) in [(1u8, 1u8), (7, 20)] {
                    let mut p = PolyOrders { ni, nj };
                    let r = lib("PolyOrders::set", || p.set([i, j]))?;
                    ensure!(r.is_ok() == ok, "orders", "set([{}, {}]) gave {:?}", i, j, r);
                    let e = if ok { [i, j] } else { [ni, nj] };
                    ensure!([p.ni, p.nj] == e, "orders", "set([{}, {}]) stored {:?}", i, j, p);
                }
            }
        }
    }
    ctx.nontrivial = Some(1);
    Ok(())
}

fn poly(ctx: &mut Ctx) -> Res {
    for n in 1..=20u8 {
        for d in -128..=127i16 {
            for other in [0i8, 1, -30] {
                for flip in [false, true] {
                    let mut p = if flip { PolyOrders { ni: 5, nj: n } } else { PolyOrders { ni: n, nj: 5 } };
                    let (di, dj) = if flip { (other, d as i8) } else { (d as i8, other) };
                    let before = p;
                    let t = [p.ni as i64 + di as i64, p.nj as i64 + dj as i64];
                    let ok = t.iter().all(|x| (1..=20).contains(x));
                    let r = lib("PolyOrders::refine", || p.refine(PRef::from(di, dj)))?;
                    ensure!(r.is_ok() == ok, "poly-orders", "{:?} refined by ({}, {}): {:?}", before, di, dj, r);
                    let e = if ok { t } else { [before.ni as i64, before.nj as i64] };
                    ensure!([p.ni as i64, p.nj as i64] == e, "poly-orders", "{:?} refined by ({}, {}) gave {:?}", before, di, dj, p);
                    ctx.obs.add("single_refinements", 1);
                }
            }
        }
    }
    for d in -128..=127i16 {
        let d = d as i8;
        ensure!(PRef::from(d, 0).as_array() == [d, 0] && PRef::from(0, d).as_array() == [0, d], "pref", "from({})", d);
        ensure!(PRef::on_dir(ParaDir::U, d).as_array() == [d, 0], "pref", "on_dir(U, {})", d);
        ensure!(PRef::on_dir(ParaDir::V, d).as_array() == [0, d], "pref", "on_dir(V, {})", d);
    }
    ctx.nontrivial = Some(2);
    Ok(())
}

fn pref(ctx: &mut Ctx) -> Res {
    let mut rng = ctx.rng.clone();
    let mut log = String::new();
    for _ in 0..20 {
        let mut s = [0i64; 2];
        let mut p: Option<PRef> = None;
        let cap = if rng.chance(0.1) { 400 } else { 8 };
        let n = 1 + rng.below(cap);
        let big = rng.chance(0.3);
        let mut v = Vec::new();
        for _ in 0..n {
            let d = if big {
                [*rng.pick(&[127i8, 100, -128, 1]), *rng.pick(&[-128i8, -127, 5])]
            } else {
                [pick_delta(&mut rng), pick_delta(&mut rng)]
            };
            v.push(d);
            s[0] += d[0] as i64;
            s[1] += d[1] as i64;
            let q = PRef::from(d[0], d[1]);
            p = Some(match p {
                None => q,
                Some(mut a) => {
                    lib("PRef += PRef", || a += q)?;
                    a
                }
            });
        }
        let p = p.unwrap();
        let a = lib("PRef::as_array", || p.as_array())?;
        for k in 0..2 {
            if (-128..=127).contains(&s[k]) {
                ensure!(a[k] as i64 == s[k], "pref-sum", "sum of {:?} is {:?}, as_array says {:?}", v, s, a);
            } else {
                ensure!((a[k] as i64).signum() == s[k].signum(), "pref-sum", "sum of {:?} is {:?}, as_array says {:?}", v, s, a);
            }
        }
        for _ in 0..6 {
            let w = |rng: &mut Rng| -> [i8; 2] {
                let mut b = [pick_delta(rng), pick_delta(rng)];
                b.sort();
                b
            };
            let b = [w(&mut rng), w(&mut rng)];
            let inside = (0..2).all(|k| (b[k][0] as i64..=b[k][1] as i64).contains(&s[k]));
            let f = lib("PRef::falls_within", || p.falls_within(b))?;
            ensure!(f == inside, "pref-within", "{:?} falls_within {:?} = {}", s, b, f);
            let c = lib("PRef::constrained_to", || p.constrained_to(b))?;
            let e = [0, 1].map(|k| s[k].clamp(b[k][0] as i64, b[k][1] as i64) as i8);
            ensure!(c.as_array() == e, "pref-constrain", "{:?} constrained to {:?} = {:?}", s, b, c.as_array());
            ensure!(c.falls_within(b), "pref-constrain", "{:?} constrained to {:?} does not fall within", s, b);
            ctx.obs.add("constraints", 1);
        }
        ctx.obs.add("sums", 1);
        ctx.nontrivial = Some(fnv(format!("{:?}", v).as_bytes()));
        log = format!("sum of {:?} = {:?}", v, s);
    }
    log.truncate(400);
    ctx.sample = Some(log);
    Ok(())
}

fn mesh_case(ctx: &mut Ctx) -> Res {
    let path = ctx.scratch_file("mesh.json");
    let mut rng = ctx.rng.clone();
    let (mut mesh, desc) = rand_mesh(
        &mut rng,
        &path,
        &BaseOpts { max_nx: 2, max_ny: 2, max_elems: 3, ..Default::default() },
        &HistOpts { max_elems: 24, max_ops: 3, max_depth: 4 },
        OrderMode::Mixed(20),
    )?;
    let mut model: Vec<[i64; 2]> = mesh.elems.iter().map(|e| [e.poly_orders.ni as i64, e.poly_orders.nj as i64]).collect();
    let mut log = String::new();
    for _ in 0..2 + rng.below(6) {
        let n = mesh.elems.len();
        // windows
        for (i, o) in model.iter().enumerate() {
            let w = lib("elem_p_refinement_window", || mesh.elem_p_refinement_window(i))?.or_viol("elem_p_refinement_window")?;
            for k in 0..2 {
                ensure!(
                    w[k][0] as i64 == 1 - o[k] && w[k][1] as i64 == 20 - o[k],
                    "window",
                    "elem {} with orders {:?} has window {:?}",
                    i,
                    o,
                    w
                );
            }
        }
        let mx = lib("max_expansion_orders", || mesh.max_expansion_orders())?;
        let e = [0, 1].map(|k| model.iter().map(|o| o[k]).max().unwrap() as u8);
        ensure!(mx == e, "max-orders", "max_expansion_orders {:?}, expected {:?}", mx, e);
        let d = [pick_delta(&mut rng), pick_delta(&mut rng)];
        let mut m: BTreeMap<usize, [i8; 2]> = BTreeMap::new();
        for i in 0..n {
            if rng.chance(0.4) {
                m.insert(i, [pick_delta(&mut rng), pick_delta(&mut rng)]);
            }
        }
        let ok_at = |model: &Vec<[i64; 2]>, i: usize, d: [i64; 2]| (0..2).all(|k| (1..=20).contains(&(model[i][k] + d[k])));
        let mut next = model.clone();
        let what;
        let mut expect: Result<(), ()> = Ok(());
        let mut got: Result<(), ()> = Ok(());
        match rng.below(9) {
            0 => {
                what = format!("global({:?})", d);
                for o in next.iter_mut() {
                    for k in 0..2 {
                        o[k] = (o[k] + d[k] as i64).clamp(1, 20);
                    }
                }
                lib("global_p_refinement", || mesh.global_p_refinement(PRef::from(d[0], d[1])))?;
            }
            1 => {
                what = format!("filter({:?})", m);
                for (i, d) in &m {
                    for k in 0..2 {
                        next[*i][k] = (next[*i][k] + d[k] as i64).clamp(1, 20);
                    }
                }
                lib("p_refine_with_filter", || mesh.p_refine_with_filter(|e| m.get(&e.id).map(|d| PRef::from(d[0], d[1]))))?;
            }
            2 => {
                what = format!("bounded({:?})", m);
                if m.iter().all(|(i, d)| ok_at(&model, *i, [d[0] as i64, d[1] as i64])) {
                    for (i, d) in &m {
                        for k in 0..2 {
                            next[*i][k] += d[k] as i64;
                        }
                    }
                } else {
                    expect = Err(());
                }
                let win = std::cell::RefCell::new(Vec::new());
                got = lib("p_refine_with_filter_bounded", || {
                    mesh.p_refine_with_filter_bounded(|e, w| {
                        win.borrow_mut().push((e.id, w));
                        m.get(&e.id).map(|d| PRef::from(d[0], d[1]))
                    })
                })?
                .map_err(|_| ());
                for (i, w) in win.borrow().iter() {
                    for k in 0..2 {
                        ensure!(
                            w[k][0] as i64 == 1 - model[*i][k] && w[k][1] as i64 == 20 - model[*i][k],
                            "window",
                            "elem {} with orders {:?} got window {:?} in the filter",
                            i,
                            model[*i],
                            w
                        );
                    }
                }
            }
            3 => {
                let ids: Vec<usize> = m.keys().copied().collect();
                let d = [d[0] % 4, d[1] % 4];
                what = format!("elems({:?}, {:?})", ids, d);
                if ids.iter().all(|i| ok_at(&model, *i, [d[0] as i64, d[1] as i64])) {
                    for i in &ids {
                        for k in 0..2 {
                            next[*i][k] += d[k] as i64;
                        }
                    }
                } else {
                    expect = Err(());
                }
                got = lib("p_refine_elems", || mesh.p_refine_elems(ids.clone(), PRef::from(d[0], d[1])))?.map_err(|_| ());
            }
            4 | 5 => {
                // explicit; several amounts per elem which have to be summed
                let mut l: Vec<(usize, [i8; 2])> = Vec::new();
                let mut s: BTreeMap<usize, [i64; 2]> = BTreeMap::new();
                let target_in = rng.chance(0.7);
                for (i, _) in m.iter() {
                    let parts = 1 + rng.below(4);
                    let mut sum = [0i64; 2];
                    for p in 0..parts {
                        let mut d = [pick_delta(&mut rng), pick_delta(&mut rng)];
                        if p + 1 == parts && target_in {
                            for k in 0..2 {
                                let t = rng.range(1, 20) - model[*i][k];
                                d[k] = (t - sum[k]).clamp(-128, 127) as i8;
                            }
                        }
                        sum[0] += d[0] as i64;
                        sum[1] += d[1] as i64;
                        l.push((*i, d));
                    }
                    s.insert(*i, sum);
                }
                rng.shuffle(&mut l);
                what = format!("exec({:?})", l);
                if s.iter().all(|(i, d)| ok_at(&model, *i, *d)) {
                    for (i, d) in &s {
                        for k in 0..2 {
                            next[*i][k] += d[k];
                        }
                    }
                } else {
                    expect = Err(());
                }
                got = lib("execute_p_refinements", || mesh.execute_p_refinements(l.iter().map(|(i, d)| (*i, PRef::from(d[0], d[1]))).collect()))?
                    .map_err(|_| ());
            }
            6 => {
                let o = [1 + rng.below(20) as u8, 1 + rng.below(20) as u8];
                match rng.below(3) {
                    0 => {
                        what = format!("set_global({:?})", o);
                        for x in next.iter_mut() {
                            *x = [o[0] as i64, o[1] as i64];
                        }
                        lib("set_global_expansion_orders", || mesh.set_global_expansion_orders(Orders::new(o[0], o[1])))?;
                    }
                    1 => {
                        let mut ids: Vec<usize> = m.keys().copied().collect();
                        rng.shuffle(&mut ids);
                        what = format!("set_on_elems({:?}, {:?})", ids, o);
                        for i in &ids {
                            next[*i] = [o[0] as i64, o[1] as i64];
                        }
                        got = lib("set_expansion_on_elems", || mesh.set_expansion_on_elems(ids.clone(), Orders::new(o[0], o[1])))?.map_err(|_| ());
                    }
                    _ => {
                        what = format!("set_filter({:?})", m.keys());
                        let f = |id: usize| Orders::new(1 + (id * 7 % 20) as u8, 1 + (id * 11 % 20) as u8);
                        for i in m.keys() {
                            let a = f(*i).to_array();
                            next[*i] = [a[0] as i64, a[1] as i64];
                        }
                        lib("set_expansions_with_filter", || mesh.set_expansions_with_filter(|e| if m.contains_key(&e.id) { Some(f(e.id)) } else { None }))?;
                    }
                }
            }
            7 => {
                let mut l: Vec<(usize, [u8; 2])> = m.keys().map(|i| (*i, [1 + rng.below(20) as u8, 1 + rng.below(20) as u8])).collect();
                rng.shuffle(&mut l);
                what = format!("set_orders({:?})", l);
                for (i, o) in &l {
                    next[*i] = [o[0] as i64, o[1] as i64];
                }
                got = lib("set_expansion_orders", || mesh.set_expansion_orders(l.iter().map(|(i, o)| (*i, Orders::new(o[0], o[1]))).collect()))?.map_err(|_| ());
            }
            _ => {
                // refinement in between: children inherit
                let lv = leaves(&mesh);
                if lv.len() > 30 {
                    continue;
                }
                let e = *rng.pick(&lv);
                let h = rand_href(&mut rng);
                what = format!("refine({}, {})", e, h);
                got = lib("execute_h_refinements", || mesh.execute_h_refinements(vec![(e, h)]))?.map_err(|_| ());
                for x in mesh.elems.iter().skip(n) {
                    let p = next[x.parent_id().unwrap()];
                    next.push(p);
                }
            }
        }
        ensure!(got == expect, "accept-reject", "{} on orders {:?}: expected {:?}, got {:?}", what, model, expect, got);
        for (i, o) in next.iter().enumerate() {
            let e = &mesh.elems[i].poly_orders;
            ensure!(
                [e.ni as i64, e.nj as i64] == *o,
                "wrong-orders",
                "after {}: elem {} had {:?}, now {:?}, expected {:?}",
                what,
                i,
                model.get(i),
                e,
                o
            );
            ensure!(o.iter().all(|x| (1..=20).contains(x)), "order-range", "elem {}: {:?}", i, o);
        }
        ctx.obs.add(if expect.is_ok() { "accepted" } else { "refused" }, 1);
        ctx.obs.add("orders_compared", next.len() as u64);
        model = next;
        log += &what;
        log += "; ";
    }
    ctx.nontrivial = Some(snap_hash(&snapshot(&mesh, false)));
    log.truncate(600);
    ctx.sample = Some(format!("{} | {}", desc, log));
    Ok(())
}
