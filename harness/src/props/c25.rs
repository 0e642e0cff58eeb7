//! The basis sampling cache is invisible: every answer equals a fresh computation.
use super::c12::pick_pair;
use crate::gen::*;
use crate::util::*;
use crate::{Ctx, Kind, Prop};
use fem_2d::fem_domain::basis::{BasisFnSampler, HierBasisFn, HierCurlBasisFn};
use fem_2d::fem_domain::domain::mesh::elem::Elem;
use fem_2d::fem_domain::domain::mesh::space::V2D;
use fem_2d::fem_problem::integration::glq::gauss_quadrature_points;
use fem_2d::prelude::*;
use std::cell::Cell;
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Barrier};
use std::time::Duration;

pub const PROP: Prop = Prop {
    id: "C25",
    kinds: &[
        Kind::tsan("real", 1500, 40000, 24),
        Kind::tsan("probe", 2500, 30000, 30),
        Kind::tsan("threads", 1200, 12000, 40),
        Kind::tsan("failing", 900, 9000, 30),
        Kind::new("many", 10, 120),
    ],
    run,
    threads: 2,
    rule: "random request sequences (element alone, element over itself, element over a descendant, repeated) to one to three samplers and their clones, over up to three meshes, one of them a differently refined copy of another; real: every value of every answered function against a newly constructed one; probe: a user-supplied function type that records exactly what it was constructed from; threads: the same from 2 to 16 threads at once with delays inside of the construction; failing: some constructions panic, later and concurrent requests must still be answered; many: one sampler answers tens of thousands of different requests, from one to eight threads; non-trivial = a sequence in which at least one answer was shared between requests, distinct by requests",
    assumptions: &["interleavings are those produced by the scheduler and the injected delays", "a run is called hung when nothing in the process has used the CPU for 90 s"],
};

thread_local! {
    static FAIL: Cell<bool> = const { Cell::new(false) };
}
static SERIAL: AtomicU64 = AtomicU64::new(1);
static DELAY: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Debug, PartialEq)]
struct Made {
    elem: (usize, [usize; 4], [[u64; 2]; 4], [[u64; 2]; 2]),
    desc: Option<(usize, [usize; 4], [[u64; 2]; 4], [[u64; 2]; 2])>,
    points: [Vec<u64>; 2],
    orders: [usize; 2],
    d2: bool,
}

fn ident(e: &Elem) -> (usize, [usize; 4], [[u64; 2]; 4], [[u64; 2]; 2]) {
    (e.id, e.nodes, e.element.points.map(|p| [p.x.to_bits(), p.y.to_bits()]), e.parametric_range().map(|r| r.map(f64::to_bits)))
}

fn bits(p: &[f64]) -> Vec<u64> {
    p.iter().map(|x| x.to_bits()).collect()
}

/// a user-supplied function type
#[derive(Debug)]
struct Probe {
    made: Made,
    serial: u64,
}

impl HierBasisFn for Probe {
    fn defined_over(elem: &Elem, desc: Option<&Elem>, uv: [&[f64]; 2], orders: [usize; 2], d2: bool) -> Self {
        let serial = SERIAL.fetch_add(1, Relaxed);
        match DELAY.load(Relaxed) {
            1 => std::thread::yield_now(),
            2 => std::thread::sleep(Duration::from_micros(serial.wrapping_mul(2654435761) % 60)),
            3 => {
                for _ in 0..serial.wrapping_mul(2654435761) % 2000 {
                    std::hint::spin_loop();
                }
            }
            _ => (),
        }
        if FAIL.with(|f| f.get()) {
            panic!("construction failed on purpose");
        }
        Probe { made: Made { elem: ident(elem), desc: desc.map(ident), points: [bits(uv[0]), bits(uv[1])], orders, d2 }, serial }
    }
}

/// every value of a sampled function
fn values(b: &HierCurlBasisFn<HierPoly>, orders: [usize; 2], d2: bool) -> Vec<u64> {
    let mut out = Vec::new();
    let mut v2 = |v: V2D| {
        out.push(v[0].to_bits());
        out.push(v[1].to_bits());
    };
    let one = V2D::from([1.0, 1.0]);
    v2(b.para_scale);
    v2(V2D::from([b.jac.len() as f64, b.jac.iter().map(|r| r.len()).sum::<usize>() as f64]));
    for m in 0..b.jac.len() {
        for n in 0..b.jac[m].len() {
            v2(b.jac[m][n].u);
            v2(b.jac[m][n].v);
            v2(b.jac_inv[m][n].u);
            v2(b.jac_inv[m][n].v);
            v2(V2D::from([b.det_jac[m][n], 0.0]));
            for i in 0..=orders[0] {
                for j in 0..=orders[1] {
                    v2(b.f_u([i, j], [m, n]));
                    v2(b.f_v([i, j], [m, n]));
                    v2(b.f_u_d1([i, j], [m, n], &one));
                    v2(b.f_v_d1([i, j], [m, n], &one));
                    if d2 {
                        v2(b.f_u_d2([i, j], [m, n], &one));
                        v2(b.f_v_d2([i, j], [m, n], &one));
                    }
                }
            }
        }
    }
    out
}

struct Setup {
    meshes: Vec<Mesh>,
    /// orders, points, second derivatives
    samplers: Vec<([usize; 2], [Option<usize>; 2], bool, [Vec<f64>; 2])>,
    /// sampler, mesh, elem, descendant
    requests: Vec<(usize, usize, usize, Option<usize>)>,
    desc: String,
}

fn setup(ctx: &Ctx, rng: &mut Rng, real: bool) -> Res<Setup> {
    let mut meshes: Vec<Mesh> = Vec::new();
    let mut desc = String::new();
    let n_mesh = 1 + rng.below(3);
    let ho = HistOpts { max_elems: 40, max_ops: 5, max_depth: 6 };
    for k in 0..n_mesh {
        if k > 0 && rng.chance(0.6) {
            // a copy, refined in another way
            let mut m: Mesh = meshes[rng.below(k)].clone();
            let cap = m.elems.len() + 30;
            refine_history(rng, &mut m, &HistOpts { max_elems: cap, max_ops: 3, max_depth: 8 })?;
            meshes.push(m);
            desc += " + refined copy";
        } else {
            let path = ctx.scratch_file(&format!("mesh{}.json", k));
            let (mut m, d) = {
                let spec = base_spec(rng, &BaseOpts::default());
                (spec.load(&path)?, format!("mesh of {} elements", spec.elems.len()))
            };
            refine_history(rng, &mut m, &ho)?;
            meshes.push(m);
            desc += &format!(" + {}", d);
        }
    }
    let mut samplers: Vec<([usize; 2], [Option<usize>; 2], bool, [Vec<f64>; 2])> = Vec::new();
    for _ in 0..1 + rng.below(3) {
        let cap = if real { 4 } else { 8 };
        let orders = [1 + rng.below(cap), 1 + rng.below(cap)];
        let n = [0, 1].map(|_| if rng.chance(0.15) && !real { None } else { Some(1 + rng.below(5)) });
        let d2 = rng.chance(0.4);
        // how many points there are by default shows in the weights
        let (_, w): (BasisFnSampler<Probe>, _) = lib("BasisFnSampler::with", || BasisFnSampler::with(orders[0], orders[1], n[0], n[1], d2))?;
        let pts = [0, 1].map(|k| gauss_quadrature_points(n[k].unwrap_or(w[k].len() - if d2 { 2 } else { 0 }), d2).0);
        samplers.push((orders, n, d2, pts));
    }
    let mut requests: Vec<(usize, usize, usize, Option<usize>)> = Vec::new();
    let n = 10 + rng.below(if real { 20 } else { 60 });
    for _ in 0..n {
        if !requests.is_empty() && rng.chance(0.3) {
            // again, on the same or another sampler, or the same ids on another mesh
            let mut r = requests[rng.below(requests.len())];
            if rng.chance(0.5) {
                r.0 = rng.below(samplers.len());
            }
            if rng.chance(0.5) {
                let m = rng.below(meshes.len());
                let ok = r.2 < meshes[m].elems.len()
                    && r.3.map(|d| d == r.2 || (d < meshes[m].elems.len() && meshes[m].elems[d].loc_stack().iter().any(|(a, _)| *a == r.2))).unwrap_or(true);
                if ok {
                    r.1 = m;
                }
            }
            requests.push(r);
            continue;
        }
        let m = rng.below(meshes.len());
        let (e, d) = pick_pair(rng, &meshes[m]);
        requests.push((rng.below(samplers.len()), m, e, d));
    }
    desc += &format!(" | {} samplers, {} requests", samplers.len(), requests.len());
    Ok(Setup { meshes, samplers, requests, desc })
}

fn expected(s: &Setup, r: &(usize, usize, usize, Option<usize>)) -> Made {
    let sp = &s.samplers[r.0];
    Made {
        elem: ident(&s.meshes[r.1].elems[r.2]),
        desc: r.3.map(|d| ident(&s.meshes[r.1].elems[d])),
        points: [bits(&sp.3[0]), bits(&sp.3[1])],
        orders: sp.0,
        d2: sp.2,
    }
}

fn check_probe(s: &Setup, r: &(usize, usize, usize, Option<usize>), p: &Probe) -> Res {
    let e = expected(s, r);
    ensure!(
        p.made == e,
        "wrong-answer",
        "request for element {} over {:?} of mesh {} from sampler {} was answered with element {} over {:?} (orders {:?}, expected {:?}; points {:?}, expected {:?}; geometry equal: {})",
        r.2, r.3, r.1, r.0, p.made.elem.0, p.made.desc.as_ref().map(|d| d.0), p.made.orders, e.orders, p.made.points.iter().map(|p| p.len()).collect::<Vec<_>>(), e.points.iter().map(|p| p.len()).collect::<Vec<_>>(),
        p.made.elem == e.elem && p.made.desc == e.desc
    );
    Ok(())
}

fn make<B: HierBasisFn>(s: &Setup) -> Res<Vec<BasisFnSampler<B>>> {
    s.samplers
        .iter()
        .map(|(o, n, d2, p)| {
            let (b, w): (BasisFnSampler<B>, _) = lib("BasisFnSampler::with", || BasisFnSampler::with(o[0], o[1], n[0], n[1], *d2))?;
            ensure!(w[0].len() == p[0].len() && w[1].len() == p[1].len(), "weights", "{} and {} weights, {} and {} points", w[0].len(), w[1].len(), p[0].len(), p[1].len());
            Ok(b)
        })
        .collect()
}

fn request<B: HierBasisFn>(b: &mut BasisFnSampler<B>, s: &Setup, r: &(usize, usize, usize, Option<usize>)) -> Arc<B> {
    let m = &s.meshes[r.1];
    b.sample_basis_fn(&m.elems[r.2], r.3.map(|d| &m.elems[d]))
}

/// one sampler that is asked for far more functions than any mesh of a small test has
fn many(ctx: &mut Ctx) -> Res {
    let mut rng = ctx.rng.clone();
    let path = ctx.scratch_file("mesh.json");
    let spec = base_spec(&mut rng, &BaseOpts { max_elems: 3, spacing: Spacing::Unit, ..Default::default() });
    let mut mesh = spec.load(&path)?;
    let most = 1500 + rng.below(6000);
    while mesh.elems.len() < most {
        let h = *rng.pick(&[HRef::T, HRef::U(None), HRef::V(None)]);
        lib("global_h_refinement", || mesh.global_h_refinement(h))?;
    }
    let mut requests: Vec<(usize, usize, usize, Option<usize>)> = Vec::new();
    for e in &mesh.elems {
        requests.push((0, 0, e.id, None));
        requests.extend(e.loc_stack().iter().map(|(a, _)| (0, 0, *a, Some(e.id))));
    }
    if rng.chance(0.7) {
        rng.shuffle(&mut requests);
    }
    requests.truncate(40_000);
    // some of them again
    let again: Vec<_> = (0..2000).map(|_| *rng.pick(&requests)).collect();
    requests.extend(again);
    let orders = [1, 1];
    let pts = [1, 2].map(|n| gauss_quadrature_points(n, false).0);
    let n = 1 + rng.below(8);
    let desc = format!("{} elems | one sampler, {} requests from {} threads", mesh.elems.len(), requests.len(), n);
    let s = Setup { meshes: vec![mesh], samplers: vec![(orders, [Some(1), Some(2)], false, pts)], requests, desc };
    let own: Vec<BasisFnSampler<Probe>> = make(&s)?;
    let out: Vec<Res<BTreeSet<u64>>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..n)
            .map(|k| {
                let (s, own) = (&s, &own);
                sc.spawn(move || {
                    let mut mine = own.clone();
                    let mut serials = BTreeSet::new();
                    for r in s.requests.iter().skip(k).step_by(n) {
                        let b = lib("sample_basis_fn", || request(&mut mine[0], s, r)).map_err(|v| Violation { sig: v.sig, msg: format!("{}: {}", s.desc, v.msg) })?;
                        check_probe(s, r, &b)?;
                        serials.insert(b.serial);
                    }
                    Ok(serials)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut made = BTreeSet::new();
    for o in out {
        made.extend(o?);
    }
    ctx.obs.add("requests", s.requests.len() as u64);
    ctx.obs.max("functions_of_one_sampler", made.len() as f64);
    ctx.nontrivial = Some(fnv(s.desc.as_bytes()));
    ctx.sample = Some(s.desc);
    Ok(())
}

fn run(ctx: &mut Ctx) -> Res {
    if ctx.kind == "many" {
        return many(ctx);
    }
    let mut rng = ctx.rng.clone();
    let s = setup(ctx, &mut rng, ctx.kind == "real")?;
    let mut shared = false;
    match ctx.kind {
        "real" => {
            let mut own: Vec<Vec<BasisFnSampler<HierCurlBasisFn<HierPoly>>>> = vec![make(&s)?];
            let mut held: Vec<(usize, Arc<HierCurlBasisFn<HierPoly>>, Vec<u64>)> = Vec::new();
            for (k, r) in s.requests.iter().enumerate() {
                if rng.chance(0.1) {
                    let c = own[rng.below(own.len())].clone();
                    own.push(c);
                }
                let set = rng.below(own.len());
                let b = lib("sample_basis_fn", || request(&mut own[set][r.0], &s, r))?;
                let sp = &s.samplers[r.0];
                let m = &s.meshes[r.1];
                let fresh: HierCurlBasisFn<HierPoly> =
                    lib("defined_over", || HierCurlBasisFn::defined_over(&m.elems[r.2], r.3.map(|d| &m.elems[d]), [&sp.3[0], &sp.3[1]], sp.0, sp.2))?;
                let (x, y) = (values(&fresh, sp.0, sp.2), lib("reading an answer", || values(&b, sp.0, sp.2))?);
                ensure!(x == y, "wrong-answer", "{}: request {} {:?} differs from a newly constructed function", s.desc, k, r);
                ctx.obs.add("values_compared", x.len() as u64);
                shared |= held.iter().any(|h| Arc::ptr_eq(&h.1, &b));
                held.push((k, b, x));
            }
            for (k, b, x) in &held {
                let sp = &s.samplers[s.requests[*k].0];
                ensure!(&values(b, sp.0, sp.2) == x, "changed-answer", "{}: the answer to request {} changed later", s.desc, k);
            }
            ctx.obs.add("requests", held.len() as u64);
        }
        "probe" => {
            let mut own: Vec<Vec<BasisFnSampler<Probe>>> = vec![make(&s)?];
            DELAY.store(0, Relaxed);
            let mut made = BTreeSet::new();
            for r in &s.requests {
                if rng.chance(0.1) {
                    let c = own[rng.below(own.len())].clone();
                    own.push(c);
                }
                let set = rng.below(own.len());
                let b = lib("sample_basis_fn", || request(&mut own[set][r.0], &s, r))?;
                check_probe(&s, r, &b)?;
                shared |= !made.insert(b.serial);
            }
            ctx.obs.add("requests", s.requests.len() as u64);
            ctx.obs.add("constructions_answered", made.len() as u64);
        }
        _ => {
            let failing = ctx.kind == "failing";
            let n = 2 + rng.below(15);
            let own: Vec<BasisFnSampler<Probe>> = make(&s)?;
            DELAY.store(rng.below(4) as u64, Relaxed);
            let gate = Barrier::new(n);
            let seeds: Vec<u64> = (0..n).map(|_| rng.next()).collect();
            let out: Vec<Res<(u64, u64, Vec<u64>)>> = std::thread::scope(|sc| {
                let hs: Vec<_> = seeds
                    .iter()
                    .map(|seed| {
                        let (s, own, gate) = (&s, &own, &gate);
                        sc.spawn(move || {
                            let mut rng = Rng::new(&[*seed]);
                            let mut mine = own.clone();
                            let mut order: Vec<usize> = (0..s.requests.len()).collect();
                            if rng.chance(0.6) {
                                rng.shuffle(&mut order);
                            }
                            gate.wait();
                            let (mut ok, mut failed, mut serials) = (0, 0, Vec::new());
                            for k in order {
                                let r = &s.requests[k];
                                let fail = failing && rng.chance(0.1);
                                FAIL.with(|f| f.set(fail));
                                let a = try_lib(|| request(&mut mine[r.0], s, r));
                                FAIL.with(|f| f.set(false));
                                match a {
                                    Ok(b) => {
                                        check_probe(s, r, &b)?;
                                        serials.push(b.serial);
                                        ok += 1;
                                    }
                                    Err(_) if fail => failed += 1,
                                    Err(p) => {
                                        return viol("panic:sample_basis_fn", format!("{}: request {:?} panicked at {}: {}", s.desc, r, p.loc, p.msg));
                                    }
                                }
                            }
                            Ok((ok, failed, serials))
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            DELAY.store(0, Relaxed);
            let mut made = BTreeSet::new();
            let mut across = 0;
            let mut trace = Vec::new();
            for o in out {
                let (ok, failed, serials) = o?;
                ctx.obs.add("requests", ok);
                ctx.obs.add("failed_constructions", failed);
                let before = made.len();
                let mine: BTreeSet<u64> = serials.iter().copied().collect();
                across += mine.iter().filter(|x| made.contains(*x)).count();
                made.extend(mine);
                let first = serials.iter().min().copied().unwrap_or(0);
                trace.extend(serials.iter().flat_map(|x| (x - first).to_le_bytes()));
                let _ = before;
            }
            shared = across > 0 || failing;
            ctx.obs.add("answers_shared_between_threads", across as u64);
            ctx.obs.state("construction_orders", fnv(&trace));
            ctx.obs.max("threads", n as f64);
            // afterwards, alone
            let mut mine = own.clone();
            for r in &s.requests {
                let b = lib("sample_basis_fn", || request(&mut mine[r.0], &s, r))?;
                check_probe(&s, r, &b)?;
            }
        }
    }
    if shared {
        ctx.nontrivial = Some(fnv(format!("{} {:?}", s.desc, s.requests).as_bytes()));
    }
    ctx.obs.add("sequences", 1);
    ctx.sample = Some(s.desc);
    Ok(())
}
