//! Parallel assembly: exactly-once accounting with integer valued integrals, under varied pools, delays and callers.
use super::c09;
use crate::gen::*;
use crate::structure::*;
use crate::util::*;
use crate::{Ctx, Kind, Prop};
use fem_2d::fem_domain::basis::{HierCurlBasisFn, HierCurlBasisFnSpace};
use fem_2d::fem_domain::domain::dof::basis_spec::BasisDir;
use fem_2d::fem_domain::domain::mesh::element::Materials;
use fem_2d::fem_problem::integration::{HierCurlIntegral, IntegralResult};
use fem_2d::fem_problem::linalg::GEP;
use fem_2d::prelude::*;
use rayon::prelude::*;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::OnceLock;
use std::time::Duration;

pub const PROP: Prop = Prop {
    id: "C10",
    kinds: &[
        Kind::tsan("pools", 170, 5000, 24),
        Kind::tsan("callers", 70, 2000, 12),
        Kind::tsan("nested", 50, 1500, 8),
        Kind::tsan("failing", 40, 800, 4),
        Kind::tsan("real", 60, 1600, 8),
        Kind::new("many", 4, 60),
    ],
    run,
    threads: 1,
    rule: "random hp-meshes assembled with user-supplied integrals that return an exact whole number identifying the pair of functions, the element and the layer difference: every entry must be the exact sum of the numbers of all overlapping pairs, so one lost, repeated or foreign contribution shows; pools: the same domain on pools of 1, 2, 3, 8 and 32 workers with random delays inside integrals and basis construction; callers: different domains assembled at once from several threads, on one pool and on several; nested: assemblies started inside of pool workers; failing: an integral that panics in one worker, followed by a sound assembly; real: the built-in integrals on different pools against one worker; many: meshes of 1 000 to 22 000 elements, on pools of several sizes; non-trivial = a run in which at least two workers took part, distinct by the observed order of work",
    assumptions: &["delays are sampled, not enumerated: interleavings are those the scheduler produced", "a run is called hung when nothing in the process has used the CPU for 90 s"],
};

const RING: usize = 8192;
static RING_LOG: [AtomicU32; RING] = [const { AtomicU32::new(0) }; RING];
static TICKET: AtomicUsize = AtomicUsize::new(0);
/// 0 none, 1 spin, 2 yield, 3 sleep, 4 one slow thread
static DELAY: AtomicU32 = AtomicU32::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);
/// the integral panics at the n-th call (0 = never)
static PANIC_AT: AtomicU64 = AtomicU64::new(0);

fn worker() -> u32 {
    rayon::current_thread_index().map(|i| i as u32 + 1).unwrap_or(0)
}

fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

fn disturb(seed: u64) {
    let mode = DELAY.load(Relaxed);
    if mode == 0 {
        return;
    }
    let h = mix(seed ^ (TICKET.load(Relaxed) as u64) << 20 ^ worker() as u64);
    match mode {
        1 => {
            if h % 4 == 0 {
                for _ in 0..(h >> 8) % 3000 {
                    std::hint::spin_loop();
                }
            }
        }
        2 => {
            if h % 2 == 0 {
                std::thread::yield_now();
            }
        }
        3 => {
            if h % 64 == 0 {
                std::thread::sleep(Duration::from_micros((h >> 8) % 200));
            }
        }
        _ => {
            if worker() % 3 == 1 && h % 16 == 0 {
                std::thread::sleep(Duration::from_micros(50 + (h >> 8) % 300));
            }
        }
    }
}

fn note(what: u64) {
    let t = TICKET.fetch_add(1, Relaxed);
    if t < RING {
        RING_LOG[t].store((worker() << 20) | (what as u32 & 0xfffff), Relaxed);
    }
}

/// a basis function space that takes its time
#[derive(Clone, Debug)]
pub struct SlowPoly(HierPoly);

impl HierCurlBasisFnSpace for SlowPoly {
    fn with(n: usize, p: &[f64], d2: bool) -> Self {
        disturb(n as u64 * 77);
        let s = SlowPoly(<HierPoly as HierCurlBasisFnSpace>::with(n, p, d2));
        disturb(n as u64 * 78);
        s
    }
    fn norm(&self, n: usize, p: usize) -> f64 {
        self.0.norm(n, p)
    }
    fn norm_d1(&self, n: usize, p: usize) -> f64 {
        self.0.norm_d1(n, p)
    }
    fn norm_d2(&self, n: usize, p: usize) -> f64 {
        self.0.norm_d2(n, p)
    }
    fn tang(&self, n: usize, p: usize) -> f64 {
        self.0.tang(n, p)
    }
    fn tang_d1(&self, n: usize, p: usize) -> f64 {
        self.0.tang_d1(n, p)
    }
    fn tang_d2(&self, n: usize, p: usize) -> f64 {
        self.0.tang_d2(n, p)
    }
}

fn fn_number(u_dir: bool, o: [usize; 2], side: u64) -> u64 {
    1 + mix(side * 1_000_003 + u_dir as u64 * 7919 + o[0] as u64 * 131 + o[1] as u64) % 997
}
fn place_number(eps: f64, scale: [f64; 2], side: u64) -> u64 {
    1 + mix(side.wrapping_mul(31) ^ eps.to_bits().rotate_left(7) ^ scale[0].to_bits().rotate_left(23) ^ scale[1].to_bits()) % 991
}
/// the same for both orders of the pair
fn pair_number(p: (bool, [usize; 2]), q: (bool, [usize; 2]), eps: f64, scale: [f64; 2], side: u64) -> f64 {
    (fn_number(p.0, p.1, side) * fn_number(q.0, q.1, side) * place_number(eps, scale, side)) as f64
}

/// SIDE distinguishes the two matrices
pub struct Count<const SIDE: u64>;

impl<const SIDE: u64> HierCurlIntegral for Count<SIDE> {
    fn with_weights(_: &[f64], _: &[f64]) -> Self {
        Count
    }
    fn integrate<B: HierCurlBasisFnSpace>(
        &self,
        p_dir: BasisDir,
        q_dir: BasisDir,
        p_orders: [usize; 2],
        q_orders: [usize; 2],
        p: &HierCurlBasisFn<B>,
        q: &HierCurlBasisFn<B>,
        m: &Materials,
    ) -> IntegralResult {
        let scale = [p.para_scale[0] * q.para_scale[0], p.para_scale[1] * q.para_scale[1]];
        let v = pair_number((p_dir == BasisDir::U, p_orders), (q_dir == BasisDir::U, q_orders), m.eps_rel.re, scale, SIDE);
        let c = CALLS.fetch_add(1, Relaxed) + 1;
        if c == PANIC_AT.load(Relaxed) {
            panic!("integral failed on purpose");
        }
        note(m.eps_rel.re.to_bits() >> 40 ^ scale[0].to_bits() >> 44);
        disturb(v as u64 ^ SIDE);
        IntegralResult::Full(v)
    }
    fn integrate_by_parts<B: HierCurlBasisFnSpace>(
        &self,
        a: BasisDir,
        b: BasisDir,
        c: [usize; 2],
        d: [usize; 2],
        p: &HierCurlBasisFn<B>,
        q: &HierCurlBasisFn<B>,
        m: &Materials,
    ) -> IntegralResult {
        self.integrate(a, b, c, d, p, q, m)
    }
}

type Entries = BTreeMap<[usize; 2], f64>;

/// the sums over all overlapping pairs, from the refinement tree
fn expected(d: &Domain) -> ([Entries; 2], u64) {
    let mesh = &d.mesh;
    let n = mesh.elems.len();
    let paths: Vec<(usize, Vec<u8>)> = (0..n).map(|e| (mesh.elems[e].element.id, elem_path(mesh, e))).collect();
    let lv: Vec<[f64; 2]> = (0..n)
        .map(|e| {
            let mut s = [1.0, 1.0];
            let b = base_rect(mesh, mesh.elems[e].element.id);
            let r = elem_rect(mesh, e);
            // relative sizes are powers of two
            s[0] *= 2f64.powi((((r[0][1] - r[0][0]) / (b[0][1] - b[0][0])).log2()).round() as i32);
            s[1] *= 2f64.powi((((r[1][1] - r[1][0]) / (b[1][1] - b[1][0])).log2()).round() as i32);
            s
        })
        .collect();
    let mut out = [Entries::new(), Entries::new()];
    let mut pairs = 0;
    let by_path: std::collections::HashMap<(usize, &[u8]), usize> = (0..n).map(|e| ((paths[e].0, &paths[e].1[..]), e)).collect();
    for f in 0..n {
        for k in 0..=paths[f].1.len() {
            let e = by_path[&(paths[f].0, &paths[f].1[..k])];
            let scale = [lv[f][0] / lv[e][0], lv[f][1] / lv[e][1]];
            let eps = mesh.elems[e].element.materials.eps_rel.re;
            for (k, p) in d.basis_specs[e].iter().enumerate() {
                for q in d.basis_specs[f].iter().skip(if e == f { k } else { 0 }) {
                    let (i, j) = (p.dof_id.unwrap(), q.dof_id.unwrap());
                    for side in 0..2 {
                        let v = pair_number((p.dir == BasisDir::U, [p.i as usize, p.j as usize]), (q.dir == BasisDir::U, [q.i as usize, q.j as usize]), eps, scale, side as u64);
                        *out[side].entry([i.min(j), i.max(j)]).or_insert(0.0) += v;
                    }
                    pairs += 1;
                }
            }
        }
    }
    (out, pairs)
}

fn same(exp: &[Entries; 2], g: &GEP, what: &str) -> Res {
    for (name, sm, ex) in [("A", &g.a, &exp[0]), ("B", &g.b, &exp[1])] {
        let got = c09::entries(sm);
        for k in got.keys().chain(ex.keys()) {
            let (v, e) = (got.get(k).copied().unwrap_or(0.0), ex.get(k).copied().unwrap_or(0.0));
            ensure!(
                v == e,
                "exactly-once",
                "{}: {}[{}, {}] holds {} instead of {}: contributions were lost, repeated or mixed up",
                what, name, k[0], k[1], v, e
            );
        }
    }
    Ok(())
}

fn pool(n: usize) -> &'static rayon::ThreadPool {
    static POOLS: OnceLock<Vec<(usize, rayon::ThreadPool)>> = OnceLock::new();
    let p = POOLS.get_or_init(|| {
        [1usize, 2, 3, 8, 32]
            .iter()
            .map(|k| (*k, rayon::ThreadPoolBuilder::new().num_threads(*k).stack_size(8 << 20).build().unwrap()))
            .collect()
    });
    &p.iter().find(|(k, _)| *k == n).unwrap().1
}

fn count(d: &Domain, slow: bool) -> Res<GEP> {
    lib("galerkin_sample_gep_hcurl", || {
        if slow {
            galerkin_sample_gep_hcurl::<SlowPoly, Count<0>, Count<1>>(d, Some([4, 4]))
        } else {
            galerkin_sample_gep_hcurl::<HierPoly, Count<0>, Count<1>>(d, Some([4, 5]))
        }
    })?
    .or_viol("galerkin_sample_gep_hcurl")
}

/// order of work since the last call, and how many workers took part
fn observed(obs: &mut Obs) -> (u64, usize) {
    let n = TICKET.swap(0, Relaxed).min(RING);
    let ev: Vec<u32> = RING_LOG[..n].iter().map(|a| a.load(Relaxed)).collect();
    let mut bytes = Vec::with_capacity(n * 4);
    let mut seen = std::collections::BTreeSet::new();
    let mut switches = 0;
    for (k, e) in ev.iter().enumerate() {
        bytes.extend_from_slice(&e.to_le_bytes());
        seen.insert(e >> 20);
        if k > 0 && ev[k - 1] >> 20 != e >> 20 {
            switches += 1;
        }
    }
    obs.add("integral_calls_logged", n as u64);
    obs.add("switches_between_workers", switches);
    obs.max("workers_in_one_assembly", seen.len() as f64);
    let h = fnv(&bytes);
    obs.state("orders_of_work", h);
    (h, seen.len())
}

fn a_domain(ctx: &Ctx, rng: &mut Rng, k: usize, big: bool) -> Res<(Domain, String)> {
    let path = ctx.scratch_file(&format!("mesh{}.json", k));
    let (mesh, desc) = rand_mesh(
        rng,
        &path,
        &BaseOpts { materials: Materials4::Distinct, ..Default::default() },
        &HistOpts { max_elems: if big { 60 } else { 25 }, max_ops: 5, max_depth: 6 },
        OrderMode::Mixed(3),
    )?;
    Ok((domain_of(mesh)?, desc))
}

fn run(ctx: &mut Ctx) -> Res {
    let mut rng = ctx.rng.clone();
    let _ = observed(&mut Obs::default());
    PANIC_AT.store(0, Relaxed);
    let slow = rng.chance(0.4);
    match ctx.kind {
        "pools" | "failing" => {
            let (d, desc) = a_domain(ctx, &mut rng, 0, ctx.idx % 5 == 0)?;
            if d.dofs.is_empty() {
                return Ok(());
            }
            let (exp, pairs) = expected(&d);
            ctx.obs.add("pairs", pairs);
            let mut most = 0;
            let mut hash = 0;
            for size in [1usize, 2, 3, 8, 32] {
                let mode = rng.below(5) as u32;
                DELAY.store(mode, Relaxed);
                if ctx.kind == "failing" && size != 1 {
                    let total = pairs * 2;
                    CALLS.store(0, Relaxed);
                    PANIC_AT.store(1 + rng.below(total as usize) as u64, Relaxed);
                    let r = try_lib(|| pool(size).install(|| galerkin_sample_gep_hcurl::<SlowPoly, Count<0>, Count<1>>(&d, Some([4, 4]))));
                    ensure!(r.is_err(), "swallowed-failure", "{}: an integral panicked on a pool of {} and the assembly still returned a result", desc, size);
                    ctx.obs.add("failures_injected", 1);
                    PANIC_AT.store(0, Relaxed);
                    let _ = observed(&mut Obs::default());
                }
                let g = pool(size).install(|| count(&d, slow))?;
                DELAY.store(0, Relaxed);
                same(&exp, &g, &format!("pool of {}, delays {}, {}", size, mode, desc))?;
                let (h, w) = observed(&mut ctx.obs);
                ctx.obs.add("assemblies", 1);
                if w > most {
                    most = w;
                    hash = h;
                }
            }
            if most > 1 {
                ctx.nontrivial = Some(hash);
            }
            ctx.sample = Some(format!("{} | {} pairs, up to {} workers", desc, pairs, most));
        }
        "many" => {
            // more elements than any queue, batch or small counter is made for
            let path = ctx.scratch_file("mesh.json");
            let spec = base_spec(&mut rng, &BaseOpts { max_elems: 4, max_nx: 2, max_ny: 2, holes: false, materials: Materials4::Distinct, spacing: Spacing::Dyadic, ..Default::default() });
            let mut mesh = spec.load(&path)?;
            let goal = [1100, 2300, 5000, 17000][ctx.idx as usize % 4];
            while leaves(&mesh).len() < goal {
                lib("global_h_refinement", || mesh.global_h_refinement(HRef::T))?;
            }
            let top = 1 + rng.below(2) as u8;
            lib("set_global_expansion_orders", || mesh.set_global_expansion_orders(Orders::new(top, 3 - top)))?;
            let desc = format!("{} refined everywhere to {} elems, orders [{}, {}]", spec.to_json(), mesh.elems.len(), top, 3 - top);
            let d = domain_of(mesh)?;
            let (exp, pairs) = expected(&d);
            ctx.obs.add("pairs", pairs);
            ctx.obs.max("elements", d.mesh.elems.len() as f64);
            ctx.obs.max("dofs", d.dofs.len() as f64);
            let sizes: &[usize] = if ctx.idx % 4 == 3 { &[8] } else { &[1, 3, 32] };
            for size in sizes {
                let g = pool(*size).install(|| count(&d, false))?;
                same(&exp, &g, &format!("pool of {}, {}", size, desc))?;
                ctx.obs.add("assemblies", 1);
                let (h, w) = observed(&mut ctx.obs);
                if w > 1 {
                    ctx.nontrivial = Some(h);
                }
            }
            ctx.sample = Some(format!("{} | {} pairs, {} dofs", desc, pairs, d.dofs.len()));
        }
        "callers" | "nested" => {
            let n = 2 + rng.below(6);
            let mut own: Vec<(Domain, String)> = Vec::new();
            let mut who: Vec<usize> = Vec::new();
            for k in 0..n {
                // some of the callers share one domain
                if !own.is_empty() && rng.chance(0.25) {
                    who.push(rng.below(own.len()));
                } else {
                    let d = a_domain(ctx, &mut rng, k, false)?;
                    if !d.0.dofs.is_empty() {
                        who.push(own.len());
                        own.push(d);
                    }
                }
            }
            if own.is_empty() {
                return Ok(());
            }
            let exps: Vec<[Entries; 2]> = own.iter().map(|d| expected(&d.0).0).collect();
            let ds: Vec<&(Domain, String)> = who.iter().map(|k| &own[*k]).collect();
            let mode = rng.below(5) as u32;
            DELAY.store(mode, Relaxed);
            let sizes: Vec<usize> = ds.iter().map(|_| *rng.pick(&[1usize, 2, 3, 8, 32])).collect();
            let one_pool = rng.chance(0.5);
            let results: Vec<Res<GEP>> = if ctx.kind == "nested" {
                pool(sizes[0].max(1)).install(|| ds.par_iter().map(|d| count(&d.0, slow)).collect())
            } else {
                std::thread::scope(|s| {
                    let hs: Vec<_> = ds
                        .iter()
                        .enumerate()
                        .map(|(k, d)| {
                            let size = if one_pool { sizes[0] } else { sizes[k] };
                            s.spawn(move || pool(size).install(|| count(&d.0, slow)))
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap()).collect()
                })
            };
            DELAY.store(0, Relaxed);
            for (k, g) in results.into_iter().enumerate() {
                same(&exps[who[k]], &g?, &format!("caller {} of {} at once ({}, delays {}), {}", k, ds.len(), ctx.kind, mode, ds[k].1))?;
                ctx.obs.add("assemblies", 1);
            }
            ctx.obs.max("assemblies_at_once", ds.len() as f64);
            let (h, w) = observed(&mut ctx.obs);
            if w > 1 {
                ctx.nontrivial = Some(h);
            }
            ctx.sample = Some(format!("{} assemblies at once, {} workers logged", ds.len(), w));
        }
        _ => {
            let path = ctx.scratch_file("mesh.json");
            let (mesh, desc) = rand_mesh(
                &mut rng,
                &path,
                &BaseOpts { materials: Materials4::RandomReal, ..Default::default() },
                &HistOpts { max_elems: 40, max_ops: 5, max_depth: 6 },
                OrderMode::Mixed(3),
            )?;
            let d = domain_of(mesh)?;
            if d.dofs.is_empty() {
                return Ok(());
            }
            let asm = |size: usize| -> Res<GEP> {
                pool(size).install(|| lib("galerkin_sample_gep_hcurl", || galerkin_sample_gep_hcurl::<SlowPoly, CurlCurl, L2Inner>(&d, Some([5, 6]))))?.or_viol("galerkin_sample_gep_hcurl")
            };
            let one = asm(1)?;
            for size in [2usize, 8, 32] {
                DELAY.store(1 + rng.below(4) as u32, Relaxed);
                let g = asm(size);
                DELAY.store(0, Relaxed);
                let g = g?;
                for (name, x, y) in [("A", &one.a, &g.a), ("B", &one.b, &g.b)] {
                    let (x, y) = (c09::entries(x), c09::entries(y));
                    ensure!(x.len() == y.len() && x.keys().eq(y.keys()), "pattern", "pool of {}: {} has another pattern than with one worker; {}", size, name, desc);
                    for (k, v) in &x {
                        let s = (x[&[k[0], k[0]]] * x[&[k[1], k[1]]]).abs().sqrt();
                        let e = (v - y[k]).abs() / s.max(f64::MIN_POSITIVE);
                        ensure!(e <= 1e-12, "real-entry", "pool of {}: {}{:?} is {:e}, with one worker {:e}; {}", size, name, k, y[k], v, desc);
                        ctx.obs.max("difference_to_one_worker", e);
                    }
                }
                ctx.obs.add("assemblies", 1);
            }
            ctx.obs.add("real_problems", 1);
        }
    }
    Ok(())
}
