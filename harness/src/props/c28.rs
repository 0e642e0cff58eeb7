//! The same requests always give the same result, whatever else the process does; clones are independent.
use super::c09::assemble;
use crate::gen::*;
use crate::structure::*;
use crate::util::*;
use crate::vtk::*;
use crate::{Ctx, Kind, Prop};
use fem_2d::fem_domain::domain::fields::UniformFieldSpace;
use fem_2d::prelude::*;
use std::collections::BTreeMap;
use std::sync::Barrier;

pub const PROP: Prop = Prop {
    id: "C28",
    kinds: &[Kind::new("again", 1500, 40000), Kind::new("together", 250, 7000), Kind::new("fresh", 300, 8000), Kind::new("clones", 6000, 150000)],
    run,
    threads: 4,
    rule: "whole stories (load, valid and refused refinements and orders, export, domain, assembly, fields) told twice in one process with other stories in between, in a long-running and in a new process, or by several threads at once among others; all ids, lists, orders, answers and exported mesh files must be the same, matrices and fields equal up to rounding; clones: random requests spread over clones of one mesh, each must end as a mesh that only ever saw its own requests; non-trivial = a refined mesh whose domain was assembled, or clones with different histories, distinct by transcript",
    assumptions: &["the order of quantities in a VTK file with several of them is free"],
};

struct Transcript {
    /// must be repeated exactly
    exact: Vec<String>,
    /// places and values that must be repeated up to rounding, with the size they are measured by
    matrices: [BTreeMap<[usize; 2], f64>; 2],
    fields: [Vec<f64>; 2],
    assembled: bool,
}

/// a request that is refused, or not, on a random part of the mesh
fn hostile(rng: &mut Rng, mesh: &mut Mesh) -> Res<String> {
    let n = mesh.elems.len();
    Ok(match rng.below(4) {
        0 => {
            let l: Vec<(usize, HRef)> = (0..1 + rng.below(3)).map(|_| (rng.below(n + 1), rand_href(rng))).collect();
            format!("{:?}", lib("execute_h_refinements", || mesh.execute_h_refinements(l.clone()))?)
        }
        1 => {
            let l: Vec<usize> = (0..1 + rng.below(3)).map(|_| rng.below(n + 1)).collect();
            let p = PRef::from(rng.range(-3, 4) as i8, rng.range(-3, 4) as i8);
            format!("{:?}", lib("p_refine_elems", || mesh.p_refine_elems(l.clone(), p))?)
        }
        2 => {
            let l: Vec<(usize, Orders)> = (0..1 + rng.below(4)).map(|_| (rng.below(n), Orders::new(1 + rng.below(3) as u8, 1 + rng.below(3) as u8))).collect();
            format!("{:?}", lib("set_expansion_orders", || mesh.set_expansion_orders(l.clone()))?)
        }
        _ => {
            let (a, b) = (rng.below(n), rng.below(n + 2));
            format!(
                "{:?} {:?} {:?}",
                lib("descendant_elems", || mesh.descendant_elems(a, rng.chance(0.5)))?.ok(),
                lib("ancestor_elems", || mesh.ancestor_elems(a, true))?.ok(),
                lib("elem_is_h_refineable", || mesh.elem_is_h_refineable(b).ok())?
            )
        }
    })
}

/// everything that follows from one random number generator
fn story(mut rng: Rng, dir: &str) -> Res<Transcript> {
    let path = format!("{}_story.json", dir);
    let mut t = Transcript { exact: vec![], matrices: Default::default(), fields: Default::default(), assembled: false };
    let bo = BaseOpts { max_elems: 4, materials: *rng.pick(&[Materials4::Unit, Materials4::RandomReal]), ..Default::default() };
    let (mut mesh, desc) = rand_mesh(&mut rng, &path, &bo, &HistOpts { max_elems: 24, max_ops: 4, max_depth: 5 }, OrderMode::Mixed(3))?;
    t.exact.push(desc);
    for _ in 0..rng.below(4) {
        let s = hostile(&mut rng, &mut mesh)?;
        t.exact.push(s);
    }
    t.exact.extend(snapshot(&mesh, true));
    if rng.chance(0.5) {
        let out = format!("{}_out.json", dir);
        lib("export_to_json", || mesh.export_to_json(&out))?.or_viol("export_to_json")?;
        t.exact.push(std::fs::read_to_string(&out).or_viol("exported mesh file")?);
        let _ = std::fs::remove_file(&out);
    }
    let d = domain_of(mesh)?;
    t.exact.extend(snapshot(&d.mesh, true));
    for l in &d.basis_specs {
        t.exact.push(format!("{:?}", l));
    }
    for f in &d.dofs {
        t.exact.push(format!("dof {} {:?}", f.id, f.get_basis_specs()));
    }
    let n = d.dofs.len();
    if n == 0 || n > 400 {
        return Ok(t);
    }
    let g = assemble(&d, None)?;
    t.exact.push(format!("dimensions {} {}", g.a.dimension, g.b.dimension));
    t.matrices = [g.a.iter_upper_tri().collect(), g.b.iter_upper_tri().collect()];
    let c: Vec<f64> = (0..n).map(|_| rng.uni(-1.0, 1.0)).collect();
    let dens = [2 + rng.below(4), 2 + rng.below(4)];
    let mut ufs = lib("UniformFieldSpace::new", || UniformFieldSpace::new(&d, dens))?;
    let names = lib("xy_fields", || ufs.xy_fields::<HierPoly>("f", c.clone()))?.or_viol("xy_fields")?;
    t.exact.push(format!("{:?} {:?}", names, dens));
    let out = format!("{}_f.vtk", dir);
    for k in 0..2 {
        let v = export(&ufs, &names[k..k + 1], &out)?;
        t.fields[k] = column(&v, &names[k])?.to_vec();
    }
    let _ = std::fs::remove_file(&out);
    t.assembled = true;
    Ok(t)
}

fn same(a: &Transcript, b: &Transcript, what: &str, obs: &mut Obs) -> Res {
    ensure!(a.exact.len() == b.exact.len(), "repetition", "{}: {} items the first time, {} the second", what, a.exact.len(), b.exact.len());
    for (x, y) in a.exact.iter().zip(&b.exact) {
        ensure!(x == y, "repetition", "{}: `{}` the first time, `{}` the second", what, x, y);
        obs.add("items_compared", 1);
    }
    for k in 0..2 {
        let (m, w) = (&a.matrices[k], &b.matrices[k]);
        let diag = |i: usize| a.matrices[1].get(&[i, i]).copied().unwrap_or(0.0).abs().sqrt().max(m.get(&[i, i]).copied().unwrap_or(0.0).abs().sqrt());
        for i in m.keys().chain(w.keys()) {
            let (x, y) = (m.get(i).copied().unwrap_or(0.0), w.get(i).copied().unwrap_or(0.0));
            ensure!((x - y).abs() <= 1e-10 * diag(i[0]) * diag(i[1]), "repetition:matrix", "{}: entry {:?} of matrix {} is {:e} the first time, {:e} the second", what, i, k, x, y);
            obs.add("entries_compared", 1);
        }
        let (f, g) = (&a.fields[k], &b.fields[k]);
        let top = f.iter().fold(0.0f64, |m, x| m.max(x.abs()));
        ensure!(f.len() == g.len(), "repetition:field", "{}: {} and {} field values", what, f.len(), g.len());
        for (x, y) in f.iter().zip(g) {
            ensure!((x - y).abs() <= 1e-9 * top, "repetition:field", "{}: field value {:e} the first time, {:e} the second", what, x, y);
            obs.add("values_compared", 1);
        }
    }
    Ok(())
}

impl Transcript {
    /// a form that another process can hand over
    fn write(&self, path: &str) -> std::io::Result<()> {
        use std::fmt::Write;
        let mut s = format!("{}\n", self.assembled);
        let _ = writeln!(s, "{}", self.exact.len());
        for x in &self.exact {
            let _ = writeln!(s, "{}", x.replace('\n', "\u{1}"));
        }
        for m in &self.matrices {
            let _ = writeln!(s, "{}", m.len());
            for (k, v) in m {
                let _ = writeln!(s, "{} {} {:x}", k[0], k[1], v.to_bits());
            }
        }
        for f in &self.fields {
            let _ = writeln!(s, "{}", f.len());
            for v in f {
                let _ = writeln!(s, "{:x}", v.to_bits());
            }
        }
        std::fs::write(path, s)
    }
    fn read(path: &str) -> Option<Self> {
        let s = std::fs::read_to_string(path).ok()?;
        let mut l = s.lines();
        let mut t = Transcript { exact: vec![], matrices: Default::default(), fields: Default::default(), assembled: l.next()? == "true" };
        let n: usize = l.next()?.parse().ok()?;
        for _ in 0..n {
            t.exact.push(l.next()?.replace('\u{1}', "\n"));
        }
        for k in 0..2 {
            let n: usize = l.next()?.parse().ok()?;
            for _ in 0..n {
                let w: Vec<&str> = l.next()?.split(' ').collect();
                t.matrices[k].insert([w[0].parse().ok()?, w[1].parse().ok()?], f64::from_bits(u64::from_str_radix(w[2], 16).ok()?));
            }
        }
        for k in 0..2 {
            let n: usize = l.next()?.parse().ok()?;
            for _ in 0..n {
                t.fields[k].push(f64::from_bits(u64::from_str_radix(l.next()?, 16).ok()?));
            }
        }
        Some(t)
    }
}

/// entry point of a process that tells one story and nothing else
pub fn tell_one(seed: u64, dir: &str) -> ! {
    crate::util::install_panic_hook();
    let ok = match story(Rng::new(&[seed, 3]), dir) {
        Ok(t) => t.write(&format!("{}_t", dir)).is_ok(),
        Err(e) => {
            eprintln!("{}", e.msg);
            false
        }
    };
    std::process::exit(if ok { 0 } else { 3 })
}

fn hash(t: &Transcript) -> u64 {
    snap_hash(&t.exact)
}

fn run(ctx: &mut Ctx) -> Res {
    let mut rng = ctx.rng.clone();
    let dir = ctx.scratch_file("s");
    match ctx.kind {
        "again" => {
            let seed = rng.next();
            let first = story(Rng::new(&[seed, 1]), &dir)?;
            let others = rng.below(3);
            for k in 0..others {
                // another story, or the same beginning with other decisions
                story(Rng::new(&[rng.next(), k as u64]), &dir)?;
            }
            let again = story(Rng::new(&[seed, 1]), &dir)?;
            let what = format!("{} with {} other stories in between", first.exact[0], others);
            same(&first, &again, &what, &mut ctx.obs)?;
            ctx.obs.add("stories", 2 + others as u64);
            if first.assembled {
                ctx.nontrivial = Some(hash(&first));
            }
            ctx.sample = Some(what);
        }
        "fresh" => {
            let seed = rng.next();
            for k in 0..rng.below(3) {
                story(Rng::new(&[rng.next(), k as u64]), &dir)?;
            }
            let here = story(Rng::new(&[seed, 3]), &dir)?;
            let exe = std::env::current_exe().or_viol("path of the harness")?;
            let there = format!("{}_fresh", dir);
            let out = std::process::Command::new(exe).args(["--story", &seed.to_string(), &there]).output().or_viol("process")?;
            ensure!(out.status.success(), "repetition", "{}: told in a new process: {:?} {}", here.exact[0], out.status, String::from_utf8_lossy(&out.stderr));
            let t = match Transcript::read(&format!("{}_t", there)) {
                Some(t) => t,
                None => return viol("repetition", "the transcript of the other process could not be read"),
            };
            let _ = std::fs::remove_file(format!("{}_t", there));
            let what = format!("{} in this process and in a new one", here.exact[0]);
            same(&here, &t, &what, &mut ctx.obs)?;
            ctx.obs.add("processes", 1);
            if here.assembled {
                ctx.nontrivial = Some(hash(&here));
            }
            ctx.sample = Some(what);
        }
        "together" => {
            let seeds: Vec<u64> = (0..2 + rng.below(2)).map(|_| rng.next()).collect();
            let alone: Vec<Transcript> = seeds.iter().map(|s| story(Rng::new(&[*s, 2]), &dir)).collect::<Res<_>>()?;
            let n = 4 + rng.below(4);
            let start = Barrier::new(n);
            let got: Vec<std::thread::Result<Res<Transcript>>> = std::thread::scope(|sc| {
                let hs: Vec<_> = (0..n)
                    .map(|k| {
                        let (seed, start, dir) = (seeds[k % seeds.len()], &start, format!("{}_{}", dir, k));
                        sc.spawn(move || {
                            start.wait();
                            story(Rng::new(&[seed, 2]), &dir)
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join()).collect()
            });
            for (k, g) in got.into_iter().enumerate() {
                let g = match g {
                    Ok(g) => g?,
                    Err(_) => return viol("repetition", "a story failed when told together with others"),
                };
                let a = &alone[k % seeds.len()];
                same(a, &g, &format!("{} alone and among {} threads", a.exact[0], n), &mut ctx.obs)?;
            }
            ctx.obs.add("stories", (n + seeds.len()) as u64);
            ctx.nontrivial = Some(hash(&alone[0]));
            ctx.sample = Some(format!("{} threads telling {} stories", n, seeds.len()));
        }
        _ => {
            let path = ctx.scratch_file("mesh.json");
            let (base, desc) = rand_mesh(&mut rng, &path, &BaseOpts { max_elems: 4, ..Default::default() }, &HistOpts { max_elems: 30, max_ops: 3, max_depth: 5 }, OrderMode::Mixed(4))?;
            // every clone has its own requests, decided by its own generator and its own state
            let n = 2 + rng.below(3);
            let seeds: Vec<u64> = (0..n).map(|_| rng.next()).collect();
            let mut clones: Vec<(Mesh, Rng, Vec<String>)> = Vec::new();
            let mut alone: Vec<(Mesh, Rng, Vec<String>)> = Vec::new();
            let untouched = snapshot(&base, true);
            for s in &seeds {
                alone.push((base.clone(), Rng::new(&[*s]), vec![]));
            }
            let rounds = 1 + rng.below(4);
            let step = |x: &mut (Mesh, Rng, Vec<String>)| -> Res {
                if x.0.elems.len() < 80 && x.1.chance(0.6) {
                    let l = refine_history(&mut x.1, &mut x.0, &HistOpts { max_elems: 60, max_ops: 2, max_depth: 6 })?;
                    x.2.push(l);
                } else {
                    let l = hostile(&mut x.1, &mut x.0)?;
                    x.2.push(l);
                }
                Ok(())
            };
            // one after the other
            for a in alone.iter_mut() {
                for _ in 0..rounds {
                    step(a)?;
                }
            }
            same_snapshot(&untouched, &snapshot(&base, true), "clone", &format!("{}: the original, after requests to its clones", desc))?;
            // interleaved, starting from clones of clones
            for s in &seeds {
                let from = match clones.last() {
                    Some(c) => c.0.clone(),
                    None => base.clone(),
                };
                clones.push((from, Rng::new(&[*s]), vec![]));
            }
            for _ in 0..rounds {
                for c in clones.iter_mut() {
                    step(c)?;
                }
            }
            // a domain takes one of them over
            if n > 2 {
                let d = domain_of(clones[0].0.clone())?;
                drop(d);
            }
            let mut ends = Vec::new();
            for (a, c) in alone.iter().zip(&clones) {
                ensure!(a.2 == c.2, "clone", "{}: requests {:?} on one clone, {:?} on another", desc, a.2, c.2);
                let s = snapshot(&a.0, true);
                same_snapshot(&s, &snapshot(&c.0, true), "clone", &format!("{} then {:?}", desc, a.2))?;
                ends.push(snap_hash(&s));
            }
            ctx.obs.add("clones", 2 * n as u64);
            ends.sort();
            ends.dedup();
            if ends.len() > 1 {
                ctx.nontrivial = Some(ends[0] ^ fnv(desc.as_bytes()));
            }
            ctx.sample = Some(format!("{} | {} clones, {} rounds", desc, n, rounds));
        }
    }
    Ok(())
}
