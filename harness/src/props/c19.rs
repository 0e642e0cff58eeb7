//! VTK export is well formed and shows every field value at its own location.
use super::c18::{para, rand_coefs, Reference};
use crate::gen::*;
use crate::util::*;
use crate::vtk::*;
use crate::{Ctx, Kind, Prop};
use fem_2d::fem_domain::domain::fields::{UniformFieldError, UniformFieldSpace};
use fem_2d::prelude::*;
use std::collections::BTreeSet;

pub const PROP: Prop = Prop {
    id: "C19",
    kinds: &[Kind::new("files", 13000, 350000), Kind::new("dense", 900, 24000), Kind::new("refused", 2500, 60000), Kind::new("huge", 4, 80)],
    run,
    threads: 8,
    rule: "random hp-meshes, sampling densities from 2 to 9 (dense: up to 40) per direction, huge: files of more than 65 536 points, random sets of fields and derived quantities exported together; every file is read by an independent strict parser: counts, grids, cells, corner order, tiling, names, and every value against the closed form of the field at the printed location; refused: unknown names (no file may be created or changed), missing directories, a full device; non-trivial = unequal densities on a refined mesh, distinct by mesh and densities",
    assumptions: &["at least two points per direction", "names without white space", "values are printed with 15, coordinates with 10 decimals"],
};

fn check_cells(v: &Vtk, grid: &Grid, dens: [usize; 2], desc: &str) -> Res {
    // where a point lies
    let mut place = vec![(usize::MAX, 0, 0); v.points.len()];
    for (leaf, g) in grid {
        for (m, row) in g.iter().enumerate() {
            for (n, p) in row.iter().enumerate() {
                place[*p] = (*leaf, m, n);
            }
        }
    }
    let mut seen = BTreeSet::new();
    for (k, c) in v.cells.iter().enumerate() {
        ensure!(v.types[k] == 9, "vtk-cells", "{}: cell {} has type {} and not 9 (quadrilateral)", desc, k, v.types[k]);
        ensure!(c.len() == 4, "vtk-cells", "{}: cell {} has {} corners", desc, k, c.len());
        let p: Vec<(usize, usize, usize)> = c.iter().map(|i| place[*i]).collect();
        ensure!(p.iter().all(|x| x.0 == p[0].0), "vtk-cells", "{}: cell {} {:?} joins points of different elements", desc, k, c);
        let (m, n) = (p.iter().map(|x| x.1).min().unwrap(), p.iter().map(|x| x.2).min().unwrap());
        // corners (0,0) (1,0) (1,1) (0,1) in circular order, from any of them, either way round
        let ring: Vec<usize> = p
            .iter()
            .map(|x| match (x.1 - m, x.2 - n) {
                (0, 0) => 0,
                (1, 0) => 1,
                (1, 1) => 2,
                (0, 1) => 3,
                _ => 9,
            })
            .collect();
        let step = (ring[1] + 4 - ring[0]) % 4;
        let circular = ring.iter().all(|r| *r < 4) && (step == 1 || step == 3) && (0..4).all(|i| ring[(i + 1) % 4] == (ring[i] + step) % 4);
        ensure!(circular, "vtk-cells", "{}: corners of cell {} are grid places {:?} of element {}", desc, k, p.iter().map(|x| (x.1, x.2)).collect::<Vec<_>>(), p[0].0);
        ensure!(seen.insert((p[0].0, m, n)), "vtk-cells", "{}: grid cell ({}, {}) of element {} appears twice", desc, m, n, p[0].0);
    }
    let want = grid.len() * (dens[0] - 1) * (dens[1] - 1);
    ensure!(seen.len() == want, "vtk-cells", "{}: {} of {} grid cells present", desc, seen.len(), want);
    Ok(())
}

fn run(ctx: &mut Ctx) -> Res {
    let path = ctx.scratch_file("mesh.json");
    let mut rng = ctx.rng.clone();
    let (ho, cap) = match ctx.kind {
        "dense" => (HistOpts { max_elems: 6, max_ops: 2, max_depth: 3 }, 39),
        "huge" => (HistOpts { max_elems: if ctx.idx % 2 == 0 { 10 } else { 1500 }, max_ops: 6, max_depth: 5 }, 8),
        "refused" => (HistOpts { max_elems: 8, max_ops: 2, max_depth: 3 }, 4),
        _ => (HistOpts { max_elems: 40, max_ops: 6, max_depth: 7 }, 8),
    };
    let (mesh, desc) = rand_mesh(&mut rng, &path, &BaseOpts { max_elems: 5, ..Default::default() }, &ho, OrderMode::Mixed(4))?;
    let d = domain_of(mesh)?;
    let n = d.dofs.len();
    let dens = match ctx.kind {
        // more than 65 536 points
        "huge" => {
            let k = 1 + (80_000.0 / d.mesh.elems.iter().filter(|e| !e.has_children()).count() as f64).sqrt() as usize;
            [k + rng.below(k / 2 + 1), k + rng.below(k / 2 + 1)]
        }
        _ => [2 + rng.below(cap), 2 + rng.below(cap)],
    };
    let desc = format!("{} | grid {:?}", desc, dens);
    let out = ctx.scratch_file("f.vtk");
    let mut ufs = lib("UniformFieldSpace::new", || UniformFieldSpace::new(&d, dens))?;
    // quantities: name, coefficient vector, component, derived as 2 * q - 1
    let mut have: Vec<(String, Vec<f64>, usize, bool)> = Vec::new();
    for f in ["one", "two", "three"].iter().take(if ctx.kind == "huge" { 1 } else { rng.below(4) }) {
        let c = if n == 0 { vec![] } else { rand_coefs(&mut rng, n) };
        let names = lib("xy_fields", || ufs.xy_fields::<HierPoly>(f, c.clone()))?.or_viol("xy_fields")?;
        for (k, name) in names.iter().enumerate() {
            have.push((name.clone(), c.clone(), k, false));
            if rng.chance(0.3) {
                let r = format!("{}{}d", f, k);
                lib("map_to_quantity", || ufs.map_to_quantity(name, &r, |x| 2.0 * x - 1.0))?.or_viol("map_to_quantity")?;
                have.push((r, c.clone(), k, true));
            }
        }
    }
    if ctx.kind == "refused" {
        return refused(ctx, &mut rng, &ufs, &have, &out, &desc);
    }
    let all = rng.chance(0.4);
    let mut wanted: Vec<usize> = (0..have.len()).filter(|_| all || rng.chance(0.6)).collect();
    rng.shuffle(&mut wanted);
    let names: Vec<String> = wanted.iter().map(|k| have[*k].0.clone()).collect();
    let _ = std::fs::remove_file(&out);
    if rng.chance(0.3) {
        // an older, longer file in the same place
        std::fs::write(&out, "old contents\n".repeat(200_000 / 13)).unwrap();
    }
    let r = lib("exporting", || if all { ufs.print_all_to_vtk(&out) } else { ufs.print_quantities_to_vkt(&out, names.clone()) })?;
    ensure!(r.is_ok(), "unexpected-error", "{}: exporting failed: {}", desc, r.err().unwrap());
    let text = std::fs::read_to_string(&out).map_err(|e| Violation { sig: "vtk-format".into(), msg: format!("{}: {}", desc, e) })?;
    let _ = std::fs::remove_file(&out);
    let v = parse(&text).map_err(|e| Violation { sig: e.sig, msg: format!("{}: {}", desc, e.msg) })?;
    let grid = locate(&v, &d.mesh, dens).map_err(|e| Violation { sig: e.sig, msg: format!("{}: {}", desc, e.msg) })?;
    check_cells(&v, &grid, dens, &desc)?;
    let mut got: Vec<String> = v.scalars.iter().map(|s| s.0.clone()).collect();
    if all {
        got.sort();
        let mut w = names.clone();
        w.sort();
        ensure!(got == w, "vtk-quantities", "{}: file has quantities {:?}, the space {:?}", desc, got, w);
    } else {
        got.sort();
        let mut w = names.clone();
        w.sort();
        ensure!(got == w, "vtk-quantities", "{}: file has quantities {:?}, requested {:?}", desc, got, w);
    }
    let reference = Reference::new(&d);
    for k in &wanted {
        let (name, c, comp, der) = &have[*k];
        let col = column(&v, name)?;
        for (leaf, g) in &grid {
            for m in 0..dens[0] {
                for q in 0..dens[1] {
                    // thin out the large grids
                    if ctx.kind == "dense" && (m * 7 + q * 3) % 11 != 0 || ctx.kind == "huge" && (m * 7 + q * 3 + leaf) % 53 != 0 {
                        continue;
                    }
                    let (val, size, _, cond) = reference.at(*leaf, para(m, dens[0]), para(q, dens[1]), c);
                    let want = if *der { 2.0 * val[*comp] - 1.0 } else { val[*comp] };
                    let gotv = col[g[m][q]];
                    let tol = 2.0 * (1e-12 + 10.0 * cond) * size[*comp] + 1e-14 + 1e-15 * want.abs();
                    ensure!(
                        (gotv - want).abs() <= tol,
                        "vtk-values",
                        "{}: {} at {:?} (grid place [{}, {}] of element {}) is {:e}, should be {:e}",
                        desc, name, v.points[g[m][q]], m, q, leaf, gotv, want
                    );
                    ctx.obs.add("values_compared", 1);
                }
            }
        }
    }
    ctx.obs.add("files", 1);
    ctx.obs.add("cells", v.cells.len() as u64);
    ctx.obs.add("points", v.points.len() as u64);
    ctx.obs.add("quantities", v.scalars.len() as u64);
    if dens[0] != dens[1] && d.mesh.elems.iter().any(|e| e.has_children()) {
        ctx.nontrivial = Some(fnv(desc.as_bytes()));
    }
    ctx.sample = Some(format!("{} | {} points, {} cells, {} quantities", desc, v.points.len(), v.cells.len(), v.scalars.len()));
    Ok(())
}

fn refused(ctx: &mut Ctx, rng: &mut Rng, ufs: &UniformFieldSpace, have: &[(String, Vec<f64>, usize, bool)], out: &str, desc: &str) -> Res {
    let names: Vec<String> = have.iter().map(|h| h.0.clone()).collect();
    let _ = std::fs::remove_file(out);
    // an unknown name, anywhere in the list
    let mut bad = names.clone();
    bad.retain(|_| rng.chance(0.7));
    bad.insert(rng.below(bad.len() + 1), if rng.chance(0.5) { "unknown".into() } else { "One_x".into() });
    let exists = rng.chance(0.5);
    if exists {
        std::fs::write(out, "keep me").unwrap();
    }
    let r = lib("print_quantities_to_vkt", || ufs.print_quantities_to_vkt(out, bad.clone()))?;
    match r {
        Ok(()) => return viol("missing-error", format!("{}: exporting {:?} succeeded", desc, bad)),
        Err(e) => ensure!(
            matches!(e.downcast_ref::<UniformFieldError>(), Some(UniformFieldError::MissingQuantity(q)) if bad.contains(q) && !names.contains(q)),
            "wrong-error",
            "{}: exporting {:?} gave {:?}",
            desc, bad, e
        ),
    }
    if exists {
        ensure!(std::fs::read(out).ok().as_deref() == Some(b"keep me"), "touched-file", "{}: a refused export changed the file", desc);
    } else {
        ensure!(!std::path::Path::new(out).exists(), "touched-file", "{}: a refused export created the file", desc);
    }
    let _ = std::fs::remove_file(out);
    // a directory that does not exist
    let r = lib("print_quantities_to_vkt", || ufs.print_quantities_to_vkt(format!("{}_no/such/dir.vtk", out), names.clone()))?;
    ensure!(r.is_err(), "missing-error", "{}: exporting into a missing directory succeeded", desc);
    // a device without space
    let r = lib("print_all_to_vtk", || ufs.print_all_to_vtk("/dev/full"))?;
    ensure!(r.is_err(), "missing-error", "{}: exporting to a full device succeeded", desc);
    // and the good ones still work
    let v = export(ufs, &names, out)?;
    ensure!(v.scalars.len() == names.len(), "vtk-quantities", "{}: {} quantities for {:?}", desc, v.scalars.len(), names);
    ctx.obs.add("refused_exports", 3);
    if !names.is_empty() {
        ctx.nontrivial = Some(fnv(format!("{} {:?}", desc, bad).as_bytes()));
    }
    ctx.sample = Some(format!("names {:?} requested {:?}", names, bad));
    Ok(())
}
