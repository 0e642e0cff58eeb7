//! Exported PETSc matrix files decode to exactly the same matrix.
use crate::gen::*;
use crate::util::*;
use crate::{Ctx, Kind, Prop};
use fem_2d::fem_problem::linalg::sparse_matrix::{AIJMatrixBinary, SparseMatrix};
use fem_2d::fem_problem::linalg::GEP;
use fem_2d::prelude::*;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C15",
    kinds: &[Kind::new("random", 15000, 300000), Kind::new("shapes", 4000, 60000), Kind::new("gep", 300, 6000), Kind::new("large", 8, 100), Kind::new("faults", 60, 600)],
    run,
    threads: 8,
    rule: "matrices with random and special patterns (empty, diagonal, arrow, dense, empty rows, banded) and values (zero, negative zero, subnormal, huge), written by each of the three export calls, read back by an independent decoder and compared bit for bit; assembled problems likewise; faults: full device, missing and unwritable places must give an error; non-trivial = at least one off-diagonal entry, distinct by file content",
    assumptions: &["PETSc binary format for AIJ matrices with 32-bit indices and 64-bit big-endian reals"],
};

pub fn decode(bytes: &[u8]) -> Res<(usize, BTreeMap<[usize; 2], u64>)> {
    let n_int = |k: usize| -> Res<i64> {
        let b = bytes.get(4 * k..4 * k + 4).ok_or_else(|| Violation { sig: "short-file".into(), msg: format!("file of {} bytes ends inside its header or index part", bytes.len()) })?;
        Ok(i32::from_be_bytes([b[0], b[1], b[2], b[3]]) as i64)
    };
    ensure!(n_int(0)? == 1211216, "header", "identifier is {}", n_int(0)?);
    let (rows, cols, nnz) = (n_int(1)?, n_int(2)?, n_int(3)?);
    ensure!(rows >= 0 && rows == cols && nnz >= 0, "header", "sizes {} x {}, {} entries", rows, cols, nnz);
    let (rows, nnz) = (rows as usize, nnz as usize);
    let want = 16 + 4 * rows + 12 * nnz;
    ensure!(bytes.len() == want, "length", "file of {} bytes, should be {} ({} rows, {} entries)", bytes.len(), want, rows, nnz);
    let mut m = BTreeMap::new();
    let mut k = 0usize;
    for r in 0..rows {
        let c = n_int(4 + r)?;
        ensure!(c >= 0 && k + c as usize <= nnz, "row-count", "row {} has {} entries", r, c);
        let mut last = -1i64;
        for _ in 0..c {
            let col = n_int(4 + rows + k)?;
            ensure!(col > last && (col as usize) < rows, "column-order", "row {}: column {} after {}", r, col, last);
            last = col;
            let o = 16 + 4 * rows + 4 * nnz + 8 * k;
            let v = u64::from_be_bytes(bytes[o..o + 8].try_into().unwrap());
            m.insert([r, col as usize], v);
            k += 1;
        }
    }
    ensure!(k == nnz, "row-count", "row counts add up to {}, {} entries", k, nnz);
    Ok((rows, m))
}

/// the full symmetric matrix as bits
pub fn full_bits(sm: &SparseMatrix) -> BTreeMap<[usize; 2], u64> {
    let mut m = BTreeMap::new();
    for ([r, c], v) in sm.iter_upper_tri() {
        m.insert([r, c], v.to_bits());
        m.insert([c, r], v.to_bits());
    }
    m
}

pub fn same_bits(dim: usize, full: &BTreeMap<[usize; 2], u64>, bytes: &[u8], what: &str) -> Res {
    let (rows, got) = decode(bytes).map_err(|v| Violation { sig: v.sig, msg: format!("{}: {}", what, v.msg) })?;
    ensure!(rows == dim, "header", "{}: {} rows, dimension {}", what, rows, dim);
    for (k, v) in full {
        match got.get(k) {
            None => return viol("missing-entry", format!("{}: no entry at {:?}", what, k)),
            Some(g) => ensure!(g == v, "value", "{}: {:?} holds {:e} ({:#x}), should be {:e} ({:#x})", what, k, f64::from_bits(*g), g, f64::from_bits(*v), v),
        }
    }
    if let Some(k) = got.keys().find(|k| !full.contains_key(*k)) {
        return viol("extra-entry", format!("{}: unexpected entry at {:?}", what, k));
    }
    Ok(())
}

pub fn value(rng: &mut Rng) -> f64 {
    match rng.below(12) {
        0 => 0.0,
        1 => -0.0,
        2 => f64::MIN_POSITIVE / (1u64 << rng.below(52)) as f64,
        3 => f64::MAX * rng.f(),
        4 => -f64::MAX * rng.f(),
        5 => rng.range(-5, 5) as f64,
        6 => f64::from_bits(rng.next() & !(0x7ffu64 << 52) | (1 + rng.below(0x7fe) as u64) << 52),
        _ => rng.gauss(),
    }
}

pub fn pattern(rng: &mut Rng, dim: usize) -> Vec<[usize; 2]> {
    let mut v = Vec::new();
    if dim == 0 {
        return v;
    }
    match rng.below(9) {
        0 => (),
        1 => v.extend((0..dim).map(|i| [i, i])),
        2 => v.extend((0..dim).flat_map(|i| [[i, i], [0, i]])),
        3 => v.extend((0..dim).flat_map(|i| [[i, i], [i, dim - 1]])),
        4 => v.extend((0..dim).flat_map(|i| (i..dim).map(move |j| [i, j]))),
        5 => v.extend((0..dim).flat_map(|i| [[i, i], [i, (i + 1).min(dim - 1)]])),
        6 => v.extend((0..dim).filter(|i| i % 3 == 0).map(|i| [i, dim - 1 - i])),
        7 => v.push([0, dim - 1]),
        _ => {
            for i in 0..dim {
                for j in i..dim {
                    if rng.chance(0.2) {
                        v.push([i, j]);
                    }
                }
            }
        }
    }
    v.dedup();
    rng.shuffle(&mut v);
    v
}

fn write_all(ctx: &mut Ctx, sm: &SparseMatrix, what: &str) -> Res {
    let dim = sm.dimension;
    let full = full_bits(sm);
    let f1 = ctx.scratch_file("direct.dat");
    lib("write_to_petsc_binary_format", || sm.write_to_petsc_binary_format(&f1))?.or_viol("write_to_petsc_binary_format")?;
    let b1 = std::fs::read(&f1).unwrap_or_default();
    let _ = std::fs::remove_file(&f1);
    same_bits(dim, &full, &b1, &format!("{} through write_to_petsc_binary_format", what))?;
    let aij: AIJMatrixBinary = lib("AIJMatrixBinary::from", || sm.clone().into())?;
    ensure!(aij.dim == dim && aij.i.len() == dim && aij.a.len() == full.len() && aij.j.len() == full.len(), "aij", "{}: AIJ form has dim {}, {} rows, {} values, {} columns", what, aij.dim, aij.i.len(), aij.a.len(), aij.j.len());
    let f2 = ctx.scratch_file("aij.dat");
    // an older, longer file of the same name is replaced
    std::fs::write(&f2, vec![7u8; 64]).unwrap();
    lib("print_to_petsc_binary_file", || aij.print_to_petsc_binary_file(&f2))?.or_viol("print_to_petsc_binary_file")?;
    let b2 = std::fs::read(&f2).unwrap_or_default();
    let _ = std::fs::remove_file(&f2);
    same_bits(dim, &full, &b2, &format!("{} through the AIJ form", what))?;
    ctx.obs.add("files_decoded", 2);
    ctx.obs.add("entries_compared", 2 * full.len() as u64);
    ctx.obs.add("bytes", (b1.len() + b2.len()) as u64);
    if full.keys().any(|k| k[0] != k[1]) {
        ctx.nontrivial = Some(fnv(&b1));
    }
    Ok(())
}

fn write_gep(ctx: &mut Ctx, g: GEP, what: &str) -> Res {
    let dir = ctx.scratch_file("gep");
    std::fs::create_dir_all(format!("{}/tmp", dir)).unwrap();
    let (fa, fb) = (full_bits(&g.a), full_bits(&g.b));
    let (da, db) = (g.a.dimension, g.b.dimension);
    let prefix = "p_1.x";
    lib("print_to_petsc_binary_files", || g.print_to_petsc_binary_files(&dir, prefix))?.or_viol("print_to_petsc_binary_files")?;
    let names: Vec<String> = std::fs::read_dir(format!("{}/tmp", dir)).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().to_string()).collect();
    let a = std::fs::read(format!("{}/tmp/{}_a.dat", dir, prefix)).unwrap_or_default();
    let b = std::fs::read(format!("{}/tmp/{}_b.dat", dir, prefix)).unwrap_or_default();
    let _ = std::fs::remove_dir_all(&dir);
    ensure!(names.len() == 2, "files", "{}: files written {:?}", what, names);
    same_bits(da, &fa, &a, &format!("{}, first matrix", what))?;
    same_bits(db, &fb, &b, &format!("{}, second matrix", what))?;
    ctx.obs.add("files_decoded", 2);
    ctx.obs.add("entries_compared", (fa.len() + fb.len()) as u64);
    ctx.nontrivial = Some(fnv(&a) ^ fnv(&b).rotate_left(7));
    Ok(())
}

fn run(ctx: &mut Ctx) -> Res {
    let mut rng = ctx.rng.clone();
    match ctx.kind {
        "random" | "shapes" => {
            let dim = if ctx.kind == "random" { rng.below(12) } else { *rng.pick(&[0usize, 1, 2, 13, 64, 100, 255, 256, 257, 700]) };
            let mut sm = SparseMatrix::new(dim);
            let pat = if dim > 100 && rng.chance(0.8) {
                (0..rng.below(400)).map(|_| [rng.below(dim), if rng.chance(0.2) { dim - 1 } else { rng.below(dim) }]).collect()
            } else {
                pattern(&mut rng, dim)
            };
            for ix in pat {
                let ix = if rng.chance(0.5) { [ix[1], ix[0]] } else { ix };
                sm.insert(ix, value(&mut rng));
            }
            let what = format!("matrix of dimension {} with {} entries", dim, sm.num_entries());
            write_all(ctx, &sm, &what)?;
            if rng.chance(0.3) {
                let mut b = SparseMatrix::new(dim);
                for ix in pattern(&mut rng, dim.min(40)) {
                    b.insert(ix, value(&mut rng));
                }
                write_gep(ctx, GEP { a: sm, b }, &what)?;
            }
            ctx.sample = Some(what);
        }
        "gep" => {
            let path = ctx.scratch_file("mesh.json");
            let (mesh, desc) = rand_mesh(&mut rng, &path, &BaseOpts::default(), &HistOpts { max_elems: 20, max_ops: 3, max_depth: 4 }, OrderMode::Mixed(3))?;
            let d = domain_of(mesh)?;
            if d.dofs.is_empty() {
                return Ok(());
            }
            let g = lib("galerkin_sample_gep_hcurl", || galerkin_sample_gep_hcurl::<HierPoly, CurlCurl, L2Inner>(&d, None))?.or_viol("galerkin_sample_gep_hcurl")?;
            write_gep(ctx, g, &desc)?;
            ctx.sample = Some(desc);
        }
        "large" => {
            let dim = 20000 + rng.below(400000);
            let mut sm = SparseMatrix::new(dim);
            for _ in 0..3000 + rng.below(30000) {
                let r = rng.below(dim);
                let c = match rng.below(4) {
                    0 => dim - 1,
                    1 => r,
                    _ => rng.below(dim),
                };
                sm.insert([r, c], value(&mut rng));
            }
            if ctx.idx % 4 == 1 {
                // one index paired with very many others
                let r = *rng.pick(&[0, dim - 1, dim / 2]);
                let n = dim.min(60000 + rng.below(60000));
                for k in 0..n {
                    sm.insert([r, k * (dim / n)], value(&mut rng));
                }
                ctx.obs.max("longest_row", n as f64);
            }
            ctx.obs.max("dimension", dim as f64);
            let what = format!("matrix of dimension {} with {} entries", dim, sm.num_entries());
            write_all(ctx, &sm, &what)?;
            ctx.sample = Some(what);
        }
        _ => {
            let dim = 1 + rng.below(400);
            let mut sm = SparseMatrix::new(dim);
            for _ in 0..rng.below(3000) {
                sm.insert([rng.below(dim), rng.below(dim)], value(&mut rng));
            }
            let missing = ctx.scratch_file("no_such_dir");
            for p in ["/dev/full".to_string(), format!("{}/x.dat", missing), ctx.scratch.to_str().unwrap().to_string()] {
                let r = lib("write_to_petsc_binary_format", || sm.write_to_petsc_binary_format(&p))?;
                ensure!(r.is_err(), "lost-error", "writing to {} is reported as a success", p);
                let aij: AIJMatrixBinary = sm.clone().into();
                let r = lib("print_to_petsc_binary_file", || aij.print_to_petsc_binary_file(&p))?;
                ensure!(r.is_err(), "lost-error", "writing the AIJ form to {} is reported as a success", p);
            }
            let g = GEP { a: sm.clone(), b: sm };
            let r = lib("print_to_petsc_binary_files", || g.print_to_petsc_binary_files(&missing, "p"))?;
            ensure!(r.is_err(), "lost-error", "writing into a missing directory is reported as a success");
            ctx.obs.add("write_faults", 7);
            ctx.nontrivial = Some(ctx.idx);
            ctx.sample = Some(format!("dimension {}: full device, missing directory, directory as file", dim));
        }
    }
    Ok(())
}
