//! Symmetric sparse matrix accumulates, merges and converts exactly.
use crate::util::*;
use crate::{Ctx, Kind, Prop};
use fem_2d::fem_problem::linalg::sparse_matrix::SparseMatrix;
use fem_2d::fem_problem::linalg::GEP;
use nalgebra::DMatrix;
use rayon::prelude::*;
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C14",
    kinds: &[Kind::new("exact", 40000, 1000000), Kind::new("float", 20000, 500000), Kind::new("group", 8000, 200000), Kind::new("limits", 200, 2000)],
    run,
    threads: 8,
    rule: "random sequences of insert, insert_group, consume_matrix, clone and refused operations over several matrices, mirrored by a plain map from unordered pairs to sums and compared completely after every few steps; exact: values are small dyadic numbers and compared exactly; float: any finite values, compared within the rounding of a sum; group: many sub-matrices merged through the parallel extension; limits: largest dimensions and indices; non-trivial = at least one pair accumulated more than once, distinct by final content",
    assumptions: &["no claim about NaN or infinite values"],
};

/// sum, sum of magnitudes, number of insertions
pub type Model = BTreeMap<[usize; 2], (f64, f64, u32)>;

fn put(m: &mut Model, [r, c]: [usize; 2], v: f64) {
    let e = m.entry([r.min(c), r.max(c)]).or_insert((0.0, 0.0, 0));
    e.0 += v;
    e.1 += v.abs();
    e.2 += 1;
}

fn merge(m: &mut Model, o: &mut Model) {
    for (k, v) in std::mem::take(o) {
        let e = m.entry(k).or_insert((0.0, 0.0, 0));
        e.0 += v.0;
        e.1 += v.1;
        e.2 += v.2;
    }
}

fn same(m: &Model, sm: &SparseMatrix, dim: usize, exact: bool, what: &str) -> Res {
    ensure!(sm.dimension == dim, "dimension", "{}: dimension {} instead of {}", what, sm.dimension, dim);
    let up: Vec<([usize; 2], f64)> = lib("iter_upper_tri", || sm.iter_upper_tri().collect())?;
    for w in up.windows(2) {
        ensure!(w[0].0 < w[1].0, "order", "{}: upper triangle lists {:?} before {:?}", what, w[0].0, w[1].0);
    }
    for (k, _) in &up {
        ensure!(k[0] <= k[1], "triangle", "{}: {:?} is not in the upper triangle", what, k);
        ensure!(m.contains_key(k), "extra-entry", "{}: nothing was inserted at {:?}", what, k);
    }
    ensure!(up.len() == m.len(), "missing-entry", "{}: {} pairs stored, {} inserted", what, up.len(), m.len());
    for ((k, v), (mk, e)) in up.iter().zip(m.iter()) {
        ensure!(k == mk, "missing-entry", "{}: no entry at {:?}", what, mk);
        let tol = if exact { 0.0 } else { 4.0 * f64::EPSILON * e.1 * e.2 as f64 };
        ensure!((v - e.0).abs() <= tol, "value", "{}: {:?} holds {}, {} was inserted", what, k, v, e.0);
    }
    let full: usize = m.keys().map(|k| if k[0] == k[1] { 1 } else { 2 }).sum();
    let n = lib("num_entries", || sm.num_entries())?;
    ensure!(n == full, "num-entries", "{}: num_entries is {}, the full matrix has {}", what, n, full);
    if dim <= 64 {
        let d: DMatrix<f64> = lib("DMatrix::from", || sm.clone().into())?;
        ensure!(d.nrows() == dim && d.ncols() == dim, "dense", "{}: dense form is {}x{}", what, d.nrows(), d.ncols());
        let vals: BTreeMap<[usize; 2], f64> = up.into_iter().collect();
        for r in 0..dim {
            for c in 0..dim {
                let e = vals.get(&[r.min(c), r.max(c)]).copied().unwrap_or(0.0);
                ensure!(d[(r, c)] == e, "dense", "{}: dense form has {} at ({}, {}), should be {}", what, d[(r, c)], r, c, e);
            }
        }
    }
    Ok(())
}

fn value(rng: &mut Rng, exact: bool) -> f64 {
    if exact {
        match rng.below(8) {
            0 => 0.0,
            _ => rng.range(-4096, 4096) as f64 / 256.0,
        }
    } else {
        match rng.below(6) {
            0 => rng.gauss() * 10f64.powi(rng.range(-300, 290) as i32),
            1 => -1.0,
            _ => rng.gauss() * 10f64.powi(rng.range(-8, 8) as i32),
        }
    }
}

fn index(rng: &mut Rng, dim: usize, hot: usize) -> usize {
    match rng.below(4) {
        0 => dim - 1,
        1 => rng.below(hot.min(dim)),
        _ => rng.below(dim),
    }
}

fn ops(ctx: &mut Ctx, exact: bool) -> Res {
    let mut rng = ctx.rng.clone();
    let dim = *rng.pick(&[1usize, 2, 3, 5, 8, 17, 40, 64, 1000, 70000]);
    let hot = 1 + rng.below(6);
    let mut mats: Vec<(SparseMatrix, Model)> = (0..1 + rng.below(4)).map(|_| (SparseMatrix::new(dim), Model::new())).collect();
    let steps = 5 + rng.below(40);
    let mut log = format!("dim {}: ", dim);
    for s in 0..steps {
        let k = rng.below(mats.len());
        match rng.below(12) {
            0..=4 => {
                let (i, v) = ([index(&mut rng, dim, hot), index(&mut rng, dim, hot)], value(&mut rng, exact));
                lib("insert", || mats[k].0.insert(i, v))?;
                put(&mut mats[k].1, i, v);
                ctx.obs.add("insertions", 1);
                log += "i";
            }
            5..=7 => {
                let g: Vec<([usize; 2], f64)> = (0..rng.below(12)).map(|_| ([index(&mut rng, dim, hot), index(&mut rng, dim, hot)], value(&mut rng, exact))).collect();
                for (i, v) in &g {
                    put(&mut mats[k].1, *i, *v);
                }
                ctx.obs.add("insertions", g.len() as u64);
                lib("insert_group", || mats[k].0.insert_group(g))?;
                log += "g";
            }
            8 if mats.len() > 1 => {
                let mut o = rng.below(mats.len() - 1);
                if o >= k {
                    o += 1;
                }
                let (lo, hi) = mats.split_at_mut(k.max(o));
                let (a, b) = (&mut lo[k.min(o)], &mut hi[0]);
                let (dst, src) = if k < o { (a, b) } else { (b, a) };
                lib("consume_matrix", || dst.0.consume_matrix(&mut src.0))?;
                merge(&mut dst.1, &mut src.1);
                same(&src.1, &src.0, dim, exact, "merged source")?;
                ctx.obs.add("merges", 1);
                log += "m";
            }
            9 => {
                // a clone, changed afterwards, does not affect the original
                let mut c = mats[k].0.clone();
                same(&mats[k].1, &c, dim, exact, "clone")?;
                let i = [index(&mut rng, dim, hot), index(&mut rng, dim, hot)];
                lib("insert", || c.insert(i, 1.0))?;
                same(&mats[k].1, &mats[k].0, dim, exact, "original of a changed clone")?;
                let mut m = mats[k].1.clone();
                if mats.len() < 6 {
                    put(&mut m, i, 1.0);
                    mats.push((c, m));
                }
                ctx.obs.add("clones", 1);
                log += "c";
            }
            10 => {
                // refused operations
                let bad = dim + rng.below(3);
                let g = rng.below(dim);
                let i = if rng.chance(0.5) { [bad, g] } else { [g, bad] };
                match rng.below(3) {
                    0 => {
                        let r = try_lib(|| mats[k].0.insert(i, 1.0));
                        ensure!(r.is_err(), "not-refused", "insert({:?}) into dimension {}", i, dim);
                    }
                    1 => {
                        // the entries in front of the bad one may have been added
                        let mut copy = mats[k].0.clone();
                        let r = try_lib(|| copy.insert_group(vec![([g, g], 1.0), (i, 1.0)]));
                        ensure!(r.is_err(), "not-refused", "insert_group with {:?} into dimension {}", i, dim);
                        let r = try_lib(|| mats[k].0.insert_group(vec![(i, 1.0)]));
                        ensure!(r.is_err(), "not-refused", "insert_group with {:?} into dimension {}", i, dim);
                    }
                    _ => {
                        let od = if rng.chance(0.5) || dim == 1 { dim + 1 } else { dim - 1 };
                        let mut o = SparseMatrix::new(od);
                        let mut om = Model::new();
                        o.insert([0, od - 1], 3.0);
                        put(&mut om, [0, od - 1], 3.0);
                        let into = rng.chance(0.5);
                        let r = try_lib(|| if into { mats[k].0.consume_matrix(&mut o) } else { o.consume_matrix(&mut mats[k].0) });
                        ensure!(r.is_err(), "not-refused", "merging dimensions {} and {}", dim, od);
                        same(&om, &o, od, exact, "matrix of another size")?;
                    }
                }
                same(&mats[k].1, &mats[k].0, dim, exact, "after a refused operation")?;
                ctx.obs.add("refusals", 1);
                log += "r";
            }
            _ => {
                if mats.len() > 1 && dim <= 64 {
                    // pencil conversion keeps the two apart
                    let g = GEP { a: mats[0].0.clone(), b: mats[1].0.clone() };
                    let [a, b] = lib("to_nalgebra_dense_mats", || g.to_nalgebra_dense_mats())?;
                    for (d, m) in [(a, &mats[0].1), (b, &mats[1].1)] {
                        for ([r, c], e) in m {
                            let tol = if exact { 0.0 } else { 4.0 * f64::EPSILON * e.1 * e.2 as f64 };
                            ensure!((d[(*r, *c)] - e.0).abs() <= tol && d[(*r, *c)] == d[(*c, *r)], "dense", "pencil: ({}, {}) is {}", r, c, d[(*r, *c)]);
                        }
                    }
                    ctx.obs.add("pencils", 1);
                }
            }
        }
        if s % 7 == 6 {
            same(&mats[k].1, &mats[k].0, dim, exact, "matrix")?;
        }
    }
    for (sm, m) in &mats {
        same(m, sm, dim, exact, "matrix")?;
        ctx.obs.add("entries_compared", m.len() as u64);
        if m.values().any(|e| e.2 > 1) {
            ctx.nontrivial = Some(fnv(format!("{:?}", m).as_bytes()));
        }
    }
    ctx.sample = Some(log);
    Ok(())
}

fn group(ctx: &mut Ctx) -> Res {
    let mut rng = ctx.rng.clone();
    let dim = 1 + rng.below(60);
    let n = rng.below(40);
    let (mut ma, mut mb) = (Model::new(), Model::new());
    let mut parts: Vec<[SparseMatrix; 2]> = Vec::new();
    for _ in 0..n {
        let mut p = [SparseMatrix::new(dim), SparseMatrix::new(dim)];
        for _ in 0..rng.below(12) {
            let i = [index(&mut rng, dim, 3), index(&mut rng, dim, 3)];
            let k = rng.below(2);
            let v = value(&mut rng, true);
            p[k].insert(i, v);
            put(if k == 0 { &mut ma } else { &mut mb }, i, v);
        }
        parts.push(p);
    }
    let mut g = GEP::new(dim);
    // something is already there
    let first = rng.chance(0.5);
    if first {
        g.a.insert([0, dim - 1], 0.5);
        put(&mut ma, [0, dim - 1], 0.5);
    }
    lib("par_extend", || g.par_extend(parts))?;
    same(&ma, &g.a, dim, true, "parallel extension, first matrix")?;
    same(&mb, &g.b, dim, true, "parallel extension, second matrix")?;
    ctx.obs.add("submatrices_merged", 2 * n as u64);
    ctx.obs.add("entries_compared", (ma.len() + mb.len()) as u64);
    if ma.values().any(|e| e.2 > 1) {
        ctx.nontrivial = Some(fnv(format!("{:?}", ma).as_bytes()));
    }
    ctx.sample = Some(format!("dim {}: {} pairs of sub-matrices", dim, n));
    Ok(())
}

fn limits(ctx: &mut Ctx) -> Res {
    let mut rng = ctx.rng.clone();
    let max = u32::MAX as usize;
    let dim = *rng.pick(&[max, max - 1, 1 << 31, (1 << 31) + 1, 1 << 20, 65536, 65537]);
    let mut sm = lib("SparseMatrix::new", || SparseMatrix::new(dim))?;
    let mut m = Model::new();
    for _ in 0..40 {
        let mut ix = || match rng.below(5) {
            0 => dim - 1,
            1 => rng.below(4).min(dim - 1),
            2 => (1usize << rng.below(32)).min(dim - 1),
            3 => (1usize << 16) - 1 + rng.below(2),
            _ => rng.below(dim),
        };
        let i = [ix().min(dim - 1), ix().min(dim - 1)];
        let v = value(&mut rng, true);
        if rng.chance(0.5) {
            lib("insert", || sm.insert(i, v))?;
        } else {
            lib("insert_group", || sm.insert_group(vec![(i, v)]))?;
        }
        put(&mut m, i, v);
    }
    same(&m, &sm, dim, true, "large matrix")?;
    let over = max + 1 + rng.below(5);
    ensure!(try_lib(|| SparseMatrix::new(over)).is_err(), "not-refused", "a matrix of dimension {}", over);
    ensure!(try_lib(|| sm.insert([dim, 0], 1.0)).is_err() && try_lib(|| sm.insert([0, dim], 1.0)).is_err(), "not-refused", "index {} of dimension {}", dim, dim);
    let wrap = (1usize << 32) + rng.below(3);
    ensure!(try_lib(|| sm.insert([wrap, 0], 1.0)).is_err(), "not-refused", "index {} of dimension {}", wrap, dim);
    same(&m, &sm, dim, true, "large matrix after refusals")?;
    ctx.obs.add("entries_compared", m.len() as u64);
    ctx.obs.add("refusals", 4);
    ctx.nontrivial = Some(fnv(format!("{:?}", m).as_bytes()));
    ctx.sample = Some(format!("dim {}: {} pairs", dim, m.len()));
    Ok(())
}

fn run(ctx: &mut Ctx) -> Res {
    match ctx.kind {
        "exact" => ops(ctx, true),
        "float" => ops(ctx, false),
        "group" => group(ctx),
        _ => limits(ctx),
    }
}
