//! An independent reader of legacy VTK unstructured grid files, and field access through the public API only.
use crate::structure::*;
use crate::util::*;
use fem_2d::fem_domain::domain::fields::UniformFieldSpace;
use fem_2d::prelude::*;
use std::collections::BTreeMap;

#[derive(Debug)]
pub struct Vtk {
    pub points: Vec<[f64; 3]>,
    pub cells: Vec<Vec<usize>>,
    pub types: Vec<usize>,
    pub scalars: Vec<(String, Vec<f64>)>,
}

struct Tok<'a> {
    t: std::iter::Peekable<std::str::SplitWhitespace<'a>>,
}

impl<'a> Tok<'a> {
    fn next(&mut self, what: &str) -> Res<&'a str> {
        match self.t.next() {
            Some(x) => Ok(x),
            None => viol("vtk-format", format!("file ends where {} is expected", what)),
        }
    }
    fn word(&mut self, w: &str) -> Res {
        let t = self.next(w)?;
        ensure!(t == w, "vtk-format", "found {:?} where {} is expected", t, w);
        Ok(())
    }
    fn int(&mut self, what: &str) -> Res<usize> {
        let t = self.next(what)?;
        t.parse().or_else(|_| viol("vtk-format", format!("found {:?} where {} is expected", t, what)))
    }
    fn num(&mut self, what: &str) -> Res<f64> {
        let t = self.next(what)?;
        t.parse().or_else(|_| viol("vtk-format", format!("found {:?} where {} is expected", t, what)))
    }
    fn one_of(&mut self, w: &[&str]) -> Res {
        let t = self.next(w[0])?;
        ensure!(w.contains(&t), "vtk-format", "found {:?} where one of {:?} is expected", t, w);
        Ok(())
    }
}

pub fn parse(text: &str) -> Res<Vtk> {
    let mut lines = text.splitn(3, '\n');
    let l1 = lines.next().unwrap_or("");
    ensure!(l1.starts_with("# vtk DataFile Version "), "vtk-format", "first line is {:?}", l1);
    let l2 = lines.next().unwrap_or("");
    ensure!(l2.len() < 256, "vtk-format", "title of {} characters", l2.len());
    let rest = lines.next().unwrap_or("");
    let mut t = Tok { t: rest.split_whitespace().peekable() };
    t.word("ASCII")?;
    t.word("DATASET")?;
    t.word("UNSTRUCTURED_GRID")?;
    t.word("POINTS")?;
    let n = t.int("number of points")?;
    t.one_of(&["double", "float"])?;
    ensure!(n < 50_000_000, "vtk-format", "{} points declared", n);
    let mut points = Vec::with_capacity(n);
    for _ in 0..n {
        points.push([t.num("a coordinate")?, t.num("a coordinate")?, t.num("a coordinate")?]);
    }
    t.word("CELLS")?;
    let m = t.int("number of cells")?;
    let size = t.int("size of the cell list")?;
    let mut cells = Vec::new();
    let mut used = 0;
    for _ in 0..m {
        let k = t.int("number of corners")?;
        ensure!(k <= 8, "vtk-format", "cell with {} corners", k);
        let mut c = Vec::new();
        for _ in 0..k {
            let i = t.int("a point index")?;
            ensure!(i < n, "vtk-format", "point index {} with {} points", i, n);
            c.push(i);
        }
        used += k + 1;
        cells.push(c);
    }
    ensure!(used == size, "vtk-format", "cell list of declared size {} has {} numbers", size, used);
    t.word("CELL_TYPES")?;
    let m2 = t.int("number of cell types")?;
    ensure!(m2 == m, "vtk-format", "{} cells but {} cell types", m, m2);
    let mut types = Vec::new();
    for _ in 0..m {
        types.push(t.int("a cell type")?);
    }
    let mut scalars = Vec::new();
    if t.t.peek().is_some() {
        t.word("POINT_DATA")?;
        let k = t.int("number of point data")?;
        ensure!(k == n, "vtk-format", "{} points but data for {}", n, k);
        while t.t.peek().is_some() {
            t.word("SCALARS")?;
            let name = t.next("a name")?.to_string();
            t.one_of(&["double", "float"])?;
            let mut w = t.next("LOOKUP_TABLE")?;
            if w == "1" {
                w = t.next("LOOKUP_TABLE")?;
            }
            ensure!(w == "LOOKUP_TABLE", "vtk-format", "found {:?} where LOOKUP_TABLE is expected", w);
            t.word("default")?;
            let mut v = Vec::with_capacity(n);
            for _ in 0..n {
                v.push(t.num("a value")?);
            }
            scalars.push((name, v));
        }
    }
    Ok(Vtk { points, cells, types, scalars })
}

/// for every leaf: point index at grid position (m, n)
pub type Grid = BTreeMap<usize, Vec<Vec<usize>>>;

/// Finds the leaf and the grid position of every point. `points` come in blocks, one per leaf.
pub fn locate(v: &Vtk, mesh: &Mesh, dens: [usize; 2]) -> Res<Grid> {
    let leaves: Vec<usize> = mesh.elems.iter().filter(|e| !e.has_children()).map(|e| e.id).collect();
    let per = dens[0] * dens[1];
    ensure!(v.points.len() == per * leaves.len(), "vtk-points", "{} points for {} elements with {:?} each", v.points.len(), leaves.len(), dens);
    let rects: Vec<Rect> = leaves.iter().map(|e| elem_rect(mesh, *e)).collect();
    let mut g = Grid::new();
    for (b, blk) in v.points.chunks(per).enumerate() {
        let lo = [0, 1].map(|k| blk.iter().map(|p| p[k]).fold(f64::INFINITY, f64::min));
        let hi = [0, 1].map(|k| blk.iter().map(|p| p[k]).fold(f64::NEG_INFINITY, f64::max));
        let fits = |r: &Rect| (0..2).all(|k| (r[k][0] - lo[k]).abs() <= tol(lo[k]) && (r[k][1] - hi[k]).abs() <= tol(hi[k]));
        // in order, if possible
        let k = if fits(&rects[b]) { Some(b) } else { rects.iter().position(fits) };
        let k = match k {
            Some(k) => k,
            None => return viol("vtk-points", format!("points {}.. cover x {:?} to {:?}, which is no unrefined element", b * per, lo, hi)),
        };
        let r = rects[k];
        let mut grid = vec![vec![usize::MAX; dens[1]]; dens[0]];
        for (i, p) in blk.iter().enumerate() {
            let mut at = [0, 0];
            for ax in 0..2 {
                let step = (r[ax][1] - r[ax][0]) / (dens[ax] - 1) as f64;
                let m = ((p[ax] - r[ax][0]) / step).round();
                ensure!(
                    m >= 0.0 && m < dens[ax] as f64 && (r[ax][0] + m * step - p[ax]).abs() <= tol(p[ax]),
                    "vtk-points",
                    "point {:?} of element {} ({:?}) is not on its {:?} grid",
                    p, leaves[k], r, dens
                );
                at[ax] = m as usize;
            }
            ensure!(p[2] == 0.0, "vtk-points", "point {:?} is not in the plane", p);
            ensure!(grid[at[0]][at[1]] == usize::MAX, "vtk-points", "grid point {:?} of element {} appears twice", at, leaves[k]);
            grid[at[0]][at[1]] = b * per + i;
        }
        ensure!(g.insert(leaves[k], grid).is_none(), "vtk-points", "element {} appears twice", leaves[k]);
    }
    Ok(g)
}

/// coordinates are printed with ten decimals
fn tol(c: f64) -> f64 {
    2e-10 + 1e-13 * c.abs()
}

pub fn export(ufs: &UniformFieldSpace, names: &[String], path: &str) -> Res<Vtk> {
    let _ = std::fs::remove_file(path);
    let r = lib("print_quantities_to_vkt", || ufs.print_quantities_to_vkt(path, names.to_vec()))?;
    if let Err(e) = r {
        return viol("unexpected-error:print_quantities_to_vkt", format!("{}", e));
    }
    let text = std::fs::read_to_string(path).map_err(|e| Violation { sig: "vtk-format".into(), msg: format!("exported file cannot be read: {}", e) })?;
    let _ = std::fs::remove_file(path);
    parse(&text)
}

/// the printed values of one quantity on every leaf
pub fn column<'a>(v: &'a Vtk, name: &str) -> Res<&'a [f64]> {
    match v.scalars.iter().find(|s| s.0 == name) {
        Some(s) => Ok(&s.1),
        None => viol("vtk-quantities", format!("quantity {} is missing", name)),
    }
}

/// Exact bits of a quantity, exported as two whole numbers per point
pub fn exact_bits(ufs: &mut UniformFieldSpace, name: &str, path: &str) -> Res<(Vtk, Vec<u64>)> {
    lib("map_to_quantity", || ufs.map_to_quantity(name, "__hi", |x| (x.to_bits() >> 32) as f64))?.or_viol("map_to_quantity")?;
    lib("map_to_quantity", || ufs.map_to_quantity(name, "__lo", |x| (x.to_bits() & 0xffff_ffff) as f64))?.or_viol("map_to_quantity")?;
    let v = export(ufs, &["__hi".to_string(), "__lo".to_string()], path)?;
    let (hi, lo) = (column(&v, "__hi")?, column(&v, "__lo")?);
    let b = hi.iter().zip(lo).map(|(h, l)| (*h as u64) << 32 | *l as u64).collect();
    Ok((v, b))
}
