//! Workload generation: base mesh files, refinement histories, order assignments.
use crate::structure::*;
use crate::util::*;
use fem_2d::prelude::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;

#[derive(Clone, Debug)]
pub struct BaseSpec {
    pub nodes: Vec<[f64; 2]>,
    pub elems: Vec<([usize; 4], [f64; 4])>,
}

#[derive(Clone, Debug)]
pub struct BaseOpts {
    pub max_nx: usize,
    pub max_ny: usize,
    pub max_elems: usize,
    pub holes: bool,
    pub permute: bool,
    pub materials: Materials4,
    pub spacing: Spacing,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Materials4 {
    Unit,
    RandomReal,
    RandomComplex,
    /// distinct power-of-two-free integers, one per element
    Distinct,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Spacing {
    Unit,
    Random,
    Any,
    /// sizes near the smallest allowed edge length
    Tiny,
    /// exactly representable coordinates
    Dyadic,
}

impl Default for BaseOpts {
    fn default() -> Self {
        Self {
            max_nx: 3,
            max_ny: 3,
            max_elems: 6,
            holes: true,
            permute: true,
            materials: Materials4::RandomReal,
            spacing: Spacing::Any,
        }
    }
}

/// a number with few enough decimal digits to be written and parsed without ambiguity
pub fn tidy(x: f64) -> f64 {
    let s = format!("{:.7}", x);
    s.parse().unwrap()
}

pub fn coords(rng: &mut Rng, n: usize, sp: Spacing) -> Vec<f64> {
    let sp = if sp == Spacing::Any {
        *rng.pick(&[Spacing::Unit, Spacing::Random, Spacing::Random, Spacing::Dyadic])
    } else {
        sp
    };
    match sp {
        Spacing::Unit => {
            let o = rng.range(-2, 1) as f64;
            let w = *rng.pick(&[1.0, 2.0, 0.5]);
            (0..=n).map(|i| o + w * i as f64).collect()
        }
        Spacing::Dyadic => {
            let mut x = rng.range(-24, 8) as f64 / 8.0;
            let mut v = vec![x];
            for _ in 0..n {
                x += *rng.pick(&[0.25, 0.5, 1.0, 1.0, 2.0, 3.0, 4.0]);
                v.push(x);
            }
            v
        }
        Spacing::Tiny => {
            let mut x = if rng.chance(0.5) { 0.0 } else { tidy(rng.uni(-1.0, 1.0)) };
            let mut v = vec![x];
            for _ in 0..n {
                // multiples of the limit from just below 1 to 8
                let f = *rng.pick(&[0.9, 1.02, 1.5, 1.9, 2.05, 3.0, 3.9, 4.1, 5.0, 8.2, 40.0]);
                x += tidy(f * 3.0518e-5);
                v.push(tidy(x));
            }
            v
        }
        _ => {
            let span = *rng.pick(&[0.1, 1.0, 1.0, 5.0]);
            let mut x = tidy(rng.uni(-3.0 * span, 2.0 * span));
            if rng.chance(0.1) {
                x += 100.0;
            }
            if rng.chance(0.15) {
                x = 0.0;
            }
            let mut v = vec![x];
            for _ in 0..n {
                x = tidy(x + span * rng.uni(0.15, 1.5));
                v.push(x);
            }
            v
        }
    }
}

pub fn base_spec(rng: &mut Rng, o: &BaseOpts) -> BaseSpec {
    let (mut nx, mut ny);
    loop {
        nx = 1 + rng.below(o.max_nx);
        ny = 1 + rng.below(o.max_ny);
        if nx * ny <= o.max_elems || (o.holes && nx * ny <= o.max_elems + 3) {
            break;
        }
    }
    let mut xs = coords(rng, nx, o.spacing);
    let mut ys = coords(rng, ny, o.spacing);
    if o.spacing == Spacing::Any && rng.chance(0.2) {
        // strongly anisotropic elements
        let f = *rng.pick(&[10.0, 50.0, 0.1]);
        let x0 = xs[0];
        for x in xs.iter_mut() {
            *x = tidy(x0 + (*x - x0) * f);
        }
    }
    if o.spacing == Spacing::Any && rng.chance(0.1) {
        // measured in another unit
        let f = *rng.pick(&[1e6, 131072.0, 1e3]);
        for v in [&mut xs, &mut ys] {
            for x in v.iter_mut() {
                *x = tidy(*x * f);
            }
        }
    }
    let mut cells: Vec<[usize; 2]> = (0..nx).flat_map(|i| (0..ny).map(move |j| [i, j])).collect();
    if o.holes && cells.len() > 1 && rng.chance(0.4) {
        let k = 1 + rng.below(cells.len() / 2);
        for _ in 0..k {
            let i = rng.below(cells.len());
            cells.remove(i);
        }
    }
    while cells.len() > o.max_elems {
        let i = rng.below(cells.len());
        cells.remove(i);
    }
    if o.permute && rng.chance(0.8) {
        rng.shuffle(&mut cells);
    }
    let mut grid: Vec<[usize; 2]> = Vec::new();
    let mut known = std::collections::HashSet::new();
    for c in &cells {
        for k in 0..4 {
            let g = [c[0] + k % 2, c[1] + k / 2];
            if known.insert(g) {
                grid.push(g);
            }
        }
    }
    if o.permute && rng.chance(0.8) {
        rng.shuffle(&mut grid);
    } else {
        grid.sort_by_key(|g| (g[1], g[0]));
    }
    let nodes = grid.iter().map(|g| [xs[g[0]], ys[g[1]]]).collect();
    let place: std::collections::HashMap<[usize; 2], usize> = grid.iter().enumerate().map(|(k, g)| (*g, k)).collect();
    let elems = cells
        .iter()
        .enumerate()
        .map(|(n, c)| {
            let ids = [0, 1, 2, 3].map(|k| place[&[c[0] + k % 2, c[1] + k / 2]]);
            let m = match o.materials {
                Materials4::Unit => [1.0, 0.0, 1.0, 0.0],
                Materials4::RandomReal if rng.chance(0.03) => [tidy(10f64.powf(rng.uni(-3.0, 3.0))), 0.0, tidy(10f64.powf(rng.uni(-3.0, 3.0))), 0.0],
                Materials4::RandomReal => [tidy(rng.uni(0.4, 6.0)), 0.0, tidy(rng.uni(0.4, 4.0)), 0.0],
                Materials4::RandomComplex => [
                    tidy(rng.uni(0.4, 6.0)),
                    tidy(rng.uni(-2.0, 2.0)),
                    tidy(rng.uni(0.4, 4.0)),
                    tidy(rng.uni(-2.0, 2.0)),
                ],
                Materials4::Distinct => [(n + 1) as f64, 0.0, 1.0, 0.0],
            };
            (ids, m)
        })
        .collect();
    BaseSpec { nodes, elems }
}

/// a grid of many elements (a few of them missing)
pub fn large_spec(rng: &mut Rng, min: usize, max: usize, materials: Materials4) -> BaseSpec {
    let side = (1.5 * (max as f64).sqrt()) as usize;
    loop {
        let s = base_spec(
            rng,
            &BaseOpts { max_nx: side, max_ny: side, max_elems: max, holes: false, permute: rng.clone().chance(0.5), materials, ..Default::default() },
        );
        if s.elems.len() >= min {
            return s;
        }
    }
}

impl BaseSpec {
    pub fn to_json(&self) -> String {
        let mut s = String::from("{\"Elements\":[");
        for (k, (ids, m)) in self.elems.iter().enumerate() {
            if k > 0 {
                s.push(',');
            }
            let _ = write!(s, "{{\"materials\":[{},{},{},{}],\"node_ids\":[{},{},{},{}]}}", m[0], m[1], m[2], m[3], ids[0], ids[1], ids[2], ids[3]);
        }
        s.push_str("],\"Nodes\":[");
        for (k, n) in self.nodes.iter().enumerate() {
            if k > 0 {
                s.push(',');
            }
            let _ = write!(s, "[{},{}]", n[0], n[1]);
        }
        s.push_str("]}");
        s
    }
    pub fn load(&self, path: &str) -> Res<Mesh> {
        std::fs::write(path, self.to_json()).expect("write mesh file");
        let r = lib("Mesh::from_file", || Mesh::from_file(path));
        let _ = std::fs::remove_file(path);
        r?.or_viol("Mesh::from_file")
    }
    pub fn key(&self) -> u64 {
        fnv(self.to_json().as_bytes())
    }
}

pub fn rand_href(rng: &mut Rng) -> HRef {
    match rng.below(8) {
        0 | 1 => HRef::T,
        2 => HRef::U(None),
        3 => HRef::V(None),
        4 => HRef::U(Some(0)),
        5 => HRef::U(Some(1)),
        6 => HRef::V(Some(0)),
        _ => HRef::V(Some(1)),
    }
}

pub fn leaves(mesh: &Mesh) -> Vec<usize> {
    mesh.elems.iter().filter(|e| !e.has_children()).map(|e| e.id).collect()
}

/// smallest side of an elem, from geometry
pub fn min_side(mesh: &Mesh, e: usize) -> f64 {
    let r = elem_rect(mesh, e);
    (r[0][1] - r[0][0]).min(r[1][1] - r[1][0])
}

#[derive(Clone, Debug)]
pub struct HistOpts {
    pub max_elems: usize,
    pub max_ops: usize,
    pub max_depth: usize,
}

/// Refine a mesh by a random history through the public entry points; returns a readable record of it.
pub fn refine_history(rng: &mut Rng, mesh: &mut Mesh, o: &HistOpts) -> Res<String> {
    let mut log = String::new();
    let n_ops = rng.below(o.max_ops + 1);
    // follow one corner or point with probability, to build deep local refinement
    let focus_deep = rng.chance(0.5);
    let b = base_rect(mesh, rng.below(mesh.elements.len()));
    let focus = [
        if rng.chance(0.5) { b[0][rng.below(2)] } else { rng.uni(b[0][0], b[0][1]) },
        if rng.chance(0.5) { b[1][rng.below(2)] } else { rng.uni(b[1][0], b[1][1]) },
    ];
    for _ in 0..n_ops {
        let lv: Vec<usize> = leaves(mesh)
            .into_iter()
            .filter(|e| mesh.elems[*e].loc_stack().len() < o.max_depth && min_side(mesh, *e) > 1e-3)
            .collect();
        if lv.is_empty() || mesh.elems.len() >= o.max_elems {
            break;
        }
        let room = (o.max_elems - mesh.elems.len()) / 4;
        match rng.below(10) {
            0 if lv.len() <= room / 2 + 1 && lv.len() == leaves(mesh).len() => {
                let h = rand_href(rng);
                let _ = write!(log, "global({}); ", h);
                lib("global_h_refinement", || mesh.global_h_refinement(h))?;
            }
            1 | 2 => {
                let h = rand_href(rng);
                let k = 1 + rng.below(lv.len().min(room.max(1)));
                let mut l = lv.clone();
                rng.shuffle(&mut l);
                l.truncate(k);
                let _ = write!(log, "elems({:?},{}); ", l, h);
                lib("h_refine_elems", || mesh.h_refine_elems(l.clone(), h))?.or_viol("h_refine_elems")?;
            }
            3 | 4 => {
                let mut sel: BTreeMap<usize, HRef> = BTreeMap::new();
                for e in &lv {
                    if sel.len() < room.max(1) && rng.chance(0.4) {
                        sel.insert(*e, rand_href(rng));
                    }
                }
                let _ = write!(log, "filter({}); ", sel.iter().map(|(k, v)| format!("{}:{}", k, v)).collect::<Vec<_>>().join(","));
                lib("h_refine_with_filter", || mesh.h_refine_with_filter(|e| sel.get(&e.id).copied()))?;
            }
            _ => {
                let mut l: Vec<(usize, HRef)> = Vec::new();
                if focus_deep {
                    for e in &lv {
                        let r = elem_rect(mesh, *e);
                        if r[0][0] <= focus[0] && focus[0] <= r[0][1] && r[1][0] <= focus[1] && focus[1] <= r[1][1] && l.len() < 4 {
                            if rng.chance(0.7) {
                                l.push((*e, rand_href(rng)));
                            }
                        }
                    }
                }
                let k = 1 + rng.below(3);
                for _ in 0..k {
                    l.push((*rng.pick(&lv), rand_href(rng)));
                }
                rng.shuffle(&mut l);
                let _ = write!(log, "exec({}); ", l.iter().map(|(k, v)| format!("{}:{}", k, v)).collect::<Vec<_>>().join(","));
                lib("execute_h_refinements", || mesh.execute_h_refinements(l.clone()))?.or_viol("execute_h_refinements")?;
            }
        }
    }
    Ok(log)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum OrderMode {
    Uniform(u8),
    /// independent orders on every elem (including refined ones), up to the given order
    Random(u8),
    Mixed(u8),
    /// one order or two along one axis, orders up to the given one along the other
    Skewed(u8),
}

pub fn set_orders(rng: &mut Rng, mesh: &mut Mesh, mode: OrderMode) -> Res<String> {
    match mode {
        OrderMode::Uniform(p) => {
            let o = [1 + rng.below(p as usize) as u8, 1 + rng.below(p as usize) as u8];
            lib("set_global_expansion_orders", || mesh.set_global_expansion_orders(Orders::new(o[0], o[1])))?;
            Ok(format!("orders {:?}", o))
        }
        OrderMode::Random(p) => {
            let l: Vec<(usize, Orders)> = (0..mesh.elems.len())
                .map(|i| (i, Orders::new(1 + rng.below(p as usize) as u8, 1 + rng.below(p as usize) as u8)))
                .collect();
            lib("set_expansion_orders", || mesh.set_expansion_orders(l.clone()))?.or_viol("set_expansion_orders")?;
            Ok(format!("orders random<={}", p))
        }
        OrderMode::Skewed(p) => {
            let flip = rng.chance(0.5);
            let low = 1 + rng.below(2) as u8;
            let one = rng.chance(0.5);
            let n = mesh.elems.len();
            let mut l: Vec<(usize, Orders)> = Vec::new();
            for i in 0..n {
                let high = if one { p } else { p - rng.below(p as usize / 2 + 1) as u8 };
                let o = if flip { [high, low] } else { [low, high] };
                l.push((i, Orders::new(o[0], o[1])));
            }
            lib("set_expansion_orders", || mesh.set_expansion_orders(l.clone()))?.or_viol("set_expansion_orders")?;
            Ok(format!("orders {} <= {} {}", low, p, if flip { "(v low)" } else { "(u low)" }))
        }
        OrderMode::Mixed(p) => {
            if rng.chance(0.4) {
                set_orders(rng, mesh, OrderMode::Uniform(p))
            } else {
                set_orders(rng, mesh, OrderMode::Random(p))
            }
        }
    }
}

/// Refine towards one place, level upon level, until the sides reach the smallest length or the budget is spent.
/// Elements on one or on all sides of the place are refined, with equal or with changing splits.
pub fn chain_history(rng: &mut Rng, mesh: &mut Mesh, levels: usize, max_elems: usize) -> Res<String> {
    let b = base_rect(mesh, rng.below(mesh.elements.len()));
    // a corner of a base element, the middle of one of its sides, or a place inside of it
    let focus: [f64; 2] = match rng.below(4) {
        0 | 1 => [b[0][rng.below(2)], b[1][rng.below(2)]],
        2 => {
            let k = rng.below(2);
            let mut f = [(b[0][0] + b[0][1]) / 2.0, (b[1][0] + b[1][1]) / 2.0];
            f[k] = b[k][rng.below(2)];
            f
        }
        _ => [rng.uni(b[0][0], b[0][1]), rng.uni(b[1][0], b[1][1])],
    };
    let style = rng.below(4);
    let everywhere = *rng.pick(&[1.0, 1.0, 0.7, 0.0]);
    let mut log = format!("chain of {} towards {:?}, style {}, {}: ", levels, focus, style, everywhere);
    for step in 0..levels {
        let touching: Vec<usize> = leaves(mesh)
            .into_iter()
            .filter(|e| {
                let r = elem_rect(mesh, *e);
                (0..2).all(|k| {
                    let tol = 1e-9 * (r[k][1] - r[k][0]);
                    r[k][0] - tol <= focus[k] && focus[k] <= r[k][1] + tol
                }) && min_side(mesh, *e) > 7e-5
            })
            .collect();
        if touching.is_empty() || mesh.elems.len() + 4 * touching.len() > max_elems {
            break;
        }
        let always = *rng.pick(&touching);
        let mut l: Vec<(usize, HRef)> = Vec::new();
        for e in touching {
            if e != always && !rng.chance(everywhere) {
                continue;
            }
            let h = match style {
                0 | 1 => HRef::T,
                2 if step % 2 == 0 => HRef::U(None),
                2 => HRef::V(None),
                _ => rand_href(rng),
            };
            l.push((e, h));
        }
        let _ = write!(log, "{:?}; ", l);
        lib("execute_h_refinements", || mesh.execute_h_refinements(l.clone()))?.or_viol("execute_h_refinements")?;
    }
    Ok(log)
}

/// a base mesh refined level upon level towards one place, with random orders
pub fn rand_chain(rng: &mut Rng, path: &str, bo: &BaseOpts, levels: usize, max_elems: usize, om: OrderMode) -> Res<(Mesh, String)> {
    let spec = base_spec(rng, bo);
    let mut mesh = spec.load(path)?;
    let mut desc = format!("base {} | ", spec.to_json());
    if rng.chance(0.3) {
        set_orders(rng, &mut mesh, om)?;
    }
    let levels = 2 + levels / 2 + rng.below(levels / 2);
    desc += &chain_history(rng, &mut mesh, levels, max_elems)?;
    let o = if rng.chance(0.85) { set_orders(rng, &mut mesh, om)? } else { String::from("orders inherited") };
    let _ = write!(desc, "| {} | {} elems", o, mesh.elems.len());
    Ok((mesh, desc))
}

/// a random refined mesh with random orders
pub fn rand_mesh(rng: &mut Rng, path: &str, bo: &BaseOpts, ho: &HistOpts, om: OrderMode) -> Res<(Mesh, String)> {
    let (mut mesh, mut desc) = if rng.chance(0.06) {
        (lib("Mesh::unit", Mesh::unit)?, String::from("unit mesh"))
    } else {
        let spec = base_spec(rng, bo);
        (spec.load(path)?, format!("base {}", spec.to_json()))
    };
    if rng.chance(0.3) {
        // orders set before refinement are inherited
        set_orders(rng, &mut mesh, om)?;
    }
    let h = refine_history(rng, &mut mesh, ho)?;
    let o = if rng.chance(0.85) { set_orders(rng, &mut mesh, om)? } else { String::from("orders inherited") };
    let _ = write!(desc, " | {}| {} | {} elems", h, o, mesh.elems.len());
    Ok((mesh, desc))
}

pub fn domain_of(mesh: Mesh) -> Res<Domain> {
    lib("Domain::from_mesh", || Domain::from_mesh(mesh, ContinuityCondition::HCurl))
}
