//! Reference model of the refinement tree: a map from (base element, path) to the state of the elem there. It knows
//! nothing about ids, nodes or edges objects.
use crate::structure::*;
use crate::util::*;
use fem_2d::fem_domain::domain::mesh::MIN_EDGE_LENGTH;
use fem_2d::prelude::*;
use std::collections::{BTreeMap, HashSet};

pub type Key = (usize, Vec<u8>);

#[derive(Clone, Debug, PartialEq)]
pub struct MElem {
    pub rect: Rect,
    pub orders: [u8; 2],
    /// kind of split: 0 = T, 4 = U, 6 = V
    pub split: Option<u8>,
}

#[derive(Clone)]
pub struct Model {
    pub elems: BTreeMap<Key, MElem>,
    /// side segments which have been bisected (as bits of their end points)
    pub bisected: HashSet<[u64; 4]>,
}

pub fn seg(a: [f64; 2], b: [f64; 2]) -> [u64; 4] {
    let z = |v: f64| if v == 0.0 { 0.0f64.to_bits() } else { v.to_bits() };
    [z(a[0]), z(a[1]), z(b[0]), z(b[1])]
}

/// south, north, west, east sides
pub fn sides(r: Rect) -> [[u64; 4]; 4] {
    let [x, y] = r;
    [
        seg([x[0], y[0]], [x[1], y[0]]),
        seg([x[0], y[1]], [x[1], y[1]]),
        seg([x[0], y[0]], [x[0], y[1]]),
        seg([x[1], y[0]], [x[1], y[1]]),
    ]
}

pub fn lengths(r: Rect) -> [f64; 2] {
    [r[0][1] - r[0][0], r[1][1] - r[1][0]]
}

/// least refinement covering both
pub fn combine(a: HRef, b: HRef) -> HRef {
    match (a, b) {
        (HRef::T, _) | (_, HRef::T) => HRef::T,
        (HRef::U(x), HRef::U(y)) => match (x, y) {
            (None, k) | (k, None) => HRef::U(k),
            (Some(i), Some(j)) if i == j => HRef::U(Some(i)),
            _ => HRef::T,
        },
        (HRef::V(x), HRef::V(y)) => match (x, y) {
            (None, k) | (k, None) => HRef::V(k),
            (Some(i), Some(j)) if i == j => HRef::V(Some(i)),
            _ => HRef::T,
        },
        _ => HRef::T,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Refusal {
    Missing,
    NotRefineable,
    BadChild,
    TooShort,
    Duplicate,
}

impl Model {
    pub fn of(mesh: &Mesh) -> Model {
        let mut elems = BTreeMap::new();
        let mut bisected = HashSet::new();
        for e in mesh.elems.iter() {
            let split = e.child_ids().map(|c| match c.len() {
                4 => 0,
                _ => loc_code(mesh.elems[c[0]].loc_stack().last().unwrap().1),
            });
            let rect = elem_rect(mesh, e.id);
            Self::mark(&mut bisected, rect, split);
            elems.insert((e.element.id, elem_path(mesh, e.id)), MElem { rect, orders: [e.poly_orders.ni, e.poly_orders.nj], split });
        }
        Model { elems, bisected }
    }

    fn mark(b: &mut HashSet<[u64; 4]>, rect: Rect, split: Option<u8>) {
        let s = sides(rect);
        let l: &[usize] = match split {
            Some(0) => &[0, 1, 2, 3],
            Some(4) => &[0, 1],
            Some(6) => &[2, 3],
            _ => &[],
        };
        for i in l {
            b.insert(s[*i]);
        }
    }

    pub fn eligible(&self, k: &Key) -> bool {
        let e = &self.elems[k];
        let l = lengths(e.rect);
        e.split.is_none() && l[0] > MIN_EDGE_LENGTH && l[1] > MIN_EDGE_LENGTH
    }

    /// can every side that has to be bisected be bisected?
    pub fn long_enough(&self, k: &Key, h: HRef) -> bool {
        let e = &self.elems[k];
        let l = lengths(e.rect);
        let s = sides(e.rect);
        let ok = |i: usize| self.bisected.contains(&s[i]) || l[if i < 2 { 0 } else { 1 }] / 2.0 >= MIN_EDGE_LENGTH;
        match h {
            HRef::T => (0..4).all(ok),
            HRef::U(ext) => {
                ok(0)
                    && ok(1)
                    && ext.map_or(true, |c| l[0] / 2.0 > MIN_EDGE_LENGTH && ok(2 + c) && l[1] / 2.0 >= MIN_EDGE_LENGTH)
            }
            HRef::V(ext) => {
                ok(2)
                    && ok(3)
                    && ext.map_or(true, |c| l[1] / 2.0 > MIN_EDGE_LENGTH && ok(c) && l[0] / 2.0 >= MIN_EDGE_LENGTH)
            }
        }
    }

    fn split(&mut self, k: &Key, kind: u8) {
        let e = self.elems.get_mut(k).unwrap();
        assert!(e.split.is_none());
        e.split = Some(kind);
        let (rect, orders) = (e.rect, e.orders);
        Self::mark(&mut self.bisected, rect, Some(kind));
        let codes: &[u8] = match kind {
            0 => &[0, 1, 2, 3],
            4 => &[4, 5],
            _ => &[6, 7],
        };
        for c in codes {
            let mut p = k.1.clone();
            p.push(*c);
            self.elems.insert((k.0, p), MElem { rect: sub_rect(rect, *c), orders, split: None });
        }
    }

    fn do_one(&mut self, k: &Key, h: HRef) {
        let (kind, ext) = match h {
            HRef::T => (0, None),
            HRef::U(e) => (4u8, e.map(|i| (4 + i as u8, 6u8))),
            HRef::V(e) => (6u8, e.map(|i| (6 + i as u8, 4u8))),
        };
        self.split(k, kind);
        if let Some((child, k2)) = ext {
            let mut p = k.1.clone();
            p.push(child);
            self.split(&(k.0, p), k2);
        }
    }

    /// `None` stands for an elem that does not exist
    pub fn execute(&mut self, list: &[(Option<Key>, HRef)]) -> Result<usize, Refusal> {
        let mut m: BTreeMap<Key, HRef> = BTreeMap::new();
        let mut refusal = None;
        for (k, h) in list {
            if let HRef::U(Some(c)) | HRef::V(Some(c)) = h {
                if *c > 1 {
                    refusal = refusal.or(Some(Refusal::BadChild));
                    continue;
                }
            }
            match k {
                None => refusal = refusal.or(Some(Refusal::Missing)),
                Some(k) if !self.eligible(k) => refusal = refusal.or(Some(Refusal::NotRefineable)),
                Some(k) => {
                    let c = m.get(k).map_or(*h, |p| combine(*p, *h));
                    m.insert(k.clone(), c);
                }
            }
        }
        if let Some(r) = refusal {
            return Err(r);
        }
        if m.iter().any(|(k, h)| !self.long_enough(k, *h)) {
            return Err(Refusal::TooShort);
        }
        for (k, h) in &m {
            self.do_one(k, *h);
        }
        Ok(m.len())
    }

    /// compare the library's mesh with the model
    pub fn compare(&self, mesh: &Mesh, sig: &str) -> Res {
        let lib = by_path(mesh);
        ensure!(lib.len() == mesh.elems.len(), sig, "two elems have the same path");
        for (k, e) in &self.elems {
            let id = match lib.get(k) {
                Some(id) => *id,
                None => return viol(sig, format!("expected an elem at {:?} with rectangle {:?}; there is none", k, e.rect)),
            };
            let le = &mesh.elems[id];
            let split = le.child_ids().map(|c| if c.len() == 4 { 0 } else { loc_code(mesh.elems[c[0]].loc_stack().last().unwrap().1) });
            ensure!(split == e.split, sig, "elem {} at {:?}: split kind {:?}, expected {:?}", id, k, split, e.split);
            ensure!(
                [le.poly_orders.ni, le.poly_orders.nj] == e.orders,
                "orders-not-inherited",
                "elem {} at {:?}: orders {:?}, expected {:?}",
                id,
                k,
                le.poly_orders,
                e.orders
            );
            let (mut u, mut v) = (0u8, 0u8);
            for c in &k.1 {
                let h = loc_halves(*c);
                u += (h[0] != 0) as u8;
                v += (h[1] != 0) as u8;
            }
            ensure!(le.h_levels.u == u && le.h_levels.v == v, "h-levels", "elem {} at {:?}: levels {:?}", id, k, le.h_levels);
            ensure!(le.element.id == k.0, sig, "elem {} at {:?}: element {}", id, k, le.element.id);
            // the real rectangle
            let (p, q) = (&mesh.nodes[le.nodes[0]].coords, &mesh.nodes[le.nodes[3]].coords);
            let l = lengths(e.rect);
            let ok = |a: f64, b: f64, s: f64| (a - b).abs() <= (1e-9 * s).max(a.abs() * 1e-15);
            ensure!(
                ok(p.x, e.rect[0][0], l[0]) && ok(q.x, e.rect[0][1], l[0]) && ok(p.y, e.rect[1][0], l[1]) && ok(q.y, e.rect[1][1], l[1]),
                "child-geometry",
                "elem {} at {:?} spans ({},{})-({},{}), expected {:?}",
                id,
                k,
                p.x,
                p.y,
                q.x,
                q.y,
                e.rect
            );
        }
        for (k, id) in &lib {
            ensure!(self.elems.contains_key(k), sig, "unexpected elem {} at {:?}", id, k);
        }
        Ok(())
    }
}

pub fn key_of(mesh: &Mesh, id: usize) -> Option<Key> {
    if id < mesh.elems.len() {
        Some((mesh.elems[id].element.id, elem_path(mesh, id)))
    } else {
        None
    }
}
