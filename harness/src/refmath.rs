//! Reference mathematics, independent of the library under test.
use crate::structure::Rect;
use nalgebra::DMatrix;

/// Families of one dimensional functions: the documented one of the library, and others that span the same spaces
/// (for tests with a function space supplied by the user).
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Family {
    Poly,
    /// triangular combinations of the documented functions with coefficients drawn from a table with this number
    Tri(usize),
}

thread_local! {
    static FAMILY: std::cell::Cell<Family> = const { std::cell::Cell::new(Family::Poly) };
}

/// the reference functions of this thread are those of the given family until the guard is dropped
pub struct UseFamily;
pub fn use_family(f: Family) -> UseFamily {
    FAMILY.with(|c| c.set(f));
    UseFamily
}
impl Drop for UseFamily {
    fn drop(&mut self) {
        FAMILY.with(|c| c.set(Family::Poly));
    }
}

impl Family {
    /// coefficients of the documented functions in the n-th of the family
    fn coefs(t: usize, tangential: bool, n: usize) -> &'static [f64] {
        static TABLES: [std::sync::OnceLock<[Vec<Vec<f64>>; 2]>; 4] = [const { std::sync::OnceLock::new() }; 4];
        let make = |tangential: bool, n: usize| -> Vec<f64> {
            let h = |k: usize, x: u64| (crate::util::fnv(format!("{} {} {} {} {}", t, tangential, n, k, x).as_bytes()) >> 11) as f64 / (1u64 << 53) as f64;
            (0..=n)
                .map(|k| {
                    if tangential && (n < 2 || k < 2) {
                        // the first two are fixed: not zero at one end, zero at the other
                        (n == k) as u8 as f64
                    } else if n == k {
                        0.5 + h(k, 0)
                    } else if h(k, 1) < 0.5 {
                        (h(k, 2) - 0.5) / (n + 1) as f64
                    } else {
                        0.0
                    }
                })
                .collect()
        };
        &TABLES[t].get_or_init(|| [false, true].map(|g| (0..40).map(|n| make(g, n)).collect()))[tangential as usize][n]
    }
    /// value (or derivative) number `der` of the n-th function
    pub fn eval(self, tangential: bool, der: usize, n: usize, x: f64) -> f64 {
        let f = match (tangential, der) {
            (false, 0) => poly_norm,
            (false, 1) => poly_norm_d1,
            (false, _) => poly_norm_d2,
            (true, 0) => poly_tang,
            (true, 1) => poly_tang_d1,
            (true, _) => poly_tang_d2,
        };
        match self {
            Family::Poly => f(n, x),
            Family::Tri(t) => Self::coefs(t, tangential, n).iter().enumerate().filter(|(_, c)| **c != 0.0).map(|(k, c)| c * f(k, x)).sum(),
        }
    }
}

fn fam(tangential: bool, der: usize, n: usize, x: f64) -> f64 {
    FAMILY.with(|c| c.get()).eval(tangential, der, n, x)
}
pub fn norm(n: usize, x: f64) -> f64 {
    fam(false, 0, n, x)
}
pub fn norm_d1(n: usize, x: f64) -> f64 {
    fam(false, 1, n, x)
}
pub fn norm_d2(n: usize, x: f64) -> f64 {
    fam(false, 2, n, x)
}
pub fn tang(n: usize, x: f64) -> f64 {
    fam(true, 0, n, x)
}
pub fn tang_d1(n: usize, x: f64) -> f64 {
    fam(true, 1, n, x)
}
pub fn tang_d2(n: usize, x: f64) -> f64 {
    fam(true, 2, n, x)
}

fn poly_norm(n: usize, x: f64) -> f64 {
    x.powi(n as i32)
}
fn poly_norm_d1(n: usize, x: f64) -> f64 {
    if n == 0 {
        0.0
    } else {
        n as f64 * x.powi(n as i32 - 1)
    }
}
fn poly_norm_d2(n: usize, x: f64) -> f64 {
    if n < 2 {
        0.0
    } else {
        (n * (n - 1)) as f64 * x.powi(n as i32 - 2)
    }
}
fn poly_tang(n: usize, x: f64) -> f64 {
    match n {
        0 => 1.0 - x,
        1 => 1.0 + x,
        _ if n % 2 == 0 => x.powi(n as i32) - 1.0,
        _ => x.powi(n as i32) - x,
    }
}
fn poly_tang_d1(n: usize, x: f64) -> f64 {
    match n {
        0 => -1.0,
        1 => 1.0,
        _ if n % 2 == 0 => n as f64 * x.powi(n as i32 - 1),
        _ => n as f64 * x.powi(n as i32 - 1) - 1.0,
    }
}
fn poly_tang_d2(n: usize, x: f64) -> f64 {
    match n {
        0 | 1 => 0.0,
        _ => (n * (n - 1)) as f64 * x.powi(n as i32 - 2),
    }
}

/// Gauss-Legendre rule by Newton iteration on the Legendre polynomial
pub fn gauss(n: usize) -> (Vec<f64>, Vec<f64>) {
    let mut x = vec![0.0; n];
    let mut w = vec![0.0; n];
    for i in 0..n {
        let mut z = -((std::f64::consts::PI * (i as f64 + 0.75)) / (n as f64 + 0.5)).cos();
        let mut dp = 1.0;
        for _ in 0..100 {
            let (mut p0, mut p1) = (1.0, z);
            if n == 1 {
                p1 = z;
                p0 = 1.0;
            } else {
                for k in 2..=n {
                    let p2 = ((2 * k - 1) as f64 * z * p1 - (k - 1) as f64 * p0) / k as f64;
                    p0 = p1;
                    p1 = p2;
                }
            }
            dp = n as f64 * (z * p1 - p0) / (z * z - 1.0);
            let dz = p1 / dp;
            z -= dz;
            if dz.abs() < 1e-16 {
                break;
            }
        }
        x[i] = z;
        w[i] = 2.0 / ((1.0 - z * z) * dp * dp);
    }
    (x, w)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dir {
    U,
    V,
}

/// one basis function, placed on a rectangle
#[derive(Clone, Copy, Debug)]
pub struct BasisFn {
    pub rect: Rect,
    pub dir: Dir,
    pub i: usize,
    pub j: usize,
}

fn to_ref([a, b]: [f64; 2], x: f64) -> f64 {
    (2.0 * x - a - b) / (b - a)
}

impl BasisFn {
    pub fn halves(&self) -> [f64; 2] {
        [(self.rect[0][1] - self.rect[0][0]) / 2.0, (self.rect[1][1] - self.rect[1][0]) / 2.0]
    }
    /// the two factors of the single non-zero component, at a place in reference coordinates of the function's own elem
    pub fn factors_ref(&self, u: f64, v: f64) -> [f64; 2] {
        let h = self.halves();
        match self.dir {
            Dir::U => [norm(self.i, u) / h[0], tang(self.j, v)],
            Dir::V => [tang(self.i, u), norm(self.j, v) / h[1]],
        }
    }
    /// curl = d Ey / dx - d Ex / dy as two factors
    pub fn curl_factors_ref(&self, u: f64, v: f64) -> [f64; 2] {
        let h = self.halves();
        match self.dir {
            Dir::U => [-norm(self.i, u) / h[0], tang_d1(self.j, v) / h[1]],
            Dir::V => [tang_d1(self.i, u) / h[0], norm(self.j, v) / h[1]],
        }
    }
    pub fn value(&self, x: f64, y: f64) -> [f64; 2] {
        let f = self.factors_ref(to_ref(self.rect[0], x), to_ref(self.rect[1], y));
        match self.dir {
            Dir::U => [f[0] * f[1], 0.0],
            Dir::V => [0.0, f[0] * f[1]],
        }
    }
    /// how much the rounding of coordinates may matter (relative to the size of the function)
    pub fn cond(&self) -> f64 {
        let h = self.halves();
        let n = (self.i + self.j + 1) as f64;
        (0..2).map(|k| 1e-15 * self.rect[k][0].abs().max(self.rect[k][1].abs()) / h[k]).sum::<f64>() * n * n
    }
}

/// exact integrals of (curl p . curl q, p . q) over a rectangle, by separated one dimensional rules
pub fn exact_pair(p: &BasisFn, q: &BasisFn, over: Rect, rule: &(Vec<f64>, Vec<f64>)) -> [f64; 2] {
    let (gx, gw) = rule;
    let mut s = [[0.0; 2]; 2]; // [curl, dot][axis]
    // reference coordinate of a point of the rectangle, without cancellation of large offsets
    let local = |r: Rect, ax: usize, t: f64| {
        let w = r[ax][1] - r[ax][0];
        let lo = 2.0 * (over[ax][0] - r[ax][0]) / w - 1.0;
        let hi = 1.0 - 2.0 * (r[ax][1] - over[ax][1]) / w;
        (lo + hi) / 2.0 + (hi - lo) / 2.0 * t
    };
    for ax in 0..2 {
        let h = (over[ax][1] - over[ax][0]) / 2.0;
        for (t, w) in gx.iter().zip(gw.iter()) {
            // the other coordinate does not matter for this factor
            let (a, b) = (local(p.rect, ax, *t), local(q.rect, ax, *t));
            s[0][ax] += h * w * p.curl_factors_ref(a, a)[ax] * q.curl_factors_ref(b, b)[ax];
            s[1][ax] += h * w * p.factors_ref(a, a)[ax] * q.factors_ref(b, b)[ax];
        }
    }
    [s[0][0] * s[0][1], if p.dir == q.dir { s[1][0] * s[1][1] } else { 0.0 }]
}

/// eigenvalues of A x = l B x (both symmetric, B positive definite), ascending.
/// Eigenvalues only: the eigenvectors of nalgebra's symmetric decomposition are not always right.
pub fn gen_eig(a: &DMatrix<f64>, b: &DMatrix<f64>) -> Option<Vec<f64>> {
    let n = a.nrows();
    let d: Vec<f64> = (0..n).map(|i| 1.0 / b[(i, i)].sqrt()).collect();
    let bs = DMatrix::from_fn(n, n, |i, j| b[(i, j)] * d[i] * d[j]);
    let as_ = DMatrix::from_fn(n, n, |i, j| a[(i, j)] * d[i] * d[j]);
    let l = bs.cholesky()?.l();
    let y = l.solve_lower_triangular(&as_)?;
    let c = l.solve_lower_triangular(&y.transpose())?;
    Some(sym_eig((&c + c.transpose()) * 0.5))
}

/// eigenvalues of a symmetric matrix, ascending
pub fn sym_eig(m: DMatrix<f64>) -> Vec<f64> {
    let mut v: Vec<f64> = m.symmetric_eigenvalues().iter().copied().collect();
    v.sort_by(|x, y| x.partial_cmp(y).unwrap());
    v
}

/// eigenvalues of a symmetric matrix after scaling its diagonal to one
pub fn scaled_eigs(b: &DMatrix<f64>) -> Vec<f64> {
    let n = b.nrows();
    let d: Vec<f64> = (0..n).map(|i| if b[(i, i)] > 0.0 { 1.0 / b[(i, i)].sqrt() } else { 1.0 }).collect();
    sym_eig(DMatrix::from_fn(n, n, |i, j| b[(i, j)] * d[i] * d[j]))
}
