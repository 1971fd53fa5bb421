//! Problem generator: systems left(x) = right(x) built from elementary terms,
//! with exact derivatives and, for most families, a known root.

use crate::lin::Mat;
use crate::rng::Rng;

#[derive(Clone, Copy, Debug)]
pub enum Term {
    Const(f64),
    Lin(f64, usize),
    Quad(f64, usize, usize),
    Cub(f64, usize),
    Sin(f64, f64, usize),
    Atan(f64, f64, usize, f64),
    Sqrt(f64, usize),
    Ln(f64, usize),
    Recip(f64, usize),
    Step(f64, usize, f64),
    /// nothing, with a derivative (a wrong one)
    Slope(f64, usize),
    Exp(f64, usize),
}

impl Term {
    fn val(&self, x: &[f64]) -> f64 {
        match *self {
            Term::Const(c) => c,
            Term::Slope(..) => 0.0,
            Term::Lin(c, j) => c * x[j],
            Term::Quad(c, j, k) => c * x[j] * x[k],
            Term::Cub(c, j) => c * x[j] * x[j] * x[j],
            Term::Sin(c, w, j) => c * (w * x[j]).sin(),
            Term::Atan(c, w, j, r) => c * (w * (x[j] - r)).atan(),
            Term::Sqrt(c, j) => c * x[j].sqrt(),
            Term::Ln(c, j) => c * x[j].ln(),
            Term::Recip(c, j) => c / x[j],
            Term::Step(c, j, t) => {
                if x[j] > t {
                    c
                } else {
                    0.0
                }
            }
            Term::Exp(c, j) => c * x[j].exp(),
        }
    }
    pub fn scaled(&self, k: f64) -> Term {
        match *self {
            Term::Const(c) => Term::Const(c * k),
            Term::Slope(c, j) => Term::Slope(c * k, j),
            Term::Lin(c, j) => Term::Lin(c * k, j),
            Term::Quad(c, i, j) => Term::Quad(c * k, i, j),
            Term::Cub(c, j) => Term::Cub(c * k, j),
            Term::Sin(c, w, j) => Term::Sin(c * k, w, j),
            Term::Atan(c, w, j, r) => Term::Atan(c * k, w, j, r),
            Term::Sqrt(c, j) => Term::Sqrt(c * k, j),
            Term::Ln(c, j) => Term::Ln(c * k, j),
            Term::Recip(c, j) => Term::Recip(c * k, j),
            Term::Step(c, j, t) => Term::Step(c * k, j, t),
            Term::Exp(c, j) => Term::Exp(c * k, j),
        }
    }
    /// the same term, the unknown j being now the unknown at[j]
    pub fn renamed(&self, at: &[usize]) -> Term {
        match *self {
            Term::Const(c) => Term::Const(c),
            Term::Slope(c, j) => Term::Slope(c, at[j]),
            Term::Lin(c, j) => Term::Lin(c, at[j]),
            Term::Quad(c, i, j) => Term::Quad(c, at[i], at[j]),
            Term::Cub(c, j) => Term::Cub(c, at[j]),
            Term::Sin(c, w, j) => Term::Sin(c, w, at[j]),
            Term::Atan(c, w, j, r) => Term::Atan(c, w, at[j], r),
            Term::Sqrt(c, j) => Term::Sqrt(c, at[j]),
            Term::Ln(c, j) => Term::Ln(c, at[j]),
            Term::Recip(c, j) => Term::Recip(c, at[j]),
            Term::Step(c, j, t) => Term::Step(c, at[j], t),
            Term::Exp(c, j) => Term::Exp(c, at[j]),
        }
    }
    fn add_grad(&self, x: &[f64], row: &mut [f64]) {
        match *self {
            Term::Const(_) | Term::Step(..) => (),
            Term::Slope(c, j) => row[j] += c,
            Term::Lin(c, j) => row[j] += c,
            Term::Quad(c, j, k) => {
                row[j] += c * x[k];
                row[k] += c * x[j];
            }
            Term::Cub(c, j) => row[j] += 3.0 * c * x[j] * x[j],
            Term::Sin(c, w, j) => row[j] += c * w * (w * x[j]).cos(),
            Term::Atan(c, w, j, r) => {
                let z = w * (x[j] - r);
                row[j] += c * w / (1.0 + z * z)
            }
            Term::Sqrt(c, j) => row[j] += 0.5 * c / x[j].sqrt(),
            Term::Ln(c, j) => row[j] += c / x[j],
            Term::Recip(c, j) => row[j] -= c / (x[j] * x[j]),
            Term::Exp(c, j) => row[j] += c * x[j].exp(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Problem {
    pub n: usize,
    pub family: &'static str,
    pub left: Vec<Vec<Term>>,
    pub right: Vec<Vec<Term>>,
    pub root: Option<Vec<f64>>,
    /// length of the memory of the model and its influence on the left members
    pub mem_len: usize,
    pub mem_gain: f64,
    /// last component of the memory: kept by the model, used by nothing
    pub mem_opaque: Option<f64>,
    /// units (signed powers of two) of the unknowns and unit of the equations
    pub units: Option<(Vec<f64>, f64)>,
}

fn sum(terms: &[Term], x: &[f64]) -> f64 {
    let mut s = 0.0;
    for t in terms {
        s += t.val(x);
    }
    s
}

impl Problem {
    pub fn eval(&self, x: &[f64]) -> (Vec<f64>, Vec<f64>) {
        if let Some((ux, uf)) = &self.units {
            let y: Vec<f64> = x.iter().zip(ux).map(|(v, u)| v / u).collect();
            return (
                self.left.iter().map(|t| uf * sum(t, &y)).collect(),
                self.right.iter().map(|t| uf * sum(t, &y)).collect(),
            );
        }
        (
            self.left.iter().map(|t| sum(t, x)).collect(),
            self.right.iter().map(|t| sum(t, x)).collect(),
        )
    }
    pub fn jac(&self, x: &[f64]) -> (Mat, Mat) {
        let n = self.n;
        if let Some((ux, uf)) = &self.units {
            let y: Vec<f64> = x.iter().zip(ux).map(|(v, u)| v / u).collect();
            let (mut l, mut r) = Problem { units: None, ..self.clone() }.jac(&y);
            for i in 0..n {
                for j in 0..n {
                    l.set(i, j, l.at(i, j) * uf / ux[j]);
                    r.set(i, j, r.at(i, j) * uf / ux[j]);
                }
            }
            return (l, r);
        }
        let mut l = Mat::zeros(n);
        let mut r = Mat::zeros(n);
        for i in 0..n {
            for t in &self.left[i] {
                t.add_grad(x, &mut l.a[i * n..(i + 1) * n]);
            }
            for t in &self.right[i] {
                t.add_grad(x, &mut r.a[i * n..(i + 1) * n]);
            }
        }
        (l, r)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Family {
    Affine,
    Mild,
    Wild,
    Atan,
    NoRoot,
    Hostile,
    Singular,
    Constant,
}

/// Well conditioned, non symmetric matrix with shuffled rows (pivoting needed)
fn base_matrix(rng: &mut Rng, n: usize) -> Vec<Vec<f64>> {
    let mut a = vec![vec![0.0; n]; n];
    let off = 0.6 / (n as f64).sqrt();
    for i in 0..n {
        for j in 0..n {
            a[i][j] = if i == j {
                rng.sign() * rng.uniform(1.2, 3.0)
            } else if rng.chance(0.8) {
                rng.uniform(-off, off)
            } else {
                0.0
            };
        }
    }
    let p = rng.perm(n);
    p.iter().map(|&i| a[i].clone()).collect()
}

pub struct Gen {
    pub family: Family,
    pub n: usize,
    /// right members all null
    pub zero_right: bool,
    /// scale rows and columns over orders of magnitude
    pub scaled: bool,
    /// the common value of the two members at the root is away from zero
    pub offset: bool,
    pub mild_eps: f64,
    /// orders of magnitude of the unknowns and of the equations
    pub units: (f64, f64),
}

pub fn generate(rng: &mut Rng, g: &Gen) -> Problem {
    let n = g.n;
    let a = base_matrix(rng, n);
    let row_scale: Vec<f64> = (0..n)
        .map(|_| {
            if g.scaled {
                g.units.1 * 10f64.powf(rng.uniform(-2.0, 2.0))
            } else {
                g.units.1
            }
        })
        .collect();
    let col_scale: Vec<f64> = (0..n)
        .map(|_| {
            if g.scaled {
                g.units.0 * 10f64.powf(rng.uniform(-1.5, 1.5))
            } else {
                g.units.0
            }
        })
        .collect();
    // root in units of the columns: x_j = col_scale_j * u_j
    let root: Vec<f64> = (0..n)
        .map(|j| {
            let u = match rng.below(10) {
                0 => 0.0,
                1 => 1.0,
                _ => rng.uniform(-3.0, 3.0),
            };
            u * col_scale[j]
        })
        .collect();
    let mut left: Vec<Vec<Term>> = vec![vec![]; n];
    let mut right: Vec<Vec<Term>> = vec![vec![]; n];
    for i in 0..n {
        for j in 0..n {
            let c = row_scale[i] * a[i][j] / col_scale[j];
            if c != 0.0 {
                left[i].push(Term::Lin(c, j));
                if !g.zero_right && rng.chance(0.4) {
                    right[i].push(Term::Lin(0.3 * c * rng.uniform(-1.0, 1.0), j));
                }
            }
        }
    }
    let mut has_root = true;
    match g.family {
        Family::Affine => (),
        Family::Mild => {
            for i in 0..n {
                let e = g.mild_eps * row_scale[i] / (n as f64).sqrt();
                for _ in 0..rng.range(1, 3) {
                    let j = rng.below(n);
                    let k = rng.below(n);
                    let (cj, ck) = (col_scale[j], col_scale[k]);
                    let t = match rng.below(4) {
                        0 => Term::Quad(e * rng.uniform(-1.0, 1.0) / (cj * ck), j, k),
                        1 => Term::Sin(e * rng.uniform(-1.0, 1.0), 1.0 / cj, j),
                        2 => Term::Cub(0.2 * e * rng.uniform(-1.0, 1.0) / (cj * cj * cj), j),
                        _ => Term::Atan(e * rng.uniform(-1.0, 1.0), 1.0 / cj, j, root[j]),
                    };
                    if !g.zero_right && rng.chance(0.3) {
                        right[i].push(t);
                    } else {
                        left[i].push(t);
                    }
                }
            }
        }
        Family::Wild => {
            for i in 0..n {
                let e = row_scale[i] * rng.uniform(0.5, 4.0);
                for _ in 0..rng.range(1, 4) {
                    let j = rng.below(n);
                    let k = rng.below(n);
                    let (cj, ck) = (col_scale[j], col_scale[k]);
                    let t = match rng.below(5) {
                        0 => Term::Quad(e * rng.uniform(-1.0, 1.0) / (cj * ck), j, k),
                        1 => Term::Sin(e * rng.uniform(-1.0, 1.0), 3.0 / cj, j),
                        2 => Term::Cub(e * rng.uniform(-1.0, 1.0) / (cj * cj * cj), j),
                        3 => Term::Atan(5.0 * e * rng.uniform(-1.0, 1.0), 4.0 / cj, j, root[j]),
                        _ => Term::Quad(e * rng.uniform(-1.0, 1.0) / (cj * cj), j, j),
                    };
                    if !g.zero_right && rng.chance(0.3) {
                        right[i].push(t);
                    } else {
                        left[i].push(t);
                    }
                }
            }
        }
        Family::Atan => {
            // overshoots from far away: triggers damping
            for i in 0..n {
                left[i].clear();
                right[i].clear();
                let w = rng.uniform(0.8, 2.5) / col_scale[i];
                left[i].push(Term::Atan(row_scale[i] * rng.sign(), w, i, root[i]));
                if n > 1 && rng.chance(0.5) {
                    let j = (i + 1) % n;
                    left[i].push(Term::Atan(
                        0.2 * row_scale[i] * rng.uniform(-1.0, 1.0),
                        1.0 / col_scale[j],
                        j,
                        root[j],
                    ));
                }
            }
        }
        Family::NoRoot => {
            has_root = false;
            for i in 0..n {
                left[i].clear();
                let j = i;
                left[i].push(Term::Quad(row_scale[i] / (col_scale[j] * col_scale[j]), j, j));
                left[i].push(Term::Const(row_scale[i] * rng.uniform(0.5, 2.0)));
                if n > 1 {
                    left[i].push(Term::Lin(0.05 * row_scale[i] / col_scale[(j + 1) % n], (j + 1) % n));
                }
                right[i].clear();
            }
        }
        Family::Hostile => {
            has_root = false;
            for i in 0..n {
                let j = rng.below(n);
                let c = row_scale[i] * rng.uniform(-2.0, 2.0);
                let t = match rng.below(7) {
                    0 => Term::Sqrt(c, j),
                    1 => Term::Ln(c, j),
                    2 => Term::Recip(c, j),
                    3 => Term::Step(4.0 * c, j, root[j]),
                    4 => Term::Exp(c, j),
                    5 => Term::Cub(1e60 * c, j),
                    _ => Term::Const(if rng.chance(0.1) { f64::NAN } else { c * 1e30 }),
                };
                if rng.chance(0.3) {
                    right[i].push(t);
                } else {
                    left[i].push(t);
                }
            }
        }
        Family::Singular => {
            has_root = false;
            let kind = rng.below(3);
            let i = rng.below(n);
            match kind {
                0 => {
                    // null row
                    left[i] = vec![Term::Const(rng.uniform(1.0, 2.0))];
                    right[i].clear();
                }
                1 => {
                    // null column
                    let j = i;
                    for r in left.iter_mut().chain(right.iter_mut()) {
                        r.retain(|t| !matches!(t, Term::Lin(_, k) if *k == j));
                        if r.is_empty() {
                            r.push(Term::Const(0.5));
                        }
                    }
                }
                _ => {
                    // derivative vanishing at some points only
                    left[i] = vec![Term::Quad(1.0, i, i), Term::Const(1.0)];
                    right[i].clear();
                }
            }
        }
        Family::Constant => {
            has_root = false;
            for i in 0..n {
                left[i] = vec![Term::Const(rng.uniform(-1.0, 1.0))];
                right[i].clear();
            }
        }
    }
    // make `root` a root
    if has_root || matches!(g.family, Family::Hostile | Family::Singular) {
        for i in 0..n {
            let rho = if g.zero_right || (g.family == Family::Atan && !g.offset) {
                0.0
            } else if g.offset {
                row_scale[i] * rng.sign() * rng.uniform(8.0, 20.0)
            } else {
                row_scale[i] * rng.uniform(-3.0, 3.0)
            };
            let l = sum(&left[i], &root);
            let r = sum(&right[i], &root);
            if l.is_finite() && rho - l != 0.0 {
                left[i].push(Term::Const(rho - l));
            }
            if !g.zero_right && r.is_finite() && rho - r != 0.0 {
                right[i].push(Term::Const(rho - r));
            }
        }
    }
    Problem {
        n,
        family: match g.family {
            Family::Affine => "affine",
            Family::Mild => "mild",
            Family::Wild => "wild",
            Family::Atan => "atan",
            Family::NoRoot => "noroot",
            Family::Hostile => "hostile",
            Family::Singular => "singular",
            Family::Constant => "constant",
        },
        left,
        right,
        root: if has_root { Some(root) } else { None },
        mem_len: 0,
        mem_gain: 0.0,
        mem_opaque: None,
        units: None,
    }
}
