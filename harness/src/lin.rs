//! Small dense linear algebra of the reference model, independent of nalgebra.

#[derive(Clone, Debug, PartialEq)]
pub struct Mat {
    pub n: usize,
    pub a: Vec<f64>,
}

impl Mat {
    pub fn zeros(n: usize) -> Mat {
        Mat {
            n,
            a: vec![0.0; n * n],
        }
    }
    pub fn at(&self, i: usize, j: usize) -> f64 {
        self.a[i * self.n + j]
    }
    pub fn set(&mut self, i: usize, j: usize, v: f64) {
        self.a[i * self.n + j] = v
    }
    pub fn finite(&self) -> bool {
        self.a.iter().all(|v| v.is_finite())
    }
    pub fn mulv(&self, v: &[f64]) -> Vec<f64> {
        (0..self.n)
            .map(|i| (0..self.n).map(|j| self.at(i, j) * v[j]).sum())
            .collect()
    }
    /// v^T * self
    pub fn vmul(&self, v: &[f64]) -> Vec<f64> {
        (0..self.n)
            .map(|j| (0..self.n).map(|i| v[i] * self.at(i, j)).sum())
            .collect()
    }
    /// self - u w^T / d
    pub fn rank_one_minus(&self, u: &[f64], w: &[f64], d: f64) -> Mat {
        let mut r = self.clone();
        for i in 0..self.n {
            for j in 0..self.n {
                r.a[i * self.n + j] -= u[i] * w[j] / d;
            }
        }
        r
    }
    pub fn norm_inf(&self) -> f64 {
        (0..self.n)
            .map(|i| (0..self.n).map(|j| self.at(i, j).abs()).sum::<f64>())
            .fold(0.0, f64::max)
    }
    pub fn inverse(&self) -> Option<Mat> {
        let n = self.n;
        let mut m = self.clone();
        let mut r = Mat::zeros(n);
        for i in 0..n {
            r.set(i, i, 1.0);
        }
        for c in 0..n {
            let mut p = c;
            for i in c + 1..n {
                if m.at(i, c).abs() > m.at(p, c).abs() {
                    p = i;
                }
            }
            let piv = m.at(p, c);
            if piv == 0.0 || !piv.is_finite() {
                return None;
            }
            if p != c {
                for j in 0..n {
                    m.a.swap(p * n + j, c * n + j);
                    r.a.swap(p * n + j, c * n + j);
                }
            }
            for i in 0..n {
                if i == c {
                    continue;
                }
                let f = m.at(i, c) / piv;
                if f == 0.0 {
                    continue;
                }
                for j in 0..n {
                    let v = m.at(i, j) - f * m.at(c, j);
                    m.set(i, j, v);
                    let v = r.at(i, j) - f * r.at(c, j);
                    r.set(i, j, v);
                }
            }
        }
        for i in 0..n {
            let d = m.at(i, i);
            for j in 0..n {
                let v = r.at(i, j) / d;
                r.set(i, j, v);
            }
        }
        if r.finite() {
            Some(r)
        } else {
            None
        }
    }
    /// infinity-norm condition number after row and column equilibration
    pub fn cond(&self) -> f64 {
        let n = self.n;
        let mut m = self.clone();
        for i in 0..n {
            let s = (0..n).map(|j| m.at(i, j).abs()).fold(0.0, f64::max);
            if s == 0.0 || !s.is_finite() {
                return f64::INFINITY;
            }
            for j in 0..n {
                let v = m.at(i, j) / s;
                m.set(i, j, v);
            }
        }
        for j in 0..n {
            let s = (0..n).map(|i| m.at(i, j).abs()).fold(0.0, f64::max);
            if s == 0.0 || !s.is_finite() {
                return f64::INFINITY;
            }
            for i in 0..n {
                let v = m.at(i, j) / s;
                m.set(i, j, v);
            }
        }
        match m.inverse() {
            Some(inv) => m.norm_inf() * inv.norm_inf(),
            None => f64::INFINITY,
        }
    }
    /// singular for sure, even in floating point: null row or column
    pub fn structurally_singular(&self) -> bool {
        let n = self.n;
        for i in 0..n {
            if (0..n).all(|j| self.at(i, j) == 0.0) || (0..n).all(|j| self.at(j, i) == 0.0) {
                return true;
            }
        }
        false
    }
}

pub fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}
pub fn sub(a: &[f64], b: &[f64]) -> Vec<f64> {
    a.iter().zip(b).map(|(x, y)| x - y).collect()
}
pub fn amax(a: &[f64]) -> f64 {
    a.iter().fold(0.0, |m: f64, v| m.max(v.abs()))
}
