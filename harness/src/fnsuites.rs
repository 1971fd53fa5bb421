//! Suites observing the public functions directly.

use nalgebra::{Const, DMatrix, DVector, Dyn};
use newton_rootfinder as nrf;
use nrf::errors::SolverInternalError;
use nrf::iteratives::{Iterative, IterativeParams, IterativeParamsFD, Iteratives, PerturbationMethod};
use nrf::model::{Model, ModelError};
use nrf::residuals::{
    deriv_normalization, normalization, JacobianValues, NormalizationMethod as NM, ResidualConfig, ResidualsConfig,
    ResidualsValues,
};
use nrf::solver::*;

use crate::lin::{dot, Mat};
use crate::model::{Ev, Fault, Faults, Outcome, RecModel};
use crate::report::{Case, Ctx};
use crate::rng::Rng;
use crate::scen::{gen, gen_params, guarded, Par, Prof};
use crate::spec::{dnorm, norms};

pub const ALL_NORMS: [NM; 3] = [NM::Abs, NM::Rel, NM::Adapt];

fn dvec(v: &[f64]) -> DVector<f64> {
    DVector::from_column_slice(v)
}
fn dmat(m: &Mat) -> DMatrix<f64> {
    DMatrix::from_fn(m.n, m.n, |i, j| m.at(i, j))
}
fn from_dmat(m: &DMatrix<f64>) -> Mat {
    let n = m.nrows();
    let mut r = Mat::zeros(n);
    for i in 0..n {
        for j in 0..n {
            r.set(i, j, m[(i, j)]);
        }
    }
    r
}

/// values with all the interesting signs and magnitudes
pub fn any_value(rng: &mut Rng) -> f64 {
    match rng.below(12) {
        0 => 0.0,
        1 => -0.0,
        2 => 1.0,
        3 => -1.0,
        4 => rng.logmag(-12.0, -3.0),
        5 => rng.logmag(3.0, 12.0),
        6 => {
            let p = *rng.pick(&[60.0, 60.0, 118.0]);
            rng.logmag(-p, p)
        }
        7 => (rng.below(9) as f64 - 4.0) * 0.5,
        _ => rng.uniform(-5.0, 5.0),
    }
}

fn pair(rng: &mut Rng) -> (f64, f64) {
    let l = any_value(rng);
    let r = match rng.below(6) {
        0 => l,
        1 => -l,
        2 => l * (1.0 + 1e-9 * rng.uniform(-1.0, 1.0)),
        3 => 0.0,
        4 if rng.chance(0.2) => return (rng.logmag(-306.0, -280.0), rng.logmag(-306.0, -280.0)),
        _ => any_value(rng),
    };
    if rng.chance(0.5) {
        (l, r)
    } else {
        (r, l)
    }
}

fn close(a: f64, b: f64, tol: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= tol
}

// ---------------------------------------------------------------- C19

pub fn normalization_values(_ctx: &Ctx, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    c.nontrivial = true;
    for _ in 0..3 {
        // members that are not numbers or are infinite: the residual is never satisfied
        let bad = *rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
        let other = if rng.chance(0.2) { *rng.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]) } else { any_value(rng) };
        if bad == other {
            continue;
        }
        let (l, r) = if rng.chance(0.5) { (bad, other) } else { (other, bad) };
        for m in ALL_NORMS {
            let got = normalization(l, r, m);
            c.count("undefined_members", 1);
            let right = if m == NM::Abs { close(got, l - r, 0.0) } else { got.is_nan() };
            if !right {
                c.fail(format!("normalization({:e}, {:e}, {:?}) = {:e}", l, r, m, got));
            }
        }
    }
    for _ in 0..50 {
        let (l, r) = pair(rng);
        for m in ALL_NORMS {
            let got = normalization(l, r, m);
            let want = match m {
                NM::Abs => l - r,
                NM::Rel => (l - r) / ((l + r).abs() / 2.0),
                NM::Adapt => (l - r) / (1.0 + (l + r).abs() / 2.0),
            };
            let here = format!("normalization({:e}, {:e}, {:?}) = {:e}", l, r, m, got);
            c.count("values", 1);
            let tol = 1e-14 * want.abs() + f64::MIN_POSITIVE;
            if l == r {
                c.count("equal_members", 1);
                if got != 0.0 {
                    c.fail(format!("{}, the members being equal", here));
                }
                continue;
            }
            if m == NM::Rel && l + r == 0.0 {
                // (l - r) / 0
                c.count("opposite_members", 1);
                if !(got.is_infinite() && (got > 0.0) == (l > r)) {
                    c.fail(format!("{}, the members being opposite", here));
                }
                continue;
            }
            if !close(got, want, tol) {
                c.fail(format!("{}, expected {:e}", here, want));
            }
            if got != 0.0 && (got > 0.0) != (l > r) {
                c.fail(format!("{}: wrong sign", here));
            }
            if got == 0.0 && (l - r).abs() > 1e-280 {
                c.fail(format!("{}, the members being different", here));
            }
            let sw = normalization(r, l, m);
            if !close(sw, -got, tol) {
                c.fail(format!("{} but {:e} with the members exchanged", here, sw));
            }
            c.mix(m as u64);
            c.mix((l > 0.0) as u64 + 2 * (r > 0.0) as u64 + 4 * (l + r > 0.0) as u64);
            c.mix((l.abs().log10() as i64 + 100) as u64);
        }
    }
    c
}

pub fn residuals_config(_ctx: &Ctx, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    let n = rng.range(1, 15);
    c.nontrivial = true;
    c.mix(n as u64);
    let stop: Vec<NM> = (0..n).map(|_| *rng.pick(&ALL_NORMS)).collect();
    let upd: Vec<NM> = (0..n).map(|_| *rng.pick(&ALL_NORMS)).collect();
    let lr: Vec<(f64, f64)> = (0..n).map(|_| pair(rng)).collect();
    let l: Vec<f64> = lr.iter().map(|p| p.0).collect();
    let r: Vec<f64> = lr.iter().map(|p| p.1).collect();
    c.sample = format!("left {:?} right {:?} stop {:?} update {:?}", l, r, stop, upd);
    for m in stop.iter().chain(&upd) {
        c.mix(*m as u64);
    }
    let (s2, u2) = ResidualsConfig::convert_into_vecs(stop.iter().zip(&upd).map(|(s, u)| ResidualConfig::new(*s, *u)).collect());
    if s2 != stop || u2 != upd {
        c.fail(format!("convert_into_vecs gives {:?} {:?}", s2, u2));
    }
    let rc = ResidualsConfig::new(&stop, &upd);
    let check = |what: &str, got: Vec<f64>, want: Vec<f64>, c: &mut Case| {
        c.count("vectors", 1);
        if got.len() != want.len() {
            c.fail(format!("{}: {} components", what, got.len()));
            return;
        }
        for i in 0..got.len() {
            if !close(got[i], want[i], 1e-13 * want[i].abs() + f64::MIN_POSITIVE) || got[i].is_finite() != want[i].is_finite() {
                c.fail(format!("{}: component {} is {:e}, expected {:e}", what, i, got[i], want[i]));
            }
        }
    };
    let wu = norms(&l, &r, &upd);
    let ws: Vec<f64> = norms(&l, &r, &stop).iter().map(|v| v.abs()).collect();
    let v: ResidualsValues<Dyn> = ResidualsValues::new(dvec(&l), dvec(&r));
    check("update residuals", rc.evaluate_update_residuals(&v).iter().cloned().collect(), wu.clone(), &mut c);
    check("stopping residuals", rc.evaluate_stopping_residuals(&v).iter().cloned().collect(), ws.clone(), &mut c);
    if n == 3 {
        let v: ResidualsValues<Const<3>> = ResidualsValues::new(
            nalgebra::Vector3::from_column_slice(&l),
            nalgebra::Vector3::from_column_slice(&r),
        );
        check("static update residuals", rc.evaluate_update_residuals(&v).iter().cloned().collect(), wu, &mut c);
        check("static stopping residuals", rc.evaluate_stopping_residuals(&v).iter().cloned().collect(), ws, &mut c);
    }
    for i in 0..n {
        if v.get_values(i) != (l[i], r[i]) {
            c.fail(format!("get_values({}) = {:?}", i, v.get_values(i)));
        }
    }
    if rc.len() != n || rc.get_update_methods() != &upd[..] || rc.get_stopping_criterias() != &stop[..] {
        c.fail("the configuration does not give back what it was made of".to_string());
    }
    c
}

// ---------------------------------------------------------------- C06

pub fn normalization_derivatives(_ctx: &Ctx, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    c.nontrivial = true;
    for _ in 0..50 {
        let (l, r) = pair(rng);
        let (dl, dr) = (any_value(rng), any_value(rng));
        if [l, r, dl, dr].iter().any(|v| v.abs() > 1e120 || (*v != 0.0 && v.abs() < 1e-120)) {
            continue;
        }
        for m in ALL_NORMS {
            let got = deriv_normalization(l, r, dl, dr, m);
            let (want, mag) = dnorm(l, r, dl, dr, m);
            let want = match want {
                Some(w) => w,
                None => {
                    c.count("kinks_skipped", 1);
                    continue;
                }
            };
            c.count("derivatives", 1);
            c.mix(m as u64 + 4 * ((l > 0.0) as u64 + 2 * (r > 0.0) as u64 + 4 * (l + r > 0.0) as u64 + 8 * (l > r) as u64));
            // cancellations in l + r are rounding errors of the inputs
            if !close(got, want, 1e-12 * mag + 1e-200) {
                c.fail(format!(
                    "deriv_normalization({:e}, {:e}, {:e}, {:e}, {:?}) = {:e}, expected {:e}",
                    l, r, dl, dr, m, got, want
                ));
            }
            // numerical derivative of the function of the tree
            let scale = (l + r).abs().min(1e6).max(1e-6);
            let speed = dl.abs().max(dr.abs());
            if speed > 0.0 && (l + r).abs() > 1e-6 * (l.abs() + r.abs()) && l.abs() + r.abs() < 1e6 && l.abs() + r.abs() > 1e-4 {
                let h = 1e-3 * scale / speed;
                let f = |t: f64| normalization(l + t * dl, r + t * dr, m);
                let d1 = (f(h) - f(-h)) / (2.0 * h);
                let d2 = (f(h / 2.0) - f(-h / 2.0)) / h;
                let rich = (4.0 * d2 - d1) / 3.0;
                let unit = if m == NM::Abs { 1.0 } else { scale.min(1.0) };
                let noise = 1e-14 * f(0.0).abs().max((l.abs() + r.abs()) / unit) / h;
                let tol = 1e-5 * (got.abs() + mag) + 100.0 * (noise + (d1 - d2).abs() * 0.01);
                c.count("numerical_derivatives", 1);
                if !((rich - got).abs() <= tol) {
                    c.fail(format!(
                        "deriv_normalization({:e}, {:e}, {:e}, {:e}, {:?}) = {:e}, the numerical derivative is {:e}",
                        l, r, dl, dr, m, got, rich
                    ));
                }
            }
        }
    }
    c
}

pub fn jacobian_normalize(_ctx: &Ctx, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    let n = rng.range(1, 8);
    c.nontrivial = true;
    c.mix(n as u64);
    let upd: Vec<NM> = (0..n).map(|_| *rng.pick(&ALL_NORMS)).collect();
    for m in &upd {
        c.mix(*m as u64);
    }
    let val = |rng: &mut Rng| rng.uniform(-4.0, 4.0);
    let l: Vec<f64> = (0..n).map(|_| val(rng)).collect();
    let r: Vec<f64> = (0..n).map(|_| val(rng)).collect();
    let mut jl = Mat::zeros(n);
    let mut jr = Mat::zeros(n);
    for v in jl.a.iter_mut().chain(jr.a.iter_mut()) {
        *v = if rng.chance(0.15) { 0.0 } else { rng.uniform(-3.0, 3.0) };
    }
    c.sample = format!("left {:?} right {:?} update {:?}", l, r, upd);
    let check = |what: &str, got: Vec<f64>, c: &mut Case| {
        // got: row major
        for i in 0..n {
            for j in 0..n {
                let (want, mag) = dnorm(l[i], r[i], jl.at(i, j), jr.at(i, j), upd[i]);
                if let Some(w) = want {
                    c.count("entries", 1);
                    if !close(got[i * n + j], w, 1e-12 * mag) {
                        c.fail(format!("{}: entry ({}, {}) is {:e}, expected {:e}", what, i, j, got[i * n + j], w));
                    }
                }
            }
        }
    };
    let jv = JacobianValues::<Dyn>::new(dmat(&jl), dmat(&jr));
    let g = jv.normalize(&ResidualsValues::new(dvec(&l), dvec(&r)), &upd);
    check("normalize", from_dmat(&g).a, &mut c);
    let (a, b) = jv.get_jacobians();
    if *a != dmat(&jl) || *b != dmat(&jr) {
        c.fail("get_jacobians does not give the given jacobians".to_string());
    }
    if n == 2 {
        let jv = JacobianValues::<Const<2>>::new(
            nalgebra::Matrix2::from_row_slice(&jl.a),
            nalgebra::Matrix2::from_row_slice(&jr.a),
        );
        let g = jv.normalize(
            &ResidualsValues::new(nalgebra::Vector2::from_column_slice(&l), nalgebra::Vector2::from_column_slice(&r)),
            &upd,
        );
        check("static normalize", vec![g[(0, 0)], g[(0, 1)], g[(1, 0)], g[(1, 1)]], &mut c);
    }
    c
}

/// The exact jacobian put in a `JacobianMatrix` from a model, against a numerical derivative
pub fn analytic_vs_numeric(_ctx: &Ctx, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    let prof = Prof {
        families: vec![(crate::prob::Family::Mild, 0.6), (crate::prob::Family::Wild, 0.4)],
        norms: 1.0,
        big_n: 0.0,
        memory: 0.0,
        units: 0.0,
        ..Prof::default()
    };
    let scn = gen(rng, &prof);
    let n = scn.n;
    c.sample = scn.describe();
    let mut m = RecModel::new(Dyn(n), scn.prob.clone(), true, Faults::default());
    m.set_iteratives(&dvec(&scn.guess));
    let _ = m.evaluate();
    let rc = ResidualsConfig::new(&scn.stop, &scn.upd);
    let mut jm = JacobianMatrix::new();
    let (l, r) = scn.prob.eval(&scn.guess);
    let (jl, jr) = scn.prob.jac(&scn.guess);
    let mut want = Mat::zeros(n);
    let mut mags = Mat::zeros(n);
    for i in 0..n {
        for j in 0..n {
            match dnorm(l[i], r[i], jl.at(i, j), jr.at(i, j), scn.upd[i]) {
                (Some(v), mag) => {
                    want.set(i, j, v);
                    mags.set(i, j, mag);
                }
                _ => return c,
            }
        }
    }
    if !want.finite() || want.cond() > 1e6 {
        return c;
    }
    // rows made of rounding errors only: the normalized residual is constant
    if (0..n).any(|i| (0..n).all(|j| want.at(i, j).abs() <= 1e-8 * mags.at(i, j))) {
        c.count("constant_residuals_skipped", 1);
        return c;
    }
    match evaluate_jacobian_from_analytical_function(&mut jm, &mut m, &rc) {
        Ok(()) => (),
        Err(_) => {
            c.fail(format!("a well conditioned jacobian is reported as an error {:?} {:?}", want, want.cond()));
            return c;
        }
    }
    let got = from_dmat(jm.get_jacobian().as_ref().unwrap());
    for i in 0..n {
        for j in 0..n {
            c.count("entries", 1);
            let e = if l[i] + r[i] != 0.0 { (l[i].abs() + r[i].abs()) / (l[i] + r[i]).abs() } else { 1.0 };
            if !(e * mags.at(i, j)).is_finite() {
                c.count("undefined_scales_skipped", 1);
                continue;
            }
            if !close(got.at(i, j), want.at(i, j), 1e-11 * e * mags.at(i, j) + 1e-200) {
                c.fail(format!(
                    "jacobian ({}, {}) is {:e}, the derivative is {:e} ({:?}, left {:e}, right {:e})",
                    i, j, got.at(i, j), want.at(i, j), scn.upd[i], l[i], r[i]
                ));
            }
        }
    }
    // the derivative itself, numerically, in one direction per column
    for j in 0..n {
        let sc = scn.guess[j].abs().max(1e-2);
        let h = 1e-4 * sc;
        let f = |t: f64| -> Vec<f64> {
            let mut x = scn.guess.clone();
            x[j] += t;
            let (l, r) = scn.prob.eval(&x);
            (0..n).map(|i| normalization(l[i], r[i], scn.upd[i])).collect()
        };
        let (p, q, p2, q2) = (f(h), f(-h), f(h / 2.0), f(-h / 2.0));
        let sums = |t: f64| -> Vec<f64> {
            let mut x = scn.guess.clone();
            x[j] += t;
            let (l, r) = scn.prob.eval(&x);
            (0..n).map(|i| l[i] + r[i]).collect()
        };
        let (sp, sq) = (sums(h), sums(-h));
        for i in 0..n {
            // a pole or a kink of the normalization close to the guess
            let m0 = l[i] + r[i];
            if scn.upd[i] != NM::Abs && !((sp[i] - m0).abs() < 0.1 * m0.abs() && (sq[i] - m0).abs() < 0.1 * m0.abs()) {
                c.count("near_poles_skipped", 1);
                continue;
            }
            let d1 = (p[i] - q[i]) / (2.0 * h);
            let d2 = (p2[i] - q2[i]) / h;
            let rich = (4.0 * d2 - d1) / 3.0;
            let near_kink = (l[i] + r[i]).abs() < 0.05 * (l[i].abs() + r[i].abs());
            if near_kink || !rich.is_finite() || !(l[i] + r[i] != 0.0) || !mags.at(i, j).is_finite() {
                c.count("near_kinks_skipped", 1);
                continue;
            }
            let e = (l[i].abs() + r[i].abs()) / (l[i] + r[i]).abs();
            let rounding = 1e-13 * e * (p[i].abs() + l[i].abs() + r[i].abs() + 0.1) / h;
            let tol = 3e-4 * (d1.abs() + d2.abs()) + 5.0 * (d1 - d2).abs() + rounding + 1e-6 * mags.at(i, j);
            c.count("numerical_derivatives", 1);
            if !((rich - got.at(i, j)).abs() <= tol) {
                c.fail(format!(
                    "jacobian ({}, {}) is {:e}, the numerical derivative is {:e} +- {:.1e}",
                    i, j, got.at(i, j), rich, tol
                ));
            }
        }
    }
    let inv = from_dmat(jm.get_inverse().as_ref().unwrap());
    inverse_check(&got, &inv, &mut c);
    if jm.is_jacobian_approximated() {
        c.fail("an exact jacobian is said to be approximated".to_string());
    }
    c.nontrivial = true;
    c.mix(n as u64);
    for m in &scn.upd {
        c.mix(*m as u64);
    }
    for i in 0..n {
        c.mix((l[i] > 0.0) as u64 + 2 * (r[i] > 0.0) as u64 + 4 * (l[i] + r[i] > 0.0) as u64);
    }
    c
}

pub fn inverse_check(j: &Mat, inv: &Mat, c: &mut Case) {
    let n = j.n;
    let want = match j.inverse() {
        Some(w) => w,
        None => return,
    };
    let k = j.cond();
    // backward error of an elimination with row pivoting: relative to the columns
    let colmax: Vec<f64> = (0..n).map(|b| (0..n).map(|a| j.at(a, b).abs()).fold(0.0, f64::max)).collect();
    for i in 0..n {
        let row: f64 = (0..n).map(|a| want.at(i, a).abs()).sum();
        for q in 0..n {
            let bound: f64 = row * (0..n).map(|b| colmax[b] * want.at(b, q).abs()).sum::<f64>();
            c.count("inverse_entries", 1);
            if !((inv.at(i, q) - want.at(i, q)).abs() <= 1e-13 * (n as f64) * bound * k.max(1.0)) {
                c.fail(format!(
                    "inverse ({}, {}) is {:e}, expected {:e}",
                    i, q, inv.at(i, q), want.at(i, q)
                ));
            }
        }
    }
}

// ---------------------------------------------------------------- C05

pub fn fd_direct(_ctx: &Ctx, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    let prof = Prof {
        big_dx: 0.5,
        memory: 0.4,
        big_n: 0.2,
        norms: 0.7,
        ..Prof::default()
    };
    let mut scn = gen(rng, &prof);
    let n = scn.n;
    match rng.below(12) {
        // a perturbed unknown exactly at zero, or at the opposite
        0 => {
            let j = rng.below(n);
            scn.guess[j] = -scn.params[j].dx_abs * *rng.pick(&[1.0, 0.5, 2.0]);
        }
        // perturbation lost in the rounding of the unknown
        1 => {
            let j = rng.below(n);
            scn.guess[j] = rng.sign() * 10f64.powf(rng.uniform(9.0, 15.0));
            scn.params[j].dx_rel = 1e-18;
        }
        // perturbation beyond the largest number
        2 if rng.chance(0.2) => {
            let j = rng.below(n);
            scn.guess[j] = rng.sign() * f64::MAX * rng.uniform(0.6, 1.0);
            scn.params[j].dx_rel = rng.uniform(0.1, 1.5);
        }
        _ => (),
    }
    c.sample = scn.describe();
    let kind = rng.below(6);
    let mut faults = Faults::default();
    let mut unusable = None;
    if kind == 0 {
        for _ in 0..rng.range(1, 4) {
            faults.evals.insert(1 + rng.range(1, n), Fault::Inaccurate);
        }
    } else if kind == 1 {
        let k = 1 + rng.range(1, n);
        faults.evals.insert(k, Fault::Unusable);
        unusable = Some(k - 1);
    }
    let mut m = RecModel::new(Dyn(n), scn.prob.clone(), false, faults.clone());
    m.set_iteratives(&dvec(&scn.guess));
    let _ = m.evaluate();
    let mem0 = m.mem.clone();
    let (l0, r0): (Vec<f64>, Vec<f64>) = (m.left.iter().cloned().collect(), m.right.iter().cloned().collect());
    let f0 = norms(&l0, &r0, &scn.upd);
    m.trace.borrow_mut().clear();
    let rc = ResidualsConfig::new(&scn.stop, &scn.upd);
    let x0 = scn.guess.clone();
    let mut dx: Vec<f64> = scn.params.iter().zip(&x0).map(|(p, x)| p.dx(*x)).collect();
    let through_solver = rng.chance(0.5);
    if !through_solver && rng.chance(0.2) {
        // the caller of the function chooses any perturbation
        for d in dx.iter_mut() {
            *d *= rng.sign();
        }
    }
    let mut jm = JacobianMatrix::new();
    let res: Result<Option<Mat>, (bool, String)> = if through_solver {
        let ps: Vec<IterativeParamsFD> = scn.params.iter().map(|p| p.fd()).collect();
        let it = Iteratives::new(&ps);
        match evaluate_jacobian_from_finite_difference(&mut jm, &mut m, &it, &rc) {
            Ok(()) => Ok(Some(from_dmat(jm.get_jacobian().as_ref().unwrap()))),
            Err(SolverInternalError::InvalidJacobianError(e)) => Err((true, e.to_string())),
            Err(SolverInternalError::InvalidJacobianInverseError) => Ok(None),
        }
    } else {
        match compute_jacobian_from_finite_difference(&mut m, &dvec(&dx), &rc) {
            Ok(j) => Ok(Some(from_dmat(&j))),
            Err(e) => Err((matches!(e, ModelError::UnusableValuesError(_)), e.to_string())),
        }
    };
    let trace = m.trace.borrow().clone();
    let evals: Vec<&Ev> = trace.iter().filter(|e| matches!(e, Ev::Eval { .. })).collect();
    c.evaluations = evals.len() as u64;
    c.count("columns", evals.len() as u64);
    c.nontrivial = true;
    c.mix(n as u64);
    c.mix(kind as u64);
    c.mix(through_solver as u64);
    c.mix(mem0.len() as u64);
    for p in &scn.params {
        c.mix(p.sum as u64);
    }
    // columns seen at the model boundary
    let mut cols: Vec<Option<Vec<f64>>> = vec![None; n];
    let mut f1s: Vec<Option<Vec<f64>>> = vec![None; n];
    for e in &evals {
        if let Ev::Eval { x, l, r, mem_before, .. } = e {
            let moved: Vec<usize> = (0..n).filter(|&j| x[j].to_bits() != x0[j].to_bits()).collect();
            // a move below the rounding of the unknown
            if moved.len() > 1 {
                c.fail(format!("several unknowns moved at once: {:?} from {:?}", x, x0));
                continue;
            }
            let j = match moved.first() {
                Some(j) => *j,
                None => match (0..n).find(|&j| cols[j].is_none() && x0[j] + dx[j] == x0[j]) {
                    Some(j) => j,
                    None => {
                        c.fail(format!("evaluation at the reference point {:?}", x));
                        continue;
                    }
                },
            };
            if (x[j] - (x0[j] + dx[j])).abs() > 4.0 * f64::EPSILON * x0[j].abs() + 4.0 * f64::EPSILON * dx[j].abs() {
                c.fail(format!("unknown {} moved by {:e}, its perturbation is {:e}", j, x[j] - x0[j], dx[j]));
            }
            if cols[j].is_some() {
                c.fail(format!("unknown {} perturbed twice", j));
            }
            if mem_before.iter().zip(&mem0).any(|(a, b)| a.to_bits() != b.to_bits()) {
                c.fail(format!("column {} starts from the memory {:?}, not {:?}", j, mem_before, mem0));
            }
            if !mem0.is_empty() {
                c.count("memory_checks", 1);
            }
            let f1 = norms(l, r, &scn.upd);
            cols[j] = Some((0..n).map(|i| (f1[i] - f0[i]) / dx[j]).collect());
            f1s[j] = Some(f1);
        }
    }
    match (&res, unusable) {
        (Err((unus, msg)), Some(_)) => {
            c.count("unusable_columns", 1);
            if !*unus || !msg.contains("mfault-unusable") {
                c.fail(format!("unusable column reported as {:?}", msg));
            }
            let k = evals.iter().position(|e| matches!(e, Ev::Eval { out: Outcome::Unusable, .. }));
            if k != Some(evals.len() - 1) {
                c.fail("evaluations after an unusable column".to_string());
            }
            return done(c, &scn, &trace);
        }
        (Err(e), None) => {
            c.fail(format!("finite differences refused: {:?}", e));
            return done(c, &scn, &trace);
        }
        (Ok(_), Some(_)) => {
            c.fail("unusable column ignored".to_string());
            return done(c, &scn, &trace);
        }
        _ => (),
    }
    if evals.len() != n {
        c.fail(format!("{} evaluations for {} unknowns", evals.len(), n));
    }
    if kind == 0 {
        c.count("inaccurate_columns", 1);
    }
    if let Ok(Some(jac)) = &res {
        for j in 0..n {
            if let (Some(col), Some(f1)) = (&cols[j], &f1s[j]) {
                for i in 0..n {
                    let tol = 1e-14 * (f1[i].abs() + f0[i].abs()) / dx[j].abs() + 1e-300;
                    c.count("entries", 1);
                    if !close(jac.at(i, j), col[i], tol) {
                        c.fail(format!(
                            "entry ({}, {}) is {:e}, the forward difference is {:e} (dx {:e})",
                            i, j, jac.at(i, j), col[i], dx[j]
                        ));
                    }
                }
            }
        }
        if through_solver && jac.finite() && jac.cond() < 1e5 {
            inverse_check(jac, &from_dmat(jm.get_inverse().as_ref().unwrap()), &mut c);
        }
    } else if through_solver {
        c.count("not_invertible", 1);
        if cols.iter().all(|k| k.is_some()) {
            let mut j = Mat::zeros(n);
            for (q, col) in cols.iter().enumerate() {
                for i in 0..n {
                    j.set(i, q, col.as_ref().unwrap()[i]);
                }
            }
            if j.finite() && j.cond() < 1e8 {
                c.fail("a well conditioned jacobian is reported as not invertible".to_string());
            }
        }
    }
    done(c, &scn, &trace)
}

fn done(mut c: Case, scn: &crate::scen::Scn, trace: &[Ev]) -> Case {
    if !c.violations.is_empty() {
        c.details = format!("{:#?}\n{:#?}", scn, trace);
    }
    c
}

pub fn perturbations(_ctx: &Ctx, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    c.nontrivial = true;
    let n = rng.range(1, 12);
    let mut pars = Vec::new();
    for _ in 0..n {
        let mut p = Par::free();
        p.dx_abs = 10f64.powf(rng.uniform(-12.0, 2.0));
        p.dx_rel = 10f64.powf(rng.uniform(-12.0, 2.0));
        p.sum = rng.chance(0.5);
        pars.push(p);
    }
    let fds: Vec<IterativeParamsFD> = pars
        .iter()
        .map(|p| {
            if rng.chance(0.5) {
                p.fd()
            } else {
                IterativeParamsFD::extend(
                    p.jac(),
                    p.dx_abs,
                    p.dx_rel,
                    if p.sum { PerturbationMethod::Sum } else { PerturbationMethod::Max },
                )
            }
        })
        .collect();
    let x: Vec<f64> = (0..n).map(|_| any_value(rng)).collect();
    c.sample = format!("x {:?} {:?}", x, pars);
    let it = Iteratives::new(&fds);
    let d = it.compute_perturbations(&dvec(&x));
    for j in 0..n {
        let want = pars[j].dx(x[j]);
        c.count("perturbations", 2);
        c.mix(pars[j].sum as u64 + 2 * (x[j] > 0.0) as u64 + 4 * (pars[j].dx_rel * x[j].abs() > pars[j].dx_abs) as u64);
        let own = fds[j].compute_perturbation(x[j]);
        for (w, got) in [("compute_perturbations", d[j]), ("compute_perturbation", own)] {
            if !((got - want).abs() <= 4e-16 * want) {
                c.fail(format!("{}: unknown {} at {:e}: {:e}, expected {:e} ({:?})", w, j, x[j], got, want, pars[j]));
            }
        }
    }
    c
}

// ---------------------------------------------------------------- C11

pub fn limitations(_ctx: &Ctx, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    c.nontrivial = true;
    let n = rng.range(1, 10);
    let prof = Prof { limits: 1.0, ..Prof::default() };
    let x: Vec<f64> = (0..n)
        .map(|_| match rng.below(6) {
            0 => 0.0,
            _ => rng.logmag(-3.0, 3.0),
        })
        .collect();
    let root: Vec<f64> = x.iter().map(|v| v + rng.logmag(-3.0, 2.0)).collect();
    let mut pars = gen_params(rng, &prof, &root, &x, 1.0);
    for p in pars.iter_mut() {
        // bounds everywhere, the current value sometimes outside
        match rng.below(8) {
            0 => {
                p.min = 1.0;
                p.max = 2.0;
            }
            1 => {
                p.min = -2.0;
                p.max = -1.0;
            }
            2 => p.max_rel = rng.uniform(1e-3, 3.0),
            _ => (),
        }
    }
    let raw: Vec<f64> = (0..n)
        .map(|_| match rng.below(8) {
            0 => 0.0,
            1 => f64::INFINITY * rng.sign(),
            2 => rng.logmag(-12.0, -4.0),
            _ => rng.logmag(-3.0, 4.0),
        })
        .collect();
    c.sample = format!("x {:?} raw {:?} {:?}", x, raw, pars);
    let jac: Vec<IterativeParams> = pars.iter().map(|p| p.jac()).collect();
    let fd: Vec<IterativeParamsFD> = pars.iter().map(|p| p.fd()).collect();
    let a = Iteratives::new(&jac).step_limitations(&dvec(&x), &dvec(&raw));
    let b = Iteratives::new(&fd).step_limitations(&dvec(&x), &dvec(&raw));
    for j in 0..n {
        let p = &pars[j];
        for (w, y) in [
            ("Iteratives<IterativeParams>", a[j]),
            ("Iteratives<IterativeParamsFD>", b[j]),
            ("IterativeParams", jac[j].step_limitation(x[j], raw[j])),
            ("IterativeParamsFD", fd[j].step_limitation(x[j], raw[j])),
        ] {
            c.count("limitations", 1);
            limit_check(w, p, x[j], raw[j], y, &mut c);
        }
    }
    c
}

fn limit_check(w: &str, p: &Par, x: f64, raw: f64, y: f64, c: &mut Case) {
    let here = format!("{}: from {:e} by {:e} with {:?}: {:e}", w, x, raw, p, y);
    if raw.is_infinite() && p.max_move(x).is_infinite() {
        return;
    }
    if !(y >= p.min && y <= p.max) {
        c.fail(format!("{}: outside of the bounds", here));
        return;
    }
    let inside = x >= p.min && x <= p.max;
    let m = p.max_move(x);
    let ulp = 4.0 * f64::EPSILON * (x.abs() + y.abs());
    c.mix(inside as u64 + 2 * (raw.abs() > m) as u64 + 4 * (raw > 0.0) as u64);
    if inside {
        if (y - x).abs() > m + ulp {
            c.fail(format!("{}: moved by {:e}, at most {:e} is allowed", here, (y - x).abs(), m));
        }
        if (y - x) * raw.signum() < -ulp {
            c.fail(format!("{}: opposite direction", here));
        }
        c.count("from_inside", 1);
    } else {
        c.count("from_outside", 1);
    }
    let free = x + raw;
    if raw.abs() <= m && free >= p.min && free <= p.max {
        c.count("unlimited", 1);
        if !close(y, free, ulp) {
            c.fail(format!("{}: altered without need, {:e} expected", here, free));
        }
    }
    let want = p.limited(x, raw);
    if !close(y, want, ulp) {
        c.fail(format!("{}: expected {:e}", here, want));
    }
}

// ---------------------------------------------------------------- C07, C08

fn good_matrix(rng: &mut Rng, n: usize) -> Mat {
    let p = rng.perm(n);
    let mut m = Mat::zeros(n);
    for i in 0..n {
        for j in 0..n {
            m.set(
                p[i],
                j,
                if i == j { rng.sign() * rng.uniform(1.5, 3.0) } else { rng.uniform(-0.5, 0.5) / (n as f64).sqrt() },
            );
        }
    }
    m
}

/// reference: updated jacobian by the documented general formula
/// J - (J s - y) c' J / (c' J s)
fn ref_jac(j: &Mat, s: &[f64], y: &[f64], c: &[f64]) -> (Mat, f64) {
    let js = j.mulv(s);
    let u: Vec<f64> = js.iter().zip(y).map(|(a, b)| a - b).collect();
    let w = j.vmul(c);
    let d = dot(&w, s);
    let amp = dot(&w.iter().map(|v| v.abs()).collect::<Vec<_>>(), &s.iter().map(|v| v.abs()).collect::<Vec<_>>()) / d.abs();
    (j.rank_one_minus(&u, &w, d), amp)
}
/// H - (H y - s) c' / (c' y)
fn ref_inv(h: &Mat, s: &[f64], y: &[f64], c: &[f64]) -> (Mat, f64) {
    let hy = h.mulv(y);
    let u: Vec<f64> = hy.iter().zip(s).map(|(a, b)| a - b).collect();
    let d = dot(c, y);
    let amp = dot(&c.iter().map(|v| v.abs()).collect::<Vec<_>>(), &y.iter().map(|v| v.abs()).collect::<Vec<_>>()) / d.abs();
    (h.rank_one_minus(&u, c, d), amp)
}
fn tmulv(m: &Mat, v: &[f64]) -> Vec<f64> {
    m.vmul(v)
}

const METHODS: [UpdateQuasiNewtonMethod; 4] = [
    UpdateQuasiNewtonMethod::BroydenFirstMethod,
    UpdateQuasiNewtonMethod::BroydenSecondMethod,
    UpdateQuasiNewtonMethod::GreenstadtFirstMethod,
    UpdateQuasiNewtonMethod::GreenstadtSecondMethod,
];

pub fn update_formulas(ctx: &Ctx, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    let n = if rng.chance(0.1) { *rng.pick(&[10, 12, 16, 20]) } else { rng.range(1, 8) };
    let mut j = good_matrix(rng, n);
    let unit = if rng.chance(0.3) { 10f64.powf(rng.uniform(-6.0, 6.0)) } else { 1.0 };
    for v in j.a.iter_mut() {
        *v *= unit;
    }
    let h = match j.inverse() {
        Some(h) => h,
        None => return c,
    };
    let sc = 10f64.powf(if rng.chance(0.2) { rng.uniform(-14.0, 8.0) } else { rng.uniform(-6.0, 3.0) });
    let s: Vec<f64> = (0..n).map(|_| sc * rng.uniform(-1.0, 1.0)).collect();
    // y close to J s: a realistic update
    let eps = *rng.pick(&[1e-3, 0.05, 0.3]);
    let js = j.mulv(&s);
    let size = js.iter().fold(0.0f64, |m, v| m.max(v.abs()));
    let y: Vec<f64> = js.iter().map(|v| v + eps * size * rng.uniform(-1.0, 1.0)).collect();
    let f: Vec<f64> = (0..n).map(|_| size * rng.uniform(-1.0, 1.0)).collect();
    c.mix(n as u64);
    c.mix((sc.log10() + 20.0) as u64);
    c.mix((unit.log10() + 10.0) as u64);
    c.mix((eps * 1e4) as u64);
    c.sample = format!("n={} s={:?} y={:?}", n, s, y);
    let (jn, hn) = (dmat(&j), dmat(&h));
    let (sn, yn, fnn) = (dvec(&s), dvec(&y), dvec(&f));
    let hy = h.mulv(&y);
    for (k, method) in METHODS.iter().enumerate() {
        // documented choice of c
        let cv: Vec<f64> = match k {
            0 => tmulv(&h, &s),
            1 => y.clone(),
            2 => f.clone(),
            _ => tmulv(&h, &hy),
        };
        let (wj, a1) = ref_jac(&j, &s, &y, &cv);
        let (wh, a2) = ref_inv(&h, &s, &y, &cv);
        if !(a1 < 200.0) || !(a2 < 200.0) {
            c.count("ill_conditioned_updates", 1);
            continue;
        }
        c.nontrivial = true;
        let cn = dvec(&cv);
        let mut jm = JacobianMatrix::new();
        let _ = jm.update_jacobian_with_exact_value(jn.clone());
        let ok = approximate_jacobian(&mut jm, *method, &sn, &yn, &fnn).is_ok();
        let mut hm = JacobianMatrix::new();
        let _ = hm.update_jacobian_with_exact_value(jn.clone());
        approximate_inv_jacobian(&mut hm, *method, &sn, &yn, &fnn);
        let mut js: Vec<(&str, Mat)> = vec![("quasi_method_update_jac", from_dmat(&quasi_method_update_jac(&jn, &sn, &yn, &cn)))];
        let mut hs: Vec<(&str, Mat)> = vec![
            ("quasi_method_update_inv_jac", from_dmat(&quasi_method_update_inv_jac(&hn, &sn, &yn, &cn))),
        ];
        match hm.get_inverse() {
            Some(m) => hs.push(("approximate_inv_jacobian", from_dmat(m))),
            None => c.fail("approximate_inv_jacobian gives no inverse".to_string()),
        }
        match (ok, jm.get_jacobian(), jm.get_inverse()) {
            (true, Some(a), Some(b)) => {
                js.push(("approximate_jacobian", from_dmat(a)));
                if wj.cond() < 1e4 {
                    inverse_check(&from_dmat(a), &from_dmat(b), &mut c);
                }
            }
            _ => {
                if wj.cond() < 1e6 {
                    c.fail(format!("approximate_jacobian({:?}) gives no jacobian", method));
                }
            }
        }
        if !jm.is_jacobian_approximated() || !hm.is_jacobian_approximated() {
            c.fail(format!("{:?}: an updated matrix is said to be exact", method));
        }
        match k {
            0 => {
                js.push(("broyden_first_method_udpate_jac", from_dmat(&broyden_first_method_udpate_jac(&jn, &sn, &yn))));
                hs.push(("broyden_first_method_udpate_inv_jac", from_dmat(&broyden_first_method_udpate_inv_jac(&hn, &sn, &yn))));
            }
            1 => {
                js.push(("broyden_second_method_udpate_jac", from_dmat(&broyden_second_method_udpate_jac(&jn, &sn, &yn))));
                hs.push(("broyden_second_method_udpate_inv_jac", from_dmat(&broyden_second_method_udpate_inv_jac(&hn, &sn, &yn))));
            }
            3 => js.push((
                "greenstadt_second_method_udpate_jac",
                from_dmat(&greenstadt_second_method_udpate_jac(&jn, &sn, &yn, &dvec(&hy))),
            )),
            _ => (),
        }
        let amp = a1.max(a2);
        for (set, want, from, to, what) in [(&js, &wj, &s, &y, "J s"), (&hs, &wh, &y, &s, "H y")] {
            let scale = want.a.iter().chain(if what == "J s" { &j.a } else { &h.a }).fold(0.0f64, |m, v| m.max(v.abs()));
            for (name, m) in set {
                if ctx.prop == "C08" {
                    continue;
                }
                c.count("updates", 1);
                let tol = 1e-12 * amp * amp * scale * (n as f64);
                for q in 0..n * n {
                    if !close(m.a[q], want.a[q], tol) {
                        c.fail(format!(
                            "{} ({:?}): entry ({}, {}) is {:e}, the documented formula gives {:e}",
                            name, method, q / n, q % n, m.a[q], want.a[q]
                        ));
                        break;
                    }
                }
                let p = m.mulv(from);
                let fs = from.iter().fold(0.0f64, |a, v| a.max(v.abs()));
                for i in 0..n {
                    c.count("secant_components", 1);
                    if !close(p[i], to[i], tol * fs * n as f64) {
                        c.fail(format!("{} ({:?}): {} is {:?}, expected {:?}", name, method, what, p, to));
                        break;
                    }
                }
            }
        }
        if ctx.prop == "C08" && wj.cond() < 1e4 {
            // the two variants are the inverses of each other
            for (nj, mj) in &js {
                for (nh, mh) in &hs {
                    c.count("inverse_pairs", 1);
                    let tol = 1e-11 * amp * amp * wj.cond();
                    for q in 0..n {
                        let col: Vec<f64> = (0..n).map(|i| mh.at(i, q)).collect();
                        let p = mj.mulv(&col);
                        for i in 0..n {
                            let e = if i == q { 1.0 } else { 0.0 };
                            if !close(p[i], e, tol) {
                                c.fail(format!(
                                    "{:?}: {} and {} are not inverse of each other: product ({}, {}) is {:e}",
                                    method, nj, nh, i, q, p[i]
                                ));
                                return c;
                            }
                        }
                    }
                }
            }
        }
    }
    c
}

// ---------------------------------------------------------------- C21

pub fn one_dimensional(_ctx: &Ctx, rng: &mut Rng) -> Case {
    use util::solver_one_dimensional::{solver1d, solver1d_fd};
    let mut c = Case::default();
    thread_local! {
        static K: std::cell::RefCell<(usize, [f64; 4], Vec<f64>, Vec<f64>)> = std::cell::RefCell::new((0, [0.0; 4], vec![], vec![]));
        static CALLS: std::cell::Cell<usize> = std::cell::Cell::new(0);
    }
    fn raw(k: usize, p: &[f64; 4], x: f64) -> f64 {
        match k {
            0 => p[0] * x * x + p[1] * x + p[2],
            1 => p[0] * (p[1] * x).sin() + p[2] * x + p[3],
            2 => p[0] * (x - p[1]).atan(),
            3 => p[0] * (0.3 * x).exp() - p[1].abs() - 0.1,
            // multiple roots: slow, and still accurate
            5 => p[0] * x * x * x,
            6 => p[0] * x * x,
            // undefined on the left, where the steps easily lead
            7 => p[0] * x.ln() + p[3],
            // steps: the slope is zero nearly everywhere
            8 => p[0] * x.floor() + p[3],
            _ => p[0] * x + p[1],
        }
    }
    fn f(x: f64) -> f64 {
        K.with(|k| {
            let mut k = k.borrow_mut();
            if k.2.len() >= CALLS.with(|c| c.get()) {
                panic!("the function is evaluated more often than max_iter allows");
            }
            k.2.push(x);
            raw(k.0, &k.1, x)
        })
    }
    fn d(x: f64) -> f64 {
        K.with(|k| {
            let mut k = k.borrow_mut();
            if k.3.len() >= CALLS.with(|c| c.get()) {
                panic!("the derivative is evaluated more often than max_iter allows");
            }
            k.3.push(x);
            let p = k.1;
            match k.0 {
                0 => 2.0 * p[0] * x + p[1],
                1 => p[0] * p[1] * (p[1] * x).cos() + p[2],
                2 => p[0] / (1.0 + (x - p[1]) * (x - p[1])),
                3 => 0.3 * p[0] * (0.3 * x).exp(),
                5 => 3.0 * p[0] * x * x,
                6 => 2.0 * p[0] * x,
                7 => p[0] / x,
                8 => 0.0,
                _ => p[0],
            }
        })
    }
    let kind = rng.below(9);
    let p = [rng.uniform(-3.0, 3.0), rng.uniform(-3.0, 3.0), rng.uniform(-3.0, 3.0), rng.uniform(-1.0, 1.0)];
    let guess = match kind {
        7 => rng.uniform(0.01, 20.0),
        8 if rng.chance(0.5) => rng.range(0, 8) as f64 - 4.0,
        _ => rng.uniform(-4.0, 4.0),
    };
    let tol = *rng.pick(&[1e-6, 1e-10, 1e-3, 0.0, 5.0]);
    let max_iter = *rng.pick(&[0, 1, 2, 5, 20, 50, 130, 300]);
    let dx = 10f64.powf(rng.uniform(-8.0, -1.0));
    let fd = rng.chance(0.5);
    c.sample = format!("kind {} parameters {:?} guess {} tol {} max_iter {} fd {} dx {}", kind, p, guess, tol, max_iter, fd, dx);
    K.with(|k| *k.borrow_mut() = (kind, p, vec![], vec![]));
    CALLS.with(|k| k.set(2 * max_iter + 8));
    let got = match crate::scen::guarded(|| if fd { solver1d_fd(guess, f, max_iter, tol, dx) } else { solver1d(guess, f, d, max_iter, tol) }) {
        Ok(x) => x,
        Err(m) => {
            c.nontrivial = true;
            c.fail(m);
            return c;
        }
    };
    CALLS.with(|k| k.set(usize::MAX));
    let (evals, derivs) = K.with(|k| {
        let k = k.borrow();
        (k.2.clone(), k.3.clone())
    });
    c.evaluations = evals.len() as u64;
    // reference trajectories, with slightly different roundings
    let g = |x: f64| raw(kind, &p, x);
    let mut trajs: Vec<Vec<f64>> = Vec::new();
    for m in 0..6 {
        let mut noise = |s: f64| if m == 0 { 1.0 } else { 1.0 + s * rng.uniform(-1.0, 1.0) };
        let mut x = guess;
        let mut t = vec![x];
        let mut e = g(x);
        while e.abs() > tol * if tol > 1.0 { 1.0 } else { noise(1e-9) } && t.len() <= max_iter {
            let slope = if fd { (g(x + dx) * noise(3e-16) - e) / dx } else { d(x) };
            x -= e / slope * noise(4e-16);
            t.push(x);
            if !x.is_finite() {
                break;
            }
            e = g(x);
        }
        trajs.push(t);
    }
    let iter = trajs[0].len() - 1;
    c.nontrivial = iter > 0;
    c.mix(kind as u64);
    c.mix(fd as u64);
    c.mix(iter as u64);
    c.mix(max_iter as u64);
    let mut pos = 0;
    for k in 0..=iter {
        let spread = match trajs.iter().map(|t| t.get(k).map(|v| (v - trajs[0][k]).abs())).collect::<Option<Vec<f64>>>() {
            Some(v) => v.iter().fold(0.0f64, |m, x| m.max(*x)),
            None => {
                c.count("sensitive_iterations", 1);
                return c;
            }
        };
        let want = trajs[0][k];
        if !want.is_finite() {
            // a zero slope: whatever follows, the function is asked for its value there
            if trajs.iter().all(|t| t.len() == k + 1 && !t[k].is_finite()) {
                c.count("undefined_steps", 1);
                if evals[pos..].iter().all(|v| v.is_finite()) || got.is_finite() {
                    c.fail(format!("iteration {}: the step {:e} is not followed: evaluations {:?}, result {:e}", k, want, &evals[pos..], got));
                }
            } else {
                c.count("sensitive_iterations", 1);
            }
            return c;
        }
        let size = want.abs().max(if k > 0 { trajs[0][k - 1].abs() } else { 0.0 });
        let tol_x = 100.0 * spread + 1e-14 * size;
        if tol_x > 0.01 * (size + 1e-3) {
            c.count("sensitive_iterations", 1);
            return c;
        }
        match evals[pos..].iter().position(|v| (v - want).abs() <= tol_x) {
            Some(q) => pos += q,
            None if k == 0 || k < iter || tol > 0.0 => {
                c.fail(format!("iteration {}: no evaluation at {:e}, the Newton step", k, want));
                return c;
            }
            None => (),
        }
        if k == iter {
            if trajs.iter().any(|t| t.len() != iter + 1) {
                c.count("sensitive_iterations", 1);
                return c;
            }
            c.count("iterations_1d", iter as u64);
            if !((got - want).abs() <= tol_x) {
                c.fail(format!("result {:e}, expected {:e} after {} iterations", got, want, iter));
            }
        }
    }
    let allowed = if fd { 2 * (iter + 1) + 2 } else { iter + 2 };
    if evals.len() > 2 * allowed || (!fd && derivs.len() > 2 * (iter + 1)) {
        c.fail(format!("{} evaluations and {} derivatives for {} iterations", evals.len(), derivs.len(), iter));
    }
    c
}

type VF = fn(&DVector<f64>) -> DVector<f64>;
type MF = fn(&DVector<f64>) -> DMatrix<f64>;

pub fn literature(_ctx: &Ctx, k: u64, rng: &mut Rng) -> Case {
    use util::test_cases::{broyden1965, polynom};
    let mut c = Case::default();
    c.nontrivial = true;
    let _ = k;
    let mut jac_check = |name: &str, n: usize, f: VF, d: MF, rng: &mut Rng, spread: f64| {
        let x: Vec<f64> = (0..n).map(|_| if rng.chance(0.1) { 1.0 } else { spread * rng.uniform(-1.0, 1.0) }).collect();
        let j = match guarded(|| d(&dvec(&x))) {
            Ok(j) => j,
            Err(m) => {
                c.fail(format!("{}: panic of the jacobian at {:?}: {}", name, x, m));
                return;
            }
        };
        if j.nrows() != n || j.ncols() != n {
            c.fail(format!("{}: jacobian of size {}x{}", name, j.nrows(), j.ncols()));
            return;
        }
        for q in 0..n {
            let h = 1e-3 * x[q].abs().max(0.1);
            let at = |t: f64| {
                let mut z = x.clone();
                z[q] += t;
                f(&dvec(&z))
            };
            let (a, b, a2, b2, z) = (at(h), at(-h), at(h / 2.0), at(-h / 2.0), at(0.0));
            for i in 0..n {
                let d1 = (a[i] - b[i]) / (2.0 * h);
                let d2 = (a2[i] - b2[i]) / h;
                let rich = (4.0 * d2 - d1) / 3.0;
                let tol = 1e-5 * (d1.abs() + d2.abs()) + 0.05 * (d1 - d2).abs() + 1e-12 * (z[i].abs() + a[i].abs() + 1.0) / h;
                c.count("literature_derivatives", 1);
                if !((rich - j[(i, q)]).abs() <= tol) {
                    c.fail(format!(
                        "{}: jacobian ({}, {}) at {:?} is {:e}, the numerical derivative is {:e}",
                        name, i, q, x, j[(i, q)], rich
                    ));
                }
            }
        }
    };
    let sizes = [2usize, 3, 3, 5, 5, 10, 10, 20, 20, 33, 50];
    let n = *rng.pick(&sizes);
    let spread = *rng.pick(&[1.5, 5.0, 20.0]);
    use broyden1965 as b;
    jac_check("case 5", n, b::broyden1965_case5, b::broyden1965_case5_jac, rng, spread);
    jac_check("case 6", n, b::broyden1965_case6, b::broyden1965_case6_jac, rng, spread);
    jac_check("case 7", n, b::broyden1965_case7, b::broyden1965_case7_jac, rng, spread);
    jac_check("case 8", n, b::broyden1965_case8, b::broyden1965_case8_jac, rng, spread);
    jac_check("case 9", 2, b::broyden1965_case9, b::broyden1965_case9_jac, rng, spread);
    jac_check("case 10", 2, b::broyden1965_case10, b::broyden1965_case10_jac, rng, spread);
    jac_check("square2", 1, polynom::square2, polynom::dsquare, rng, spread);
    jac_check("high derivative", 1, polynom::root_with_high_derivative, polynom::root_with_high_derivative_jac, rng, spread);
    // the functions are those of the reference
    let x: Vec<f64> = (0..n).map(|_| spread * rng.uniform(-1.0, 1.0)).collect();
    let x2: Vec<f64> = (0..2).map(|_| spread * rng.uniform(-1.0, 1.0)).collect();
    let tri = |alpha: f64| -> Vec<f64> {
        // documented cumulated sums of -(3 + alpha x_i) x_i + 2 x_{i+1} - beta
        let mut v = Vec::new();
        let mut acc = 0.0;
        for i in 0..n {
            acc += -(3.0 + alpha * x[i]) * x[i] - 1.0 + if i + 1 < n { 2.0 * x[i + 1] } else { 0.0 };
            v.push(acc);
        }
        v
    };
    let refs: Vec<(&str, VF, &Vec<f64>, Vec<f64>)> = vec![
        ("case 5", b::broyden1965_case5 as VF, &x, tri(-0.1)),
        ("case 6", b::broyden1965_case6, &x, tri(-0.5)),
        ("case 7", b::broyden1965_case7, &x, tri(-0.5)),
        ("case 8", b::broyden1965_case8, &x, tri(-0.5)),
        ("case 9", b::broyden1965_case9, &x2, vec![10.0 * (x2[1] - x2[0] * x2[0]), 1.0 - x2[0]]),
        (
            "case 10",
            b::broyden1965_case10,
            &x2,
            vec![
                -13.0 + x2[0] - 2.0 * x2[1] + 5.0 * x2[1] * x2[1] - x2[1] * x2[1] * x2[1],
                -29.0 + x2[0] - 14.0 * x2[1] + x2[1] * x2[1] + x2[1] * x2[1] * x2[1],
            ],
        ),
    ];
    for (name, f, x, want) in &refs {
        let got = f(&dvec(x));
        c.count("literature_functions", 1);
        for i in 0..want.len() {
            let size = (0..x.len()).map(|j| (x[j].abs() + 1.0).powi(3)).sum::<f64>();
            if got.len() != want.len() || !close(got[i], want[i], 1e-12 * 50.0 * size) {
                c.fail(format!("{}: component {} at {:?} is {:?}, the reference gives {:e}", name, i, x, got.get(i), want[i]));
                break;
            }
        }
    }
    let mut roots = |name: &str, n: usize, f: VF, sol: DVector<f64>, init: DVector<f64>| {
        if sol.len() != n || init.len() != n {
            c.fail(format!("{}: solution of length {}, initial guess of length {}", name, sol.len(), init.len()));
            return;
        }
        let v = f(&sol);
        c.count("literature_roots", 1);
        for i in 0..n {
            if !(v[i].abs() <= 1e-9) {
                c.fail(format!("{}: residual {} of the documented solution is {:e}", name, i, v[i]));
            }
        }
    };
    roots("case 5", 5, b::broyden1965_case5, b::solution_broyden1965_case5(), b::init_broyden1965_case5());
    roots("case 6", 5, b::broyden1965_case6, b::solution_broyden1965_case6(), b::init_broyden1965_case6());
    roots("case 7", 10, b::broyden1965_case7, b::solution_broyden1965_case7(), b::init_broyden1965_case7());
    roots("case 8", 20, b::broyden1965_case8, b::solution_broyden1965_case8(), b::init_broyden1965_case8());
    roots("case 9", 2, b::broyden1965_case9, b::solution_broyden1965_case9(), b::init_broyden1965_case9());
    roots("case 10", 2, b::broyden1965_case10, b::solution_broyden1965_case10(), b::init_broyden1965_case10());
    c.mix(rng.next());
    c
}
