//! What the configurations, the values and the errors hold, tell and print (C28).

use std::collections::BTreeMap;
use std::fmt;

use nalgebra::{Const, DMatrix, DVector, DefaultAllocator, Dim, DimMin, Dyn, OMatrix};
use newton_rootfinder as nrf;
use nrf::errors::{SolverError, SolverInternalError};
use nrf::iteratives::{self, IterativeParams, IterativeParamsFD, Iteratives, PerturbationMethod};
use nrf::model::{Model, ModelError};
use nrf::residuals::{
    self, JacobianValues, NormalizationMethod as NM, ResidualConfig, ResidualsConfig, ResidualsValues,
};
use nrf::solver::*;

use crate::fnsuites::{any_value, ALL_NORMS};
use crate::report::{Case, Ctx};
use crate::rng::Rng;
use crate::scen::{guarded, method, Par, METHOD_CODES};
use crate::xmlsuite::any_par;

/// the cells of the rows of a table: the lines with vertical bars
fn rows(text: &str) -> Vec<Vec<String>> {
    text.lines()
        .filter(|l| l.contains('|') && !l.contains("-----"))
        .map(|l| {
            let t = l.trim().trim_start_matches('|').trim_end_matches('|');
            t.split('|').map(|s| s.trim().to_string()).collect()
        })
        .collect()
}

/// A cell that reads back as the value, exactly
fn reads(cell: Option<&String>, v: f64) -> bool {
    cell.and_then(|s| s.parse::<f64>().ok()).map_or(false, |g| g == v || (g.is_nan() && v.is_nan()))
}

fn number(rng: &mut Rng) -> f64 {
    if rng.chance(0.2) {
        *rng.pick(&[f64::MAX, f64::MIN_POSITIVE, 5e-324, f64::EPSILON, 0.1, 1.0 / 3.0, 1e22, 123456789.123456789, 0.0, 1e16, 1e15 + 0.3, f64::INFINITY])
    } else {
        any_value(rng)
    }
}

fn different(rng: &mut Rng, v: f64) -> f64 {
    // one unit in the last place, or anything else
    let near = if v == 0.0 { 5e-324 } else { f64::from_bits(v.to_bits() ^ 1) };
    let other = if near.is_finite() && rng.chance(0.5) { near } else { number(rng) };
    if other == v || other.is_nan() {
        return if v == 1.0 { 2.0 } else { 1.0 };
    }
    other
}

fn par_cells(row: &[String], from: usize, p: &Par, fd: bool) -> bool {
    let r = |k: usize| row.get(from + k);
    let base = reads(r(0), p.max_abs) && reads(r(1), p.max_rel) && reads(r(2), p.min) && reads(r(3), p.max);
    if !fd {
        return base && row.len() == from + 4;
    }
    base && r(4).map(|s| s.as_str()) == Some(if p.sum { "Sum" } else { "Max" }) && reads(r(5), p.dx_abs) && reads(r(6), p.dx_rel) && row.len() == from + 7
}

/// Parameters of the unknowns
fn unknowns(rng: &mut Rng, c: &mut Case) {
    let n = if rng.chance(0.1) { rng.range(11, 130) } else { rng.range(1, 8) };
    let pars: Vec<Par> = (0..n).map(|_| any_par(rng)).collect();
    let jac: Vec<IterativeParams> = pars.iter().map(|p| p.jac()).collect();
    let fd: Vec<IterativeParamsFD> = pars.iter().map(|p| p.fd()).collect();
    c.mix(n as u64);
    for p in &pars {
        for v in [p.max_abs, p.max_rel, p.min, p.max, p.dx_abs, p.dx_rel] {
            c.mix(v.to_bits() >> 45);
        }
    }
    for (with, text) in [(false, Iteratives::new(&jac).to_string()), (true, Iteratives::new(&fd).to_string())] {
        c.count("texts", 1);
        let rows: Vec<Vec<String>> = rows(&text).into_iter().filter(|r| r[0].parse::<usize>().is_ok()).collect();
        if rows.len() != n {
            c.fail(format!("{} rows for {} unknowns: {}", rows.len(), n, text));
            continue;
        }
        for i in 0..n {
            if rows[i][0] != i.to_string() || !par_cells(&rows[i], 1, &pars[i], with) {
                c.fail(format!("unknown {} {:?} printed as {:?}", i, pars[i], rows[i]));
            }
        }
        if Iteratives::new(&jac).len() != n || Iteratives::new(&fd).len() != n {
            c.fail(format!("len() is not {}", n));
        }
    }
    let k = rng.below(n);
    let p = pars[k];
    let (a, f) = (&jac[k], &fd[k]);
    // copies are equal, an object that differs by one value is not, nor is its text
    c.count("equalities", 2);
    if a.clone() != *a || f.clone() != *f || p.jac() != *a || p.fd() != *f {
        c.fail(format!("{:?} is not equal to its copy", p));
    }
    if f.get_iterative_params() != a {
        c.fail(format!("{:?} holds the parameters {:?}", p, f.get_iterative_params()));
    }
    let m = if p.sum { PerturbationMethod::Sum } else { PerturbationMethod::Max };
    if IterativeParamsFD::extend(a.clone(), p.dx_abs, p.dx_rel, m) != *f {
        c.fail(format!("{:?} is not the extension of its parameters", p));
    }
    let mut q = p;
    let field = rng.below(7);
    match field {
        0 => q.max_abs = different(rng, p.max_abs),
        1 => q.max_rel = different(rng, p.max_rel),
        2 => q.min = different(rng, p.min),
        3 => q.max = different(rng, p.max),
        4 => q.dx_abs = different(rng, p.dx_abs),
        5 => q.dx_rel = different(rng, p.dx_rel),
        _ => q.sum = !q.sum,
    }
    c.mix(field as u64);
    if let Ok((b, g)) = guarded(|| (q.jac(), q.fd())) {
        c.count("objects_differing_by_one_value", 1);
        if field < 4 && (b == *a || b.to_string() == a.to_string() || format!("{:?}", b) == format!("{:?}", a)) {
            c.fail(format!("{:?} and {:?} are said to be the same", p, q));
        }
        if field >= 4 && b != *a {
            c.fail(format!("{:?} and {:?} have different limits", p, q));
        }
        if g == *f || g.to_string() == f.to_string() || format!("{:?}", g) == format!("{:?}", f) {
            c.fail(format!("{:?} and {:?} are said to be the same", p, q));
        }
    }
    // default parameters
    let d = iteratives::default_vec_iteratives_fd(n);
    if d.len() != n || d.iter().any(|e| *e != IterativeParamsFD::default()) {
        c.fail(format!("default parameters of {} unknowns: {:?}", n, d));
    }
    let d = iteratives::default_vec_iteratives(n);
    if d.len() != n || d.iter().any(|e| *e != IterativeParams::default()) {
        c.fail(format!("default parameters of {} unknowns: {:?}", n, d));
    }
}

/// Parameters of the equations
fn equations(rng: &mut Rng, c: &mut Case) {
    let n = if rng.chance(0.1) { rng.range(11, 130) } else { rng.range(1, 8) };
    let stop: Vec<NM> = (0..n).map(|_| *rng.pick(&ALL_NORMS)).collect();
    let upd: Vec<NM> = (0..n).map(|_| *rng.pick(&ALL_NORMS)).collect();
    let rc = ResidualsConfig::new(&stop, &upd);
    let text = rc.to_string();
    c.count("texts", 1);
    let cells: Vec<Vec<String>> = rows(&text).into_iter().filter(|r| r[0].parse::<usize>().is_ok()).collect();
    if cells.len() != n {
        c.fail(format!("{} rows for {} equations: {}", cells.len(), n, text));
    } else {
        for i in 0..n {
            if cells[i] != [i.to_string(), stop[i].to_string(), upd[i].to_string()] {
                c.fail(format!("equation {}, {:?} and {:?}, printed as {:?}", i, stop[i], upd[i], cells[i]));
            }
        }
    }
    if rc.len() != n || rc.get_stopping_criterias() != &stop[..] || rc.get_update_methods() != &upd[..] {
        c.fail(format!("{:?} and {:?} held as {:?} and {:?}", stop, upd, rc.get_stopping_criterias(), rc.get_update_methods()));
    }
    let (mut stop2, mut upd2) = (stop.clone(), upd.clone());
    c.count("equalities", 1);
    if ResidualsConfig::new(&stop2, &upd2) != rc {
        c.fail(format!("two configurations {:?} and {:?} are different", stop, upd));
    }
    let k = rng.below(n);
    let which = if rng.chance(0.5) { &mut stop2 } else { &mut upd2 };
    let old = which[k];
    which[k] = *rng.pick(&ALL_NORMS.iter().cloned().filter(|m| *m != old).collect::<Vec<_>>());
    let other = ResidualsConfig::new(&stop2, &upd2);
    c.count("objects_differing_by_one_value", 1);
    if other == rc || other.to_string() == text {
        c.fail(format!("({:?}, {:?}) and ({:?}, {:?}) are said to be the same", stop, upd, stop2, upd2));
    }
    let one = ResidualConfig::new(stop[k], upd[k]);
    if one.get_stopping_criteria() != stop[k] || one.get_update_method() != upd[k] || one != ResidualConfig::new(stop[k], upd[k]) {
        c.fail(format!("({:?}, {:?}) held as {:?}", stop[k], upd[k], one));
    }
    if ResidualConfig::new(stop2[k], upd2[k]) == one {
        c.fail(format!("({:?}, {:?}) equal to {:?}", stop2[k], upd2[k], one));
    }
    let d = residuals::default_vec_residuals(n);
    if d.len() != n || d.iter().any(|m| *m != ResidualConfig::default()) || ResidualConfig::default() != ResidualConfig::new(NM::Abs, NM::Abs) {
        c.fail(format!("default residuals of {} equations: {:?}", n, d));
    }
}

/// Parameters of the resolution
fn resolution(rng: &mut Rng, c: &mut Case) {
    let size = |rng: &mut Rng| if rng.chance(0.3) { *rng.pick(&[0usize, usize::MAX, 1 << 32, 1 << 53]) } else { rng.range(1, 5000) };
    let (n, max, tol, m, damping) = (size(rng), size(rng), number(rng), rng.below(METHOD_CODES.len()), rng.chance(0.5));
    c.mix(m as u64);
    let p = SolverParameters::new(n, tol, max, method(m), damping);
    let same = |v: f64, w: f64| v.to_bits() == w.to_bits();
    if p.get_problem_size() != n || p.get_max_iter() != max || !same(p.get_tolerance(), tol) || p.get_resolution_method() != method(m) || p.get_damping() != damping {
        c.fail(format!("parameters {} {} {:e} {} {} not given back", n, max, tol, METHOD_CODES[m], damping));
    }
    let text = p.to_string();
    c.count("texts", 1);
    let all = rows(&text);
    let row: Vec<&Vec<String>> = all.iter().filter(|r| r[0].parse::<usize>().is_ok()).collect();
    let good = row.len() == 1 && {
        let r = row[0];
        r.len() == 5
            && r[0] == n.to_string()
            && r[1] == max.to_string()
            && reads(r.get(2), tol)
            && r[3] == damping.to_string()
            && r[4] == method(m).to_string()
    };
    if !good {
        c.fail(format!("parameters {} {} {:e} {} {} printed as {}", n, max, tol, METHOD_CODES[m], damping, text));
    }
    // the methods
    for a in 0..METHOD_CODES.len() {
        for b in 0..METHOD_CODES.len() {
            c.count("pairs_of_methods", 1);
            if (method(a) == method(b)) != (a == b) {
                c.fail(format!("methods {} and {}: wrong equality", METHOD_CODES[a], METHOD_CODES[b]));
            }
            if a != b && (method(a).to_string() == method(b).to_string() || format!("{:?}", method(a)) == format!("{:?}", method(b))) {
                c.fail(format!("methods {} and {} have the same text {:?}", METHOD_CODES[a], METHOD_CODES[b], method(a).to_string()));
            }
        }
    }
    for (code, name) in [("BROY1", "Broyden First"), ("BROY2", "Broyden Second"), ("GRST1", "Greenstadt First"), ("GRST2", "Greenstadt Second")] {
        for a in 0..METHOD_CODES.len() {
            if METHOD_CODES[a].starts_with(code) != method(a).to_string().contains(name) {
                c.fail(format!("method {} described by {:?}", METHOD_CODES[a], method(a).to_string()));
            }
        }
    }
    let names: Vec<String> = ALL_NORMS.iter().map(|m| m.to_string()).collect();
    let want = ["Absolute", "Relative", "Adaptative"];
    if (0..3).any(|k| !names[k].starts_with(want[k])) {
        c.fail(format!("normalizations described by {:?}", names));
    }
    if PerturbationMethod::Max.to_string() != "Max" || PerturbationMethod::Sum.to_string() != "Sum" {
        c.fail("wrong names of the perturbations".to_string());
    }
}

/// Values of the members and of their derivatives
fn values(rng: &mut Rng, c: &mut Case) {
    let n = if rng.chance(0.1) { rng.range(9, 60) } else { rng.range(1, 8) };
    let v = |rng: &mut Rng| {
        let x = number(rng) * rng.sign();
        if rng.chance(0.02) {
            f64::NAN
        } else {
            x
        }
    };
    let l: Vec<f64> = (0..n).map(|_| v(rng)).collect();
    let r: Vec<f64> = (0..n).map(|_| v(rng)).collect();
    let res: ResidualsValues<Dyn> = ResidualsValues::new(DVector::from_vec(l.clone()), DVector::from_vec(r.clone()));
    if res.len() != n || res.shape() != n || res.shape_generic().value() != n {
        c.fail(format!("{} equations, {} {}", n, res.len(), res.shape()));
    }
    let text = res.to_string();
    c.count("texts", 1);
    let lines: Vec<&str> = text.lines().filter(|s| s.contains('=')).collect();
    if lines.len() != n {
        c.fail(format!("{} lines for {} equations: {}", lines.len(), n, text));
        return;
    }
    let members = |s: &str| -> Option<(f64, f64)> {
        let (a, b) = s.split_once('=')?;
        Some((a.trim().parse().ok()?, b.trim().parse().ok()?))
    };
    let same = |p: Option<(f64, f64)>, i: usize| {
        let eq = |a: f64, b: f64| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan());
        p.map_or(false, |(a, b)| eq(a, l[i]) && eq(b, r[i]))
    };
    for i in 0..n {
        let told = lines[i].split_once(':').filter(|(h, _)| h.split_whitespace().last() == Some(&i.to_string()));
        if !same(told.and_then(|(_, t)| members(t)), i) {
            c.fail(format!("equation {}, {:e} = {:e}, printed as {:?}", i, l[i], r[i], lines[i]));
        }
        let one = res.get_values_str_eq(i, rng.below(40));
        if !same(members(&one), i) {
            c.fail(format!("equation {}, {:e} = {:e}, told as {:?}", i, l[i], r[i], one));
        }
        if !same(Some(res.get_values(i)), i) {
            c.fail(format!("equation {}, {:e} = {:e}, held as {:?}", i, l[i], r[i], res.get_values(i)));
        }
    }
    let a = DMatrix::from_fn(n, n, |_, _| v(rng));
    let b = DMatrix::from_fn(n, n, |_, _| v(rng));
    let j: JacobianValues<Dyn> = JacobianValues::new(a.clone(), b.clone());
    let (ga, gb) = j.get_jacobians();
    let bits = |m: &DMatrix<f64>| (m.shape(), m.iter().map(|x| x.to_bits()).collect::<Vec<_>>());
    if bits(ga) != bits(&a) || bits(gb) != bits(&b) {
        c.fail("the jacobians of the members are not given back".to_string());
    }
}

/// The text of the store of the jacobian
fn store<D>(d: D, n: usize, rng: &mut Rng, c: &mut Case)
where
    D: Dim + DimMin<D, Output = D>,
    DefaultAllocator: nalgebra::allocator::Allocator<D> + nalgebra::allocator::Allocator<D, D>,
{
    let mut s: JacobianMatrix<D> = JacobianMatrix::new();
    for _ in 0..rng.range(1, 5) {
        let m: OMatrix<f64, D, D> =
            OMatrix::from_fn_generic(d, d, |i, j| if i == j { 4.0 * n as f64 } else { 0.0 } + rng.uniform(-1.0, 1.0) * 3.0);
        match rng.below(4) {
            0 => drop(s.update_jacobian_with_exact_value(m)),
            1 => drop(s.update_jacobian_with_approximated_value(m)),
            2 => s.update_inverse(m),
            _ => s.invalidate_jacobian(),
        }
        let text = s.to_string();
        c.count("texts_of_the_store", 1);
        let told: Vec<f64> = text.split(|ch: char| ch.is_whitespace()).filter_map(|w| w.parse().ok()).collect();
        let mut held = Vec::new();
        for m in [s.get_jacobian(), s.get_inverse()].iter().filter_map(|m| m.as_ref()) {
            for i in 0..n {
                for j in 0..n {
                    held.push(m[(i, j)]);
                }
            }
        }
        let near = told.len() == held.len() && told.iter().zip(&held).all(|(a, b)| (a - b).abs() <= 1e-2);
        if !near {
            c.fail(format!("a store of {:?} printed as {}", held, text));
        }
        if s.get_jacobian().is_some() == text.contains("not up to date") {
            c.fail(format!("a store with the matrix {:?} printed as {}", s.get_jacobian().is_some(), text));
        }
        if s.get_inverse().is_none() != text.contains("not yet computed") {
            c.fail(format!("a store with the inverse {:?} printed as {}", s.get_inverse().is_some(), text));
        }
    }
}

pub fn objects(_ctx: &Ctx, rng: &mut Rng) -> Case {
    let mut c = Case { nontrivial: true, ..Case::default() };
    unknowns(rng, &mut c);
    equations(rng, &mut c);
    resolution(rng, &mut c);
    values(rng, &mut c);
    match rng.below(3) {
        0 => store(Const::<2>, 2, rng, &mut c),
        1 => store(Const::<3>, 3, rng, &mut c),
        _ => {
            let n = rng.range(1, 7);
            store(Dyn(n), n, rng, &mut c)
        }
    }
    c.sample = "configurations, values and their texts".to_string();
    c
}

// ---------------------------------------------------------------- errors

/// An error of a model: any text
#[derive(Debug, Clone)]
pub struct Said(String);
impl fmt::Display for Said {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Said {}

struct Silent;
impl Model<Dyn> for Silent {
    type InaccurateValuesError = Said;
    type UnusableValuesError = Said;
    fn len_problem(&self) -> usize {
        1
    }
    fn set_iteratives(&mut self, _: &DVector<f64>) {}
    fn get_iteratives(&self) -> DVector<f64> {
        DVector::zeros(1)
    }
    fn evaluate(&mut self) -> Result<(), ModelError<Self, Dyn>> {
        Ok(())
    }
    fn get_residuals(&self) -> ResidualsValues<Dyn> {
        ResidualsValues::new(DVector::zeros(1), DVector::zeros(1))
    }
}

fn words(rng: &mut Rng) -> String {
    const PIECES: [&str; 16] = [
        "pressure", "{}", "{0:?}", "%s", "\n", "\t", "température", "\"", "'", "\\", "out of range: -3.5", "数", "|", "+-----+", ":", "é\u{301}",
    ];
    let k = match rng.below(10) {
        0 => 0,
        1 => rng.range(100, 600),
        _ => rng.range(1, 8),
    };
    let mut s = String::new();
    for _ in 0..k {
        s.push_str(rng.pick(&PIECES));
        if rng.chance(0.7) {
            s.push(' ');
        }
    }
    s
}

pub fn errors(_ctx: &Ctx, rng: &mut Rng) -> Case {
    let mut c = Case { nontrivial: true, ..Case::default() };
    let msg = words(rng);
    c.mix(msg.len() as u64);
    let ina = || ModelError::<Silent, Dyn>::InaccurateValuesError(Said(msg.clone()));
    let unu = || ModelError::<Silent, Dyn>::UnusableValuesError(Said(msg.clone()));
    let bad = |e| SolverInternalError::<Silent, Dyn>::InvalidJacobianError(e);
    let sin = || SolverInternalError::<Silent, Dyn>::InvalidJacobianInverseError;
    type E = SolverError<Silent, Dyn>;
    let mut texts: BTreeMap<&str, (String, String, bool)> = BTreeMap::new();
    let mut add = |k: &'static str, e: &dyn std::error::Error, m: bool| {
        texts.insert(k, (e.to_string(), format!("{:?}", e), m));
    };
    add("inaccurate", &ina(), true);
    add("unusable", &unu(), true);
    add("non convergence", &E::NonConvergenceError, false);
    add("initial", &E::ModelInitialEvaluationError(msg.clone()), true);
    add("evaluation, inaccurate", &E::ModelEvaluationError(ina()), true);
    add("evaluation, unusable", &E::ModelEvaluationError(unu()), true);
    add("jacobian, inaccurate", &E::JacobianError(bad(ina())), true);
    add("jacobian, unusable", &E::JacobianError(bad(unu())), true);
    add("jacobian, singular", &E::JacobianError(sin()), false);
    add("final", &E::FinalEvaluationError, false);
    for (k, (t, d, m)) in &texts {
        c.count("texts_of_errors", 1);
        if *m && (!t.contains(&msg) || !d.contains(&msg)) {
            c.fail(format!("error {} of message {:?} printed as {:?} and {:?}", k, msg, t, d));
        }
        if t.trim().is_empty() || d.trim().is_empty() {
            c.fail(format!("error {} without a text", k));
        }
        for (k2, (t2, d2, _)) in &texts {
            if k < k2 && (t == t2 || d == d2) {
                c.fail(format!("errors {} and {} have the same text {:?}", k, k2, t));
            }
        }
    }
    // the error of the jacobian tells the one of the model
    let inner = [bad(ina()).to_string(), bad(unu()).to_string(), sin().to_string()];
    for (k, e) in ["jacobian, inaccurate", "jacobian, unusable", "jacobian, singular"].iter().zip(&inner) {
        if !texts[k].0.contains(e) {
            c.fail(format!("error {} printed as {:?} without {:?}", k, texts[k].0, e));
        }
    }
    for (k, e) in [("evaluation, inaccurate", "inaccurate"), ("evaluation, unusable", "unusable")] {
        if !texts[k].0.contains(&texts[e].0) {
            c.fail(format!("error {} printed as {:?} without {:?}", k, texts[k].0, texts[e].0));
        }
    }
    c.sample = format!("errors of message {:?}", msg.chars().take(60).collect::<String>());
    c
}
