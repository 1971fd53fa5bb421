//! Trace specification of a resolution.
//!
//! `check` walks over the recorded events of a run and decides, call by call,
//! what the specification allows next. Everything is recomputed from the values the
//! model gave (recorded at its boundary), never from the internal state of the solver.
//!
//! Numerical slack: the matrices are carried by an ensemble of members, the
//! members other than the first one being perturbed at the level of the rounding errors.
//! The spread of the ensemble bounds what another order of operations can yield.

use std::collections::BTreeMap;

use newton_rootfinder::residuals::NormalizationMethod as NM;

use crate::lin::{dot, sub, Mat};
use crate::model::{Ev, Outcome};
use crate::rng::Rng;
use crate::scen::{Res, RunOut, Scn, METHOD_CODES};

pub const MEMBERS: usize = 5;

#[derive(Clone, Debug)]
pub struct Dev {
    pub props: Vec<&'static str>,
    pub msg: String,
}

#[derive(Clone, Debug)]
pub enum Item {
    /// iteration number, index of the evaluation in the trace
    Iter(usize, usize),
    Damp(usize),
    Refused,
    /// matrices used for the step: (jacobian if part of the method, inverse), ensembles
    Mats(Option<Vec<Mat>>, Vec<Mat>),
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    pub devs: Vec<Dev>,
    pub inconclusive: Option<String>,
    pub counters: BTreeMap<&'static str, u64>,
    pub items: Vec<Item>,
    /// (iteration, kind of step, trace index of base evaluation, of the kept evaluation)
    pub steps: Vec<Step>,
    pub complete: bool,
    pub shape: u64,
    /// number of model calls followed
    pub reach: usize,
    /// iteration followed by an unexpected evaluation at the midpoint
    suspect: Option<usize>,
    iter: usize,
}

#[derive(Clone, Debug)]
pub struct Step {
    pub iter: usize,
    pub kind: char,
    pub x_base: Vec<f64>,
    pub f_base: Vec<f64>,
    pub x_new: Vec<f64>,
    pub f_new: Vec<f64>,
}

impl Report {
    fn dev(&mut self, props: &[&'static str], msg: String) {
        self.devs.push(Dev {
            props: props.to_vec(),
            msg,
        });
    }
    fn count(&mut self, k: &'static str) {
        *self.counters.entry(k).or_insert(0) += 1;
    }
    fn mix(&mut self, v: u64) {
        self.shape = (self.shape ^ v).wrapping_mul(0x100_0000_01b3).rotate_left(5);
    }
    pub fn has(&self, p: &str) -> Option<&Dev> {
        self.devs.iter().find(|d| p == "ALL" || d.props.iter().any(|q| *q == p))
    }
}

pub fn norm(l: f64, r: f64, m: NM) -> f64 {
    match m {
        NM::Abs => l - r,
        NM::Rel => {
            if l == 0.0 && r == 0.0 {
                0.0
            } else {
                (l - r) / (0.5 * (l + r).abs())
            }
        }
        NM::Adapt => (l - r) / (1.0 + 0.5 * (l + r).abs()),
    }
}

/// derivative of norm, None where it is not differentiable,
/// with the magnitude of the terms it is made of
pub fn dnorm(l: f64, r: f64, dl: f64, dr: f64, m: NM) -> (Option<f64>, f64) {
    let d = l - r;
    let s = l + r;
    let dd = dl - dr;
    let ds = dl + dr;
    let sg = if s > 0.0 {
        1.0
    } else if s < 0.0 {
        -1.0
    } else {
        f64::NAN
    };
    match m {
        NM::Abs => (Some(dd), dd.abs()),
        NM::Rel => {
            if s == 0.0 {
                return (None, 0.0);
            }
            let a = s.abs();
            (
                Some(2.0 * dd / a - 2.0 * d * ds * sg / (a * a)),
                2.0 * (dl.abs() + dr.abs()) / a * (1.0 + d.abs() / a),
            )
        }
        NM::Adapt => {
            let q = 1.0 + 0.5 * s.abs();
            if s == 0.0 && d != 0.0 && ds != 0.0 {
                return (None, 0.0);
            }
            let second = if d == 0.0 || ds == 0.0 {
                0.0
            } else {
                d * 0.5 * ds * sg / (q * q)
            };
            (
                Some(dd / q - second),
                (dl.abs() + dr.abs()) / q * (1.0 + d.abs() / q),
            )
        }
    }
}

pub fn norms(l: &[f64], r: &[f64], m: &[NM]) -> Vec<f64> {
    (0..l.len()).map(|i| norm(l[i], r[i], m[i])).collect()
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tri {
    Yes,
    No,
    Unknown,
}

/// is the point converged ?
pub fn converged(l: &[f64], r: &[f64], m: &[NM], tol: f64) -> Tri {
    let mut res = Tri::Yes;
    for i in 0..l.len() {
        let e = norm(l[i], r[i], m[i]).abs();
        let here = if l[i].is_nan() || r[i].is_nan() {
            Tri::No
        } else if l[i] == r[i] && l[i].is_finite() {
            if 0.0 <= tol {
                Tri::Yes
            } else {
                Tri::No
            }
        } else if m[i] == NM::Abs {
            if e <= tol {
                Tri::Yes
            } else {
                Tri::No
            }
        } else if l[i].abs() + r[i].abs() > 1e300 {
            // Inf / Inf is undefined, finite overflows depend on the operations order
            if l[i].is_infinite() || r[i].is_infinite() {
                Tri::No
            } else {
                Tri::Unknown
            }
        } else if e.is_nan() {
            Tri::No
        } else if (e - tol).abs() <= 1e-14 * tol.abs().max(e) {
            Tri::Unknown
        } else if e <= tol {
            Tri::Yes
        } else {
            Tri::No
        };
        match here {
            Tri::No => return Tri::No,
            Tri::Unknown => res = Tri::Unknown,
            Tri::Yes => (),
        }
    }
    res
}

fn stop_errors(l: &[f64], r: &[f64], m: &[NM]) -> Vec<f64> {
    norms(l, r, m).iter().map(|v| v.abs()).collect()
}

/// does the largest error increase ?
fn increases(base: &Pt, new: &Pt, m: &[NM]) -> Tri {
    let a = stop_errors(&base.l, &base.r, m);
    let b = stop_errors(&new.l, &new.r, m);
    if a.iter().chain(&b).any(|v| v.is_nan()) {
        return Tri::Unknown;
    }
    let ma = a.iter().cloned().fold(0.0, f64::max);
    let mb = b.iter().cloned().fold(0.0, f64::max);
    if base.l == new.l && base.r == new.r {
        return Tri::No;
    }
    if m.iter().all(|m| *m == NM::Abs) {
        // exact, infinite errors included
        return if mb > ma { Tri::Yes } else { Tri::No };
    }
    if (base.l.iter().chain(&base.r)).chain(new.l.iter().chain(&new.r)).any(|v| v.abs() > 1e300) {
        return Tri::Unknown;
    }
    if (ma - mb).abs() <= 1e-13 * ma.max(mb) {
        return Tri::Unknown;
    }
    if mb > ma {
        Tri::Yes
    } else {
        Tri::No
    }
}

#[derive(Clone, Debug)]
struct Pt {
    x: Vec<f64>,
    l: Vec<f64>,
    r: Vec<f64>,
    out: Outcome,
    msg: String,
    mem_before: Vec<f64>,
    mem_after: Vec<f64>,
    idx: usize,
}

enum E {
    P(Pt),
    J(Vec<f64>, Mat, Mat, Outcome, String),
}

fn bits(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()))
}
/// equal as numbers (0 and -0 being the same)
fn eqv(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y || (x.is_nan() && y.is_nan()))
}

fn close(a: f64, b: f64, scale: f64) -> bool {
    a == b || (a - b).abs() <= 4.5e-16 * scale.abs().max(a.abs()).max(b.abs()) * 2.0
}

fn short(v: &[f64]) -> String {
    if v.len() <= 6 {
        format!("{:?}", v)
    } else {
        format!("{:?}..", &v[..6])
    }
}

#[derive(Clone)]
struct Member {
    jac: Option<Mat>,
    inv: Option<Mat>,
}

struct Noise {
    rng: Rng,
}
impl Noise {
    /// none for the first member
    fn get(&mut self, m: usize, mag: f64) -> f64 {
        if m == 0 {
            return 0.0;
        }
        let u = self.rng.uniform(0.5, 1.0) * self.rng.sign();
        u * mag
    }
}

/// update residuals with the noise of the normalization
fn noisy_f(noise: &mut Noise, m: usize, f: &[f64], upd: &[NM]) -> Vec<f64> {
    f.iter()
        .zip(upd)
        .map(|(v, k)| if *k == NM::Abs { *v } else { v + noise.get(m, 4e-16 * v.abs()) })
        .collect()
}

/// Independent checks, made without following the trace
pub fn monitors(scn: &Scn, out: &RunOut, rep: &mut Report) {
    match &out.res {
        Res::Panic(m) => rep.dev(&["C13", "C12", "C01"], format!("panic of the solver: {}", m)),
        Res::Fuel => rep.dev(&["C13", "C03"], "more evaluations than the iteration budget allows".to_string()),
        _ => (),
    }
    let last = out.trace.iter().rposition(|e| matches!(e, Ev::Eval { .. }));
    let last = match last {
        Some(k) => k,
        None => {
            if out.res != Res::UserPanic && !matches!(out.res, Res::Panic(_)) {
                rep.dev(&["C03", "C01", "C12"], "the model was never evaluated".to_string());
            }
            return;
        }
    };
    let (lx, ll, lr, lout, lmem) = match &out.trace[last] {
        Ev::Eval { x, l, r, out, mem_after, .. } => (x, l, r, *out, mem_after),
        _ => unreachable!(),
    };
    if matches!(out.res, Res::Ok | Res::NonConv | Res::Final) {
        rep.count("verdicts");
        if !bits(lx, &out.x) {
            rep.dev(
                &["C02"],
                format!("final unknowns {} differ from the last evaluated ones {}", short(&out.x), short(lx)),
            );
        }
        if !bits(lmem, &out.mem) {
            rep.dev(&["C02", "C23"], "memory overwritten after the last evaluation".to_string());
        }
        if out.trace[last + 1..].iter().any(|e| matches!(e, Ev::Set(_) | Ev::SetMem(_))) {
            rep.dev(&["C02"], "the model was written after its last evaluation".to_string());
        }
        // the verdict is about what the model holds
        let conv = converged(&out.l, &out.r, &scn.stop, scn.tol);
        let wrong = match (&out.res, conv, lout) {
            (_, _, Outcome::Unusable) => true,
            (Res::Ok, Tri::No, _) => true,
            (Res::Ok, _, Outcome::Inaccurate) => true,
            (Res::Final, Tri::No, _) => true,
            (Res::Final, _, Outcome::Ok) => true,
            (Res::NonConv, Tri::Yes, _) => true,
            _ => false,
        };
        if wrong {
            rep.dev(
                &["C01"],
                format!(
                    "verdict {:?} but stopping residuals {:?} (tolerance {:e}), last evaluation {:?}",
                    out.res,
                    stop_errors(&out.l, &out.r, &scn.stop),
                    scn.tol,
                    lout
                ),
            );
        }
        if !eqv(ll, &out.l) || !eqv(lr, &out.r) {
            rep.dev(&["C02"], "residuals of the model are not those of its last evaluation".to_string());
        }
    }
    // an iterate is within the bounds (every evaluation is one when the jacobian is provided)
    if scn.analytic && scn.guess.iter().zip(&scn.params).all(|(v, p)| *v >= p.min && *v <= p.max) {
        'evals: for e in &out.trace {
            if let Ev::Eval { x, .. } = e {
                for (j, p) in scn.params.iter().enumerate() {
                    let ulp = 4.5e-16 * x[j].abs();
                    if x[j] < p.min - ulp || x[j] > p.max + ulp {
                        rep.dev(&["C11"], format!("unknown {} evaluated at {:e} out of [{:e}, {:e}]", j, x[j], p.min, p.max));
                        break 'evals;
                    }
                }
                rep.count("evaluations_within_bounds");
            }
        }
    }
    // an error ends the resolution at once
    let mut errored = false;
    for e in &out.trace {
        if errored && matches!(e, Ev::Eval { .. } | Ev::Jac { .. }) {
            rep.dev(&["C12"], "the resolution went on after unusable values".to_string());
            break;
        }
        match e {
            Ev::Eval { out: Outcome::Unusable, .. } => errored = true,
            Ev::Jac { out: o, .. } if *o != Outcome::Ok => errored = true,
            _ => (),
        }
    }
}

pub fn check(scn: &Scn, out: &RunOut, base_last: bool) -> Report {
    let mut rep = Report::default();
    rep.shape = 0xcbf2_9ce4_8422_2325;
    monitors(scn, out, &mut rep);
    let stop = walk(scn, out, base_last, &mut rep);
    if rep.suspect.map_or(false, |k| k + 1 == rep.iter || k == rep.iter) {
        if let Some(d) = rep.devs.last_mut() {
            d.props.push("C10");
            d.msg.push_str(" (evaluation at the midpoint)");
        }
    }
    rep.complete = stop.is_none() && rep.devs.is_empty();
    rep.inconclusive = stop;
    rep.mix(scn.n as u64);
    rep.mix(scn.method as u64);
    rep.mix(scn.analytic as u64);
    rep.mix(scn.damping as u64);
    rep.mix(scn.params.iter().any(|p| !p.is_free()) as u64);
    for m in scn.stop.iter().chain(&scn.upd) {
        rep.mix(*m as u64);
    }
    rep.mix(res_code(&out.res));
    rep
}

pub fn res_code(r: &Res) -> u64 {
    match r {
        Res::Ok => 1,
        Res::NonConv => 2,
        Res::Final => 3,
        Res::Init(_) => 4,
        Res::ModelEval(..) => 5,
        Res::JacModel(..) => 6,
        Res::JacInv => 7,
        Res::UserPanic => 8,
        Res::Panic(_) => 9,
        Res::Fuel => 10,
    }
}

/// Some(reason) if the walk had to stop before the end of the trace
fn walk(scn: &Scn, out: &RunOut, base_last: bool, rep: &mut Report) -> Option<String> {
    if matches!(out.res, Res::UserPanic | Res::Panic(_) | Res::Fuel) {
        return Some("panic or out of fuel".to_string());
    }
    let n = scn.n;
    let mut evs: Vec<E> = Vec::new();
    for (idx, e) in out.trace.iter().enumerate() {
        match e {
            Ev::Eval { x, l, r, out, msg, mem_before, mem_after } => evs.push(E::P(Pt {
                x: x.clone(),
                l: l.clone(),
                r: r.clone(),
                out: *out,
                msg: msg.clone(),
                mem_before: mem_before.clone(),
                mem_after: mem_after.clone(),
                idx,
            })),
            Ev::Jac { x, l, r, out, msg } => {
                evs.push(E::J(x.clone(), l.clone(), r.clone(), *out, msg.clone()))
            }
            _ => (),
        }
    }
    let mut noise = Noise {
        rng: Rng::new(77, scn.n as u64, scn.method as u64),
    };
    let mut pos = 0;
    let first = match evs.get(0) {
        Some(E::P(p)) => p.clone(),
        _ => {
            rep.dev(&["C03"], "the first call is not an evaluation".to_string());
            return None;
        }
    };
    pos += 1;
    if !bits(&first.x, &scn.guess) {
        rep.dev(
            &["C03", "C14", "C18"],
            format!("first evaluation at {} instead of the guess {}", short(&first.x), short(&scn.guess)),
        );
        return None;
    }
    if first.out == Outcome::Unusable {
        rep.count("init_errors");
        match &out.res {
            Res::Init(m) if m.contains(&first.msg) => (),
            r => rep.dev(
                &["C12"],
                format!("unusable first evaluation ({}) reported as {:?}", first.msg, r),
            ),
        }
        if evs.len() > 1 {
            rep.dev(&["C12", "C03"], "calls after an unusable first evaluation".to_string());
        }
        return None;
    }
    let mut cur = first;
    rep.items.push(Item::Iter(0, cur.idx));
    let mut iter = 0usize;
    let mut mem_expected = cur.mem_after.clone();
    let mut members: Vec<Member> = vec![
        Member {
            jac: None,
            inv: None
        };
        MEMBERS
    ];
    let is_nr = scn.method == 0;
    let is_sn = scn.method == 1;
    let is_upd = scn.method >= 2;
    let inv_form = scn.method >= 2 && scn.method % 2 == 1;
    let mut need_exact = true;
    // s, y, F_new of the previous iteration
    let mut upd: Option<(Vec<f64>, Vec<f64>, Vec<f64>, Vec<f64>)> = None;
    let has_limits = scn.params.iter().any(|p| !p.is_free());
    // largest relative difference observed since the last exact jacobian
    let mut drift: f64 = 0.0;
    let mut worst_cond: f64 = 0.0;

    loop {
        rep.reach = pos;
        // ---- end of the resolution ?
        let conv = converged(&cur.l, &cur.r, &scn.stop, scn.tol);
        let more = pos < evs.len();
        let stopped_verdict = matches!(out.res, Res::Ok | Res::NonConv | Res::Final);
        let must_stop = match conv {
            Tri::Yes => Some(true),
            Tri::No => Some(iter >= scn.max_iter),
            Tri::Unknown => {
                if iter >= scn.max_iter {
                    Some(true)
                } else {
                    None
                }
            }
        };
        match must_stop {
            Some(true) => {
                if more {
                    let over = conv != Tri::Yes;
                    rep.dev(
                        if over { &["C03", "C01"] } else { &["C03", "C01"] },
                        format!(
                            "calls to the model after {} (iteration {})",
                            if over { "the end of the iteration budget" } else { "an iterate within the tolerance" },
                            iter
                        ),
                    );
                    return None;
                }
                let ok = match (conv, cur.out, &out.res) {
                    (Tri::Yes, Outcome::Ok, Res::Ok) => true,
                    (Tri::Yes, Outcome::Inaccurate, Res::Final) => true,
                    (Tri::No, _, Res::NonConv) => true,
                    (Tri::Unknown, Outcome::Ok, Res::Ok | Res::NonConv) => true,
                    (Tri::Unknown, Outcome::Inaccurate, Res::Final | Res::NonConv) => true,
                    _ => false,
                };
                if !ok {
                    let mut props = vec!["C01"];
                    if cur.out != Outcome::Ok || matches!(out.res, Res::Final | Res::ModelEval(..) | Res::JacModel(..) | Res::Init(_)) {
                        props.push("C12");
                    }
                    if out.res == Res::JacInv {
                        props.push("C03");
                        props.push("C13");
                    }
                    rep.dev(
                        &props,
                        format!(
                            "resolution stopped at iteration {} with {:?}, point converged: {:?}, last evaluation {:?}",
                            iter, out.res, conv, cur.out
                        ),
                    );
                }
                rep.count("complete_walks");
                return None;
            }
            Some(false) | None => {
                if !more {
                    if must_stop.is_none() && stopped_verdict {
                        return Some("convergence within the rounding errors".to_string());
                    }
                    if stopped_verdict {
                        rep.dev(
                            &["C01", "C03"],
                            format!(
                                "stopped with {:?} at iteration {}/{} although the stopping residuals are {}",
                                out.res,
                                iter,
                                scn.max_iter,
                                short(&stop_errors(&cur.l, &cur.r, &scn.stop))
                            ),
                        );
                        return None;
                    }
                }
            }
        }
        // ---- one more iteration
        iter += 1;
        rep.iter = iter;
        rep.count("iterations");
        let f_cur = norms(&cur.l, &cur.r, &scn.upd);
        let exact = is_nr || need_exact;
        let mut base = cur.clone();
        let kind;
        if exact {
            kind = if scn.analytic { 'A' } else { 'F' };
            if !is_nr && iter > 1 {
                rep.count("jacobian_after_refusal");
            }
            if scn.analytic {
                match evs.get(pos) {
                    Some(E::J(x, l, r, o, msg)) => {
                        pos += 1;
                        rep.count("analytic_jacobians");
                        if !bits(x, &cur.x) {
                            rep.dev(
                                &["C03", "C04", "C09"],
                                format!("jacobian requested at {} instead of the iterate {}", short(x), short(&cur.x)),
                            );
                            return None;
                        }
                        if *o != Outcome::Ok {
                            rep.count("jacobian_errors");
                            let kindname = if *o == Outcome::Inaccurate { "inaccurate" } else { "unusable" };
                            if pos < evs.len() {
                                rep.dev(&["C12"], "calls to the model after an error of the jacobian".to_string());
                            }
                            match &out.res {
                                Res::JacModel(k, t) if *k == kindname && t == msg => (),
                                r => rep.dev(
                                    &["C12"],
                                    format!("error of the jacobian ({}) reported as {:?}", msg, r),
                                ),
                            }
                            if matches!(out.res, Res::JacModel(..)) && !out.shown.contains(msg.as_str()) {
                                rep.dev(&["C12"], format!("displayed error {:?} does not carry {}", out.shown, msg));
                            }
                            return None;
                        }
                        if cur.l.iter().chain(&cur.r).chain(&l.a).chain(&r.a).any(|v| v.abs() > 1e100)
                            && scn.upd.iter().any(|m| *m != NM::Abs)
                        {
                            return Some("values too large for the normalization".to_string());
                        }
                        for m in 0..MEMBERS {
                            let mut j = Mat::zeros(n);
                            for i in 0..n {
                                let s = (cur.l[i] + cur.r[i]).abs();
                                if s != 0.0 && s < 1e-100 && scn.upd[i] == NM::Rel {
                                    return Some("values too small for the normalization".to_string());
                                }
                                for k in 0..n {
                                    let (v, mag) = dnorm(cur.l[i], cur.r[i], l.at(i, k), r.at(i, k), scn.upd[i]);
                                    let v = match v {
                                        Some(v) => v,
                                        None => return Some("normalization not differentiable here".to_string()),
                                    };
                                    let e = if scn.upd[i] == NM::Abs { 4e-16 } else { 2e-15 };
                                    j.set(i, k, v + noise.get(m, e * mag));
                                }
                            }
                            members[m].jac = Some(j);
                            members[m].inv = None;
                        }
                    }
                    Some(E::P(p)) => {
                        rep.dev(
                            if scn.damping && iter > 1 && is_upd { &["C09", "C03", "C10"] } else { &["C09", "C03", "C04"] },
                            format!(
                                "iteration {} ({}): evaluation at {} without requesting the jacobian",
                                iter,
                                METHOD_CODES[scn.method],
                                short(&p.x)
                            ),
                        );
                        return None;
                    }
                    None => {
                        rep.dev(
                            &["C12", "C01", "C09", "C13"],
                            format!("iteration {}: resolution ended with {:?} without requesting the jacobian", iter, out.res),
                        );
                        return None;
                    }
                }
            } else {
                rep.count("fd_jacobians");
                if cur.x.iter().any(|v| !v.is_finite()) {
                    return Some("non finite unknowns".to_string());
                }
                let mut done = vec![false; n];
                let mut jm: Vec<Mat> = (0..MEMBERS).map(|_| Mat::zeros(n)).collect();
                let fm: Vec<Vec<f64>> = (0..MEMBERS).map(|m| noisy_f(&mut noise, m, &f_cur, &scn.upd)).collect();
                for c in 0..n {
                    let p = match evs.get(pos) {
                        Some(E::P(p)) => p.clone(),
                        Some(E::J(..)) => {
                            rep.dev(&["C03", "C05"], "jacobian requested from a model that does not provide it".to_string());
                            return None;
                        }
                        None => {
                            rep.dev(
                                &["C05", "C03", "C12", "C09"],
                                format!("iteration {}: {} columns evaluated out of {}, result {:?}", iter, c, n, out.res),
                            );
                            return None;
                        }
                    };
                    pos += 1;
                    let moved: Vec<usize> = (0..n).filter(|&k| p.x[k].to_bits() != cur.x[k].to_bits()).collect();
                    let mut props = vec!["C05", "C03", "C09"];
                    if moved.len() != 1 {
                        if c == 0 {
                            props.push("C04");
                        }
                        rep.dev(
                            &props,
                            format!(
                                "iteration {}: finite-difference evaluation {} at {} moves {} unknowns from {}",
                                iter,
                                c,
                                short(&p.x),
                                moved.len(),
                                short(&cur.x)
                            ),
                        );
                        return None;
                    }
                    let j = moved[0];
                    if done[j] {
                        rep.dev(&["C05"], format!("iteration {}: unknown {} perturbed twice", iter, j));
                        return None;
                    }
                    done[j] = true;
                    let dx = scn.params[j].dx(cur.x[j]);
                    let got = p.x[j] - cur.x[j];
                    let xm = p.x[j].abs().max(cur.x[j].abs());
                    if (got - dx).abs() > 1e-9 * dx.abs() + 4.5e-16 * xm {
                        rep.dev(
                            if scn.params[j].custom.is_some() { &["C05", "C24"] } else { &["C05"] },
                            format!(
                                "iteration {}: unknown {} perturbed by {:e} instead of {:e} (x = {:e})",
                                iter, j, got, dx, cur.x[j]
                            ),
                        );
                        return None;
                    }
                    rep.count("fd_columns");
                    if !bits(&p.mem_before, &mem_expected) {
                        rep.dev(
                            &["C23"],
                            format!("iteration {}: column {} evaluated with the memory {} instead of {}", iter, j, short(&p.mem_before), short(&mem_expected)),
                        );
                    } else if !mem_expected.is_empty() {
                        rep.count("memory_checks");
                    }
                    if p.out == Outcome::Unusable {
                        rep.count("column_errors");
                        if pos < evs.len() {
                            rep.dev(&["C12"], "calls to the model after an unusable column".to_string());
                        }
                        match &out.res {
                            Res::JacModel("unusable", t) if *t == p.msg => (),
                            r => rep.dev(&["C12"], format!("unusable column ({}) reported as {:?}", p.msg, r)),
                        }
                        if matches!(out.res, Res::JacModel(..)) && !out.shown.contains(p.msg.as_str()) {
                            rep.dev(&["C12"], format!("displayed error {:?} does not carry {}", out.shown, p.msg));
                        }
                        return None;
                    }
                    if p.out == Outcome::Inaccurate {
                        rep.count("inaccurate_columns");
                    }
                    let fp = norms(&p.l, &p.r, &scn.upd);
                    for m in 0..MEMBERS {
                        let fpm = noisy_f(&mut noise, m, &fp, &scn.upd);
                        let dxm = dx + noise.get(m, 1.2e-16 * xm + 2e-16 * dx.abs());
                        for i in 0..n {
                            jm[m].set(i, j, (fpm[i] - fm[m][i]) / dxm);
                        }
                    }
                    if base_last {
                        base = p;
                    }
                }
                for m in 0..MEMBERS {
                    members[m].jac = Some(jm[m].clone());
                    members[m].inv = None;
                }
            }
            if members.iter().all(|m| m.jac.as_ref().unwrap().structurally_singular())
                || members[0].jac.as_ref().unwrap().a.iter().any(|v| v.is_nan())
            {
                rep.count("singular_jacobians");
                if out.res != Res::JacInv || pos < evs.len() {
                    rep.dev(
                        if out.res == Res::JacInv { &["C13", "C03"] } else { &["C13"] },
                        format!(
                            "iteration {}: singular or undefined jacobian {} not reported: {:?}",
                            iter,
                            short(&members[0].jac.as_ref().unwrap().a),
                            out.res
                        ),
                    );
                }
                return None;
            }
            if !members[0].jac.as_ref().unwrap().finite() {
                return Some("infinite jacobian".to_string());
            }
            for m in 0..MEMBERS {
                members[m].inv = noisy_inverse(members[m].jac.as_ref().unwrap(), m, &mut noise);
            }
            if members.iter().any(|m| m.inv.is_none()) {
                return Some("nearly singular jacobian".to_string());
            }
        } else {
            // nothing new is asked to the model
            kind = if is_sn { 'S' } else { 'U' };
            if let Some(E::J(..)) = evs.get(pos) {
                rep.dev(
                    if scn.damping { &["C09", "C03", "C10"] } else { &["C09", "C03"] },
                    format!("iteration {} ({}): a new jacobian was requested", iter, METHOD_CODES[scn.method]),
                );
                return None;
            }
            if is_upd {
                rep.count("quasi_newton_updates");
                let (s, y0, f_new, f_base) = upd.clone().unwrap();
                if s.iter().all(|v| *v == 0.0) {
                    if out.res == Res::JacInv && pos == evs.len() {
                        rep.count("null_steps");
                        return None;
                    }
                    if let Some(E::P(p)) = evs.get(pos) {
                        if p.x.iter().any(|v| v.is_nan()) && cur.x.iter().all(|v| !v.is_nan()) {
                            rep.dev(&["C13"], format!("iteration {}: undefined update used for a step", iter));
                        }
                    }
                    return Some("null step".to_string());
                }
                if f_new.iter().chain(&f_base).any(|v| v.abs() > 1e25) {
                    return Some("huge residuals".to_string());
                }
                let tiny = |v: &[f64]| v.iter().all(|a| a.abs() < 1e-120);
                if tiny(&s) || (tiny(&y0) && y0.iter().any(|a| *a != 0.0)) || tiny(&f_new) {
                    return Some("underflow of the update".to_string());
                }
                if (0..n).all(|i| s[i].abs() <= 1e-13 * cur.x[i].abs()) {
                    return Some("step at the level of the rounding errors".to_string());
                }
                for m in 0..MEMBERS {
                    let y: Vec<f64> = (0..n)
                        .map(|i| {
                            if scn.upd[i] == NM::Abs {
                                y0[i]
                            } else {
                                y0[i] + noise.get(m, 4e-16 * (f_new[i].abs() + f_base[i].abs()))
                            }
                        })
                        .collect();
                    let fc = noisy_f(&mut noise, m, &f_new, &scn.upd);
                    if !update(&mut members[m], scn.method, m, &s, &y, &fc, &mut noise) {
                        if m == 0 && members[0].inv.as_ref().map_or(false, |h| h.a.iter().any(|v| v.is_nan())) && out.res == Res::JacInv {
                            return None;
                        }
                        return Some("update not defined".to_string());
                    }
                }
            }
        }
        // ---- the proposed iterate
        let hs: Vec<&Mat> = members.iter().map(|m| m.inv.as_ref().unwrap()).collect();
        let f_base = norms(&base.l, &base.r, &scn.upd);
        if f_base.iter().any(|v| !v.is_finite()) {
            return Some("non finite residuals".to_string());
        }
        if base.l.iter().chain(&base.r).any(|v| v.abs() > 1e150) {
            return Some("huge residuals".to_string());
        }
        if base.x.iter().any(|v| v.abs() > 1e12) {
            return Some("huge unknowns".to_string());
        }
        let mut raws: Vec<Vec<f64>> = Vec::with_capacity(MEMBERS);
        for m in 0..MEMBERS {
            let f = noisy_f(&mut noise, m, &f_base, &scn.upd);
            raws.push(hs[m].mulv(&f).iter().map(|v| -v).collect());
        }
        let mut tol = vec![0.0; n];
        let mut mags = vec![0.0; n];
        let growth = 200.0 * (1.0 + (iter as f64 / 10.0).powi(3).min(1e4));
        let mut vague = false;
        let mut sharp = true;
        let cond = hs[0].cond();
        worst_cond = if exact { cond } else { worst_cond.max(cond) };
        // an update amplifies the rounding errors by the condition of its matrices
        let floor = if kind != 'U' { 1e-10 } else { 1e-10 + 1e-12 * cond + 1e-13 * worst_cond };
        for j in 0..n {
            let spread = (1..MEMBERS).map(|m| (raws[m][j] - raws[0][j]).abs()).fold(0.0, f64::max);
            let mag: f64 = (0..n).map(|k| (hs[0].at(j, k) * f_base[k]).abs()).sum();
            mags[j] = mag;
            tol[j] = growth * spread + floor * mag;
            if !(tol[j] <= 5e-3 * mag) && mag != 0.0 {
                vague = true;
            }
            if !(tol[j] <= 1e-7 * mag) && mag != 0.0 {
                sharp = false;
            }
            if !tol[j].is_finite() || !raws[0][j].is_finite() {
                return Some("non finite step".to_string());
            }
        }
        if !(cond < 1e10) {
            return Some("ill conditioned".to_string());
        }
        if !exact && raws[0].iter().any(|v| v.abs() > 1e12) {
            return Some("huge unknowns".to_string());
        }
        if !exact {
            // the matrices of the members disagree, whatever the step
            for i in 0..n {
                let row = (0..n).map(|k| hs[0].at(i, k).abs()).fold(0.0, f64::max);
                let away = (1..MEMBERS)
                    .flat_map(|m| (0..n).map(move |k| (m, k)))
                    .map(|(m, k)| (hs[m].at(i, k) - hs[0].at(i, k)).abs())
                    .fold(0.0, f64::max);
                if !(growth * away <= 0.5 * row) {
                    vague = true;
                }
            }
        }
        if vague {
            // the members disagree
            return Some("step not significant".to_string());
        }
        rep.items.push(Item::Mats(
            if inv_form && kind == 'U' {
                None
            } else {
                Some(members.iter().map(|m| m.jac.clone().unwrap()).collect())
            },
            members.iter().map(|m| m.inv.clone().unwrap()).collect(),
        ));
        let p = match evs.get(pos) {
            Some(E::P(p)) => p.clone(),
            Some(E::J(..)) => {
                rep.dev(&["C03", "C09"], format!("iteration {}: the jacobian is requested twice", iter));
                return None;
            }
            None if !sharp && out.res == Res::JacInv => {
                return Some("nearly singular matrix".to_string());
            }
            None => {
                rep.dev(
                    &["C13", "C12", "C04", "C01", "C07"],
                    format!(
                        "iteration {}: resolution ended with {:?} although the matrix is invertible (condition {:.1e})",
                        iter, out.res, cond
                    ),
                );
                return None;
            }
        };
        pos += 1;
        if p.x.iter().any(|v| v.is_nan()) {
            rep.dev(&["C13", "C04"], format!("iteration {}: undefined iterate {}", iter, short(&p.x)));
            return None;
        }
        if std::env::var("MONITOR_DEBUG").is_ok() {
            eprintln!("it {} kind {} cond {:.1e} drift {:.1e}", iter, kind, cond, drift);
            for j in 0..n {
                eprintln!("   {} base {:e} raw {:e} got {:e} diff {:.1e} tol {:.1e} limited {:e}", j, base.x[j], raws[0][j], p.x[j] - base.x[j], p.x[j] - base.x[j] - raws[0][j], tol[j], scn.params[j].limited(base.x[j], raws[0][j]));
            }
        }
        // what kind of evaluation is it, if not the expected one ?
        let mut bad: Option<usize> = None;
        let mut worst: f64 = 0.0;
        if exact {
            drift = 0.0;
        }
        let mut limited_only = false;
        for j in 0..n {
            let par = &scn.params[j];
            let a = par.limited(base.x[j], raws[0][j] - tol[j]);
            let b = par.limited(base.x[j], raws[0][j] + tol[j]);
            let slack = 9e-16 * base.x[j].abs().max(p.x[j].abs()).max(a.abs().min(b.abs()));
            let inside = p.x[j] >= a - slack && p.x[j] <= b + slack;
            let away = (a - p.x[j]).max(p.x[j] - b).max(0.0) + tol[j];
            if mags[j] > 0.0 {
                worst = worst.max(((away - tol[j]).max((p.x[j] - par.limited(base.x[j], raws[0][j])).abs()) - slack) / mags[j]);
            }
            if !inside && bad.is_none() {
                bad = Some(j);
                limited_only = !par.is_free() && {
                    let y = base.x[j] + raws[0][j];
                    let w = tol[j] + slack;
                    par.limited(base.x[j], raws[0][j]) != y || (p.x[j] - y).abs() > w
                };
            }
            // limits, without any reference to the expected step
            if p.x[j] < par.min || p.x[j] > par.max {
                rep.dev(
                    &["C11"],
                    format!("iteration {}: unknown {} proposed at {:e} out of [{:e}, {:e}]", iter, j, p.x[j], par.min, par.max),
                );
            }
            let mv = (p.x[j] - base.x[j]).abs();
            let mm = par.max_move(base.x[j]);
            let ulps = 4.5e-16 * (base.x[j].abs() + p.x[j].abs());
            let need = (par.min - base.x[j]).max(base.x[j] - par.max).max(0.0);
            if mv > mm * (1.0 + 1e-12) + ulps && mv > need * (1.0 + 1e-12) + ulps {
                rep.dev(
                    &["C11"],
                    format!("iteration {}: unknown {} moves by {:e} from {:e}, more than {:e}", iter, j, mv, base.x[j], mm),
                );
            }
            if !par.is_free() {
                rep.count("limit_checks");
                if par.limited(base.x[j], raws[0][j]) != base.x[j] + raws[0][j] {
                    rep.count("limits_active");
                }
            }
        }
        if bad.is_some() && !exact && worst <= 1e5 * drift.max(1e-13) {
            return Some("drift of the rounding errors".to_string());
        }
        if bad.is_some() && std::env::var("MONITOR_DEBUG").is_ok() {
            eprintln!("worst {:.1e} drift {:.1e}", worst, drift);
        }
        drift = drift.max(worst);
        if let Some(j) = bad {
            let mut props: Vec<&'static str> = match kind {
                'A' => vec!["C04", "C06"],
                'F' => vec!["C04", "C05"],
                'S' => vec!["C04", "C09"],
                _ => vec!["C07", "C04"],
            };
            if limited_only {
                props.push("C11");
            }
            if scn.params.iter().any(|p| p.custom.is_some()) {
                props.push("C24");
            }
            if kind == 'U' || kind == 'S' {
                // is it the first column of a finite-difference jacobian ?
                let moved: Vec<usize> = (0..n).filter(|&k| p.x[k].to_bits() != cur.x[k].to_bits()).collect();
                if !scn.analytic && moved.len() == 1 && (p.x[moved[0]] - cur.x[moved[0]] - scn.params[moved[0]].dx(cur.x[moved[0]])).abs() < 1e-6 * scn.params[moved[0]].dx(cur.x[moved[0]]).abs() {
                    props = vec!["C09", "C03", "C10"];
                }
            }
            if scn.damping {
                props.push("C10");
            }
            if scn.upd.iter().any(|m| *m != NM::Abs) {
                props.push("C19");
            }
            rep.dev(
                &props,
                format!(
                    "iteration {} ({}, step {}): unknown {} evaluated at {:e}, expected {:e} (from {:e}, raw step {:e} +- {:.1e})",
                    iter,
                    METHOD_CODES[scn.method],
                    kind,
                    j,
                    p.x[j],
                    scn.params[j].limited(base.x[j], raws[0][j]),
                    base.x[j],
                    raws[0][j],
                    tol[j]
                ),
            );
            return None;
        }
        rep.count("steps_checked");
        match kind {
            'A' => rep.count("steps_analytic"),
            'F' => rep.count("steps_fd"),
            'S' => rep.count("steps_stationary"),
            _ => rep.count("steps_updated"),
        }
        rep.mix(kind as u64);
        if has_limits {
            rep.mix(3);
        }
        if !bits(&p.mem_before, &mem_expected) {
            rep.dev(
                &["C23"],
                format!("iteration {}: iterate evaluated with the memory {} instead of {}", iter, short(&p.mem_before), short(&mem_expected)),
            );
        } else if !mem_expected.is_empty() {
            rep.count("memory_checks");
        }
        if p.out == Outcome::Unusable {
            rep.count("proposal_errors");
            return end_model_error(rep, out, &p, pos < evs.len());
        }
        if p.out == Outcome::Inaccurate {
            rep.count("inaccurate_proposals");
        }
        mem_expected = p.mem_after.clone();
        rep.items.push(Item::Iter(iter, p.idx));
        need_exact = false;
        let mut kept = p.clone();
        let mut ambiguous = false;
        let mid: Vec<f64> = (0..n).map(|j| 0.5 * base.x[j] + 0.5 * p.x[j]).collect();
        let still = (0..n).all(|j| close(p.x[j], base.x[j], base.x[j]));
        let next_is_mid = match evs.get(pos) {
            Some(E::P(q)) => (0..n).all(|j| close(q.x[j], mid[j], base.x[j].abs().max(p.x[j].abs()))),
            _ => false,
        };
        if next_is_mid && !still {
            rep.suspect = Some(iter);
        }
        if scn.damping {
            rep.count("damping_decisions");
            match increases(&base, &p, &scn.stop) {
                Tri::Unknown => {
                    if next_is_mid || kind == 'U' {
                        return Some("damping decision within the rounding errors".to_string());
                    }
                    ambiguous = true;
                }
                Tri::No => {
                    rep.count("damping_not_needed");
                }
                Tri::Yes => {
                    if kind == 'U' {
                        rep.count("refused");
                        rep.mix(11);
                        rep.items.push(Item::Refused);
                        need_exact = true;
                        if next_is_mid && !still {
                            rep.dev(
                                &["C10", "C03"],
                                format!("iteration {}: a step from an approximation was halved", iter),
                            );
                            return None;
                        }
                    } else {
                        rep.count("damped");
                        rep.mix(13);
                        let q = match evs.get(pos) {
                            Some(E::P(q)) if next_is_mid => q.clone(),
                            other => {
                                let what = match other {
                                    Some(E::P(q)) => format!("evaluation at {}", short(&q.x)),
                                    Some(E::J(..)) => "jacobian".to_string(),
                                    None => format!("end with {:?}", out.res),
                                };
                                rep.dev(
                                    &["C10"],
                                    format!(
                                        "iteration {}: error increased from {:?} to {:?} but no evaluation at the midpoint {}: {}",
                                        iter,
                                        stop_errors(&base.l, &base.r, &scn.stop),
                                        stop_errors(&p.l, &p.r, &scn.stop),
                                        short(&mid),
                                        what
                                    ),
                                );
                                return None;
                            }
                        };
                        pos += 1;
                        if !bits(&q.mem_before, &mem_expected) {
                            rep.dev(&["C23"], format!("iteration {}: midpoint evaluated with another memory", iter));
                        }
                        if q.out == Outcome::Unusable {
                            rep.count("midpoint_errors");
                            return end_model_error(rep, out, &q, pos < evs.len());
                        }
                        if q.out == Outcome::Inaccurate {
                            rep.count("inaccurate_midpoints");
                        }
                        rep.suspect = None;
                        mem_expected = q.mem_after.clone();
                        rep.items.push(Item::Damp(q.idx));
                        kept = q;
                    }
                }
            }
        }
        let f_new = norms(&kept.l, &kept.r, &scn.upd);
        rep.steps.push(Step {
            iter,
            kind,
            x_base: base.x.clone(),
            f_base: f_base.clone(),
            x_new: kept.x.clone(),
            f_new: f_new.clone(),
        });
        if is_upd {
            if f_new.iter().any(|v| v.is_nan()) && iter < scn.max_iter {
                // the update is undefined
                let up = !need_exact;
                if up && pos < evs.len() {
                    if let Some(E::P(q)) = evs.get(pos) {
                        if q.x.iter().any(|v| v.is_nan()) {
                            rep.dev(&["C13"], format!("iteration {}: undefined update used for a step", iter + 1));
                        }
                    }
                }
                return Some("undefined residuals".to_string());
            }
            upd = Some((sub(&kept.x, &base.x), sub(&f_new, &f_base), f_new.clone(), f_base.clone()));
        }
        cur = kept;
        if ambiguous && is_upd && kind == 'U' {
            return Some("damping decision within the rounding errors".to_string());
        }
    }
}

fn end_model_error(rep: &mut Report, out: &RunOut, p: &Pt, more: bool) -> Option<String> {
    if more {
        rep.dev(&["C12", "C03"], "calls to the model after unusable values".to_string());
    }
    match &out.res {
        Res::ModelEval("unusable", t) if *t == p.msg => {
            if !out.shown.contains(p.msg.as_str()) {
                rep.dev(&["C12"], format!("displayed error {:?} does not carry {}", out.shown, p.msg));
            }
        }
        r => rep.dev(&["C12"], format!("unusable values ({}) reported as {:?}", p.msg, r)),
    }
    None
}

/// v^T a
fn noisy_vmul(a: &Mat, v: &[f64], m: usize, noise: &mut Noise) -> Vec<f64> {
    let mut w = a.vmul(v);
    for j in 0..a.n {
        let mag: f64 = (0..a.n).map(|i| (v[i] * a.at(i, j)).abs()).sum();
        w[j] += noise.get(m, 1e-15 * mag);
    }
    w
}

/// inverse, each column with its own backward error of an elimination with partial pivoting
fn noisy_inverse(a: &Mat, m: usize, noise: &mut Noise) -> Option<Mat> {
    let x = a.inverse()?;
    if m == 0 {
        return Some(x);
    }
    let n = a.n;
    let colmax: Vec<f64> = (0..n).map(|j| (0..n).map(|i| a.at(i, j).abs()).fold(0.0, f64::max)).collect();
    let mut r = x.clone();
    for k in 0..n {
        // x_k - X (E_k x_k)
        let e: Vec<f64> = (0..n)
            .map(|_| (0..n).map(|j| noise.get(m, 2.3e-16 * colmax[j]) * x.at(j, k)).sum())
            .collect();
        let d = x.mulv(&e);
        for i in 0..n {
            r.a[i * n + k] -= d[i];
        }
    }
    if r.finite() {
        Some(r)
    } else {
        None
    }
}

/// rounding of prev - u w^T / d
fn noisy_entries(next: &mut Mat, prev: &Mat, u: &[f64], w: &[f64], d: f64, m: usize, noise: &mut Noise) {
    let n = next.n;
    for i in 0..n {
        for j in 0..n {
            let mag = prev.at(i, j).abs() + (u[i] * w[j] / d).abs();
            next.a[i * n + j] += noise.get(m, 4e-16 * mag);
        }
    }
}

/// rank-one update of a member, false if not defined
fn update(mb: &mut Member, method: usize, m: usize, s: &[f64], y: &[f64], f_new: &[f64], noise: &mut Noise) -> bool {
    let n = s.len();
    let absdot = |a: &[f64], b: &[f64]| -> f64 { a.iter().zip(b).map(|(x, y)| (x * y).abs()).sum() };
    if method % 2 == 0 {
        let j = mb.jac.clone().unwrap();
        let h = mb.inv.clone().unwrap();
        let js = j.mulv(s);
        let mut u: Vec<f64> = (0..n).map(|i| js[i] - y[i]).collect();
        for i in 0..n {
            let mag = absdot(&j.a[i * n..(i + 1) * n], s) + y[i].abs();
            u[i] += noise.get(m, 1e-15 * mag);
        }
        let w: Vec<f64> = match method {
            2 => s.to_vec(),
            4 => noisy_vmul(&j, y, m, noise),
            6 => noisy_vmul(&j, f_new, m, noise),
            _ => {
                let hy = h.mulv(y);
                (0..n)
                    .map(|i| {
                        let mag = absdot(&h.a[i * n..(i + 1) * n], y);
                        hy[i] + noise.get(m, 1e-15 * mag)
                    })
                    .collect()
            }
        };
        let mut d = dot(&w, s);
        d += noise.get(m, 1e-15 * absdot(&w, s));
        let mut next = j.rank_one_minus(&u, &w, d);
        noisy_entries(&mut next, &j, &u, &w, d, m, noise);
        let ok = next.finite();
        mb.inv = noisy_inverse(&next, m, noise);
        mb.jac = Some(next);
        ok && mb.inv.is_some()
    } else {
        let h = mb.inv.clone().unwrap();
        let hy = h.mulv(y);
        let mut u: Vec<f64> = (0..n).map(|i| hy[i] - s[i]).collect();
        for i in 0..n {
            let mag = absdot(&h.a[i * n..(i + 1) * n], y) + s[i].abs();
            u[i] += noise.get(m, 1e-15 * mag);
        }
        let w: Vec<f64> = match method {
            3 => noisy_vmul(&h, s, m, noise),
            5 => y.to_vec(),
            7 => f_new.to_vec(),
            _ => {
                let hyn: Vec<f64> = (0..n)
                    .map(|i| hy[i] + noise.get(m, 1e-15 * absdot(&h.a[i * n..(i + 1) * n], y)))
                    .collect();
                // H^T H may be formed first
                let mag: Vec<f64> = (0..n).map(|i| absdot(&h.a[i * n..(i + 1) * n], y)).collect();
                let mut w = noisy_vmul(&h, &hyn, m, noise);
                for j in 0..n {
                    let e: f64 = (0..n).map(|i| h.at(i, j).abs() * mag[i]).sum();
                    w[j] += noise.get(m, 1e-15 * e);
                }
                w
            }
        };
        let mut d = dot(&w, y);
        d += noise.get(m, 1e-15 * absdot(&w, y));
        let mut next = h.rank_one_minus(&u, &w, d);
        noisy_entries(&mut next, &h, &u, &w, d, m, noise);
        let ok = next.finite();
        mb.inv = Some(next);
        mb.jac = None;
        ok
    }
}
