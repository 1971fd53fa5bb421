//! Suites deciding properties by the trace specification.

use std::sync::Arc;

use newton_rootfinder::residuals::NormalizationMethod as NM;

use crate::model::{Ev, Fault, Faults, Outcome};
use crate::prob::{Family, Term};
use crate::report::{Case, Ctx};
use crate::rng::Rng;
use crate::scen::{gen, prior, Call, Custom, Par, Prof, Res, RunOut, Scn, METHOD_CODES, NB_PERTURBATIONS, NB_POLICIES};
use crate::spec::{check, res_code, Item, Report};

pub const SIG_FD_BASE: &str = "fd-base-is-last-column";

pub fn dump(out: &RunOut) -> String {
    let mut s = String::new();
    for (k, e) in out.trace.iter().enumerate().take(400) {
        match e {
            Ev::GetMem(_) => (),
            Ev::Eval { x, l, r, out, msg, .. } => {
                s.push_str(&format!("{:4} evaluate x={:?} left={:?} right={:?} {:?} {}\n", k, x, l, r, out, msg))
            }
            e => s.push_str(&format!("{:4} {:?}\n", k, e)),
        }
    }
    s.push_str(&format!("result {:?}\nfinal unknowns {:?}\n", out.res, out.x));
    s
}

/// Decides one run with respect to a property
pub fn judge(prop: &str, scn: &Scn, out: &RunOut, c: &mut Case) -> Report {
    let mut rep = check(scn, out, true);
    let uses_f9 = !scn.analytic && matches!(prop, "C04" | "C07" | "C10" | "C11");
    if !scn.analytic && (uses_f9 || !rep.devs.is_empty()) {
        let a = check(scn, out, false);
        if !rep.devs.is_empty() && (a.devs.is_empty() || a.steps.len() > rep.steps.len()) {
            // the tree restores the model after the finite differences
            rep = a;
        } else if rep.devs.is_empty() && a.has(prop).is_some() {
            c.known.push(SIG_FD_BASE.to_string());
            c.count("known_finding_witnesses", 1);
        }
    }
    c.evaluations += 1;
    c.count("model_evaluations", out.evals() as u64);
    c.count("events", out.trace.len() as u64);
    c.add(&rep.counters);
    if let Some(r) = &rep.inconclusive {
        c.count(&format!("inconclusive:{}", r), 1);
    }
    c.count(&format!("result:{}", res_name(&out.res)), 1);
    if let Some(d) = rep.has(prop) {
        c.fail(d.msg.clone());
        c.sample = scn.describe();
        c.details = format!("{:#?}\n{}", scn, dump(out));
    } else if let Some(d) = rep.devs.first() {
        c.count(&format!("deviation_of:{}", d.props[0]), 1);
    }
    c.mix(rep.shape);
    rep
}

pub fn res_name(r: &Res) -> &'static str {
    match res_code(r) {
        1 => "success",
        2 => "nonconvergence",
        3 => "final_evaluation_error",
        4 => "initial_evaluation_error",
        5 => "model_evaluation_error",
        6 => "jacobian_model_error",
        7 => "jacobian_not_invertible",
        8 => "panic_of_the_user_code",
        9 => "panic",
        _ => "out_of_fuel",
    }
}

/// Random faults in the first evaluations of a run
pub fn add_faults(rng: &mut Rng, scn: &mut Scn, kinds: &[Fault]) {
    let span = 2 + rng.below(3 * (scn.n + 2));
    for _ in 0..rng.range(1, 4) {
        let k = 1 + rng.below(span);
        scn.faults.evals.insert(k, *rng.pick(kinds));
    }
    if scn.analytic && rng.chance(0.3) {
        let k = 1 + rng.below(6);
        scn.faults.jacs.insert(k, *rng.pick(kinds));
    }
    if scn.max_iter > 100 {
        if rng.chance(0.3) {
            // late in the resolution
            scn.faults.evals.insert(rng.range(100, 100 + 2 * scn.max_iter), *rng.pick(kinds));
        }
        if kinds.contains(&Fault::Nan) && rng.chance(0.15) {
            // the stationary method goes on with undefined values until the budget is exhausted
            scn.method = 1;
            scn.faults = Faults::default();
            scn.faults.evals.insert(rng.range(scn.n + 2, scn.n + 40), Fault::Nan);
            return;
        }
    }
    if rng.chance(0.1) {
        scn.faults.all_inaccurate = true;
    }
    if rng.chance(0.1) {
        scn.faults.inaccurate_beyond = Some(rng.uniform(0.1, 3.0));
    }
}

pub const INACC: [Fault; 1] = [Fault::Inaccurate];
pub const ERRS: [Fault; 4] = [Fault::Inaccurate, Fault::Unusable, Fault::Inaccurate, Fault::Inaccurate];
pub const NUMS: [Fault; 5] = [Fault::Inaccurate, Fault::Nan, Fault::Inf, Fault::Unusable, Fault::Inaccurate];

pub fn nontrivial(rep: &Report, scn: &Scn) -> bool {
    let _ = scn;
    rep.counters.get("iterations").copied().unwrap_or(0) > 0
}

/// One generated scenario, checked against the trace specification
pub fn trace_case(ctx: &Ctx, rng: &mut Rng, prof: &Prof, faults: f64, kinds: &[Fault]) -> Case {
    let mut c = Case::default();
    let mut scn = gen(rng, prof);
    if rng.chance(faults) {
        add_faults(rng, &mut scn, kinds);
    }
    if scn.n < 12 && rng.chance(0.08) {
        // the solver served before
        for _ in 0..rng.range(1, 2) {
            let b = prior(rng, &scn);
            scn.before.push(b);
        }
        c.count("solvers_used_before", 1);
    }
    c.sample = scn.describe();
    if ctx.prop == "C13" && rng.chance(0.1) {
        // the log is one more consumer of undefined values
        let path = format!("{}/hostile-{:016x}.txt", ctx.scratch, rng.next());
        scn.log = Some(path);
    }
    let out = scn.run();
    if let Some(path) = &scn.log {
        c.count("runs_with_log", 1);
        let _ = std::fs::remove_file(path);
    }
    let rep = judge(ctx.prop, &scn, &out, &mut c);
    c.nontrivial = nontrivial(&rep, &scn);
    c
}

/// Limits and perturbations that are not those of the library
pub fn policies_case(ctx: &Ctx, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    let prof = Prof { limits: 0.5, big_dx: 0.2, ..Prof::default() };
    let mut scn = gen(rng, &prof);
    let n = scn.n;
    let uniform = if rng.chance(0.4) { Some(rng.below(NB_POLICIES as usize) as u8) } else { None };
    for j in 0..n {
        if uniform.is_none() && rng.chance(0.25) {
            // one of the library, among others
            continue;
        }
        let p = &mut scn.params[j];
        let size = scn.guess[j].abs().max(1e-3);
        *p = Par { dx_abs: p.dx_abs, dx_rel: p.dx_rel, sum: p.sum, ..Par::free() };
        let mut kind = uniform.unwrap_or_else(|| rng.below(NB_POLICIES as usize) as u8);
        if kind == 5 && (uniform.is_some() || rng.chance(0.5)) {
            kind = 0;
        }
        let strength = match kind {
            4 => size * 10f64.powf(rng.uniform(-9.0, -3.0)),
            2 => size * 10f64.powf(rng.uniform(-1.5, 1.0)),
            _ => rng.uniform(0.3, 1.0),
        };
        p.custom = Some(Custom { kind, strength, pert: rng.below(NB_PERTURBATIONS as usize) as u8 });
    }
    if rng.chance(0.1) {
        add_faults(rng, &mut scn, &INACC);
    }
    if rng.chance(0.05) {
        scn.log = Some(format!("{}/policies-{:016x}.txt", ctx.scratch, rng.next()));
    }
    c.sample = scn.describe();
    let (out, calls) = scn.run_policies();
    if let Some(path) = &scn.log {
        let text = std::fs::read_to_string(path).unwrap_or_default();
        for p in &scn.params {
            let shown = format!("policy {:?}", p.custom);
            if out.evals() > 0 && !matches!(out.res, Res::Init(_)) && !text.contains(&shown) {
                c.fail(format!("the log does not display {:?}", shown));
            }
        }
        c.count("runs_with_log", 1);
        let _ = std::fs::remove_file(path);
    }
    if let Res::Panic(m) = &out.res {
        c.fail(format!("panic of the solver: {}", m));
    }
    let rep = judge(ctx.prop, &scn, &out, &mut c);
    c.nontrivial = nontrivial(&rep, &scn);
    // every proposal is made of what the unknowns answered
    for it in &rep.items {
        let (iter, idx) = match it {
            Item::Iter(k, i) if *k > 0 => (*k, *i),
            _ => continue,
        };
        let x = match &out.trace[idx] {
            Ev::Eval { x, .. } => x,
            _ => continue,
        };
        for j in 0..n {
            c.count("proposed_components", 1);
            let found = calls[j].iter().any(|k| match k {
                Call::Limit { next, .. } => next.to_bits() == x[j].to_bits() || (*next == 0.0 && x[j] == 0.0),
                _ => false,
            });
            if !found {
                c.fail(format!(
                    "iteration {}: unknown {} proposed at {:e}, which its step limitation never answered",
                    iter, j, x[j]
                ));
                c.details = format!("{:#?}\n{}\n{:?}", scn, dump(&out), calls[j]);
            }
        }
    }
    for j in 0..n {
        for k in &calls[j] {
            match k {
                Call::Limit { x, raw, .. } => {
                    c.count("limitations_asked", 1);
                    let known = out.trace.iter().any(|e| match e {
                        Ev::Eval { x: p, .. } => p[j].to_bits() == x.to_bits(),
                        _ => false,
                    });
                    if !known {
                        c.fail(format!("the limitation of unknown {} is asked at {:e} (raw step {:e}), where the model was never evaluated", j, x, raw));
                    }
                }
                Call::Dx { x, dx } => {
                    c.count("perturbations_asked", 1);
                    if scn.analytic {
                        c.fail(format!("a perturbation of unknown {} is asked at {:e} ({:e}) although the model provides its jacobian", j, x, dx));
                    }
                }
            }
        }
        if let Some(k) = &scn.params[j].custom {
            c.mix(k.kind as u64 * 8 + k.pert as u64);
        }
    }
    c
}

/// The tolerance is exactly the error of one of the iterates
pub fn boundary_case(ctx: &Ctx, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    let prof = Prof {
        families: vec![(Family::Mild, 0.4), (Family::Wild, 0.3), (Family::Atan, 0.3)],
        norms: 0.0,
        ..Prof::default()
    };
    let mut scn = gen(rng, &prof);
    scn.tol = 0.0;
    scn.max_iter = scn.max_iter.max(2);
    let out = scn.run();
    let errs: Vec<f64> = out
        .trace
        .iter()
        .filter_map(|e| match e {
            Ev::Eval { l, r, .. } => Some((0..scn.n).map(|i| (l[i] - r[i]).abs()).fold(0.0, f64::max)),
            _ => None,
        })
        .filter(|e| e.is_finite() && *e > 0.0)
        .collect();
    if errs.is_empty() {
        return c;
    }
    for _ in 0..3 {
        let e = *rng.pick(&errs);
        for tol in [e, f64::from_bits(e.to_bits() - 1)] {
            scn.tol = tol;
            let out = scn.run();
            c.sample = scn.describe();
            judge(ctx.prop, &scn, &out, &mut c);
            c.count("boundary_runs", 1);
            c.nontrivial = true;
            if !c.violations.is_empty() {
                return c;
            }
        }
    }
    c
}

/// Budgets beyond 32 bits; an unusable evaluation puts an end to the resolution
pub fn budget_case(ctx: &Ctx, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    let prof = Prof { big_n: 0.0, nmax: 3, far: 0.6, ..Prof::default() };
    let mut scn = gen(rng, &prof);
    let p = *rng.pick(&[8, 10, 15, 16, 20, 31, 32, 32, 33, 40, 48, 53, 62, 63, 64]);
    let big = if p == 64 { usize::MAX } else { 1usize << p };
    scn.max_iter = match rng.below(3) {
        0 => big,
        1 => big - 1,
        _ => big.saturating_add(rng.range(1, 3)),
    };
    scn.faults.evals.insert(rng.range(60, 300), Fault::Unusable);
    c.sample = scn.describe();
    let out = scn.run();
    c.count("large_budgets", 1);
    let rep = judge(ctx.prop, &scn, &out, &mut c);
    c.nontrivial = nontrivial(&rep, &scn);
    c
}

/// Many equations, satisfied but for one (or none), without any iteration
pub struct Sized_ {
    pub scn: Scn,
    pub odd: Option<usize>,
    pub kind: usize,
    pub v: Vec<f64>,
    pub w: Vec<f64>,
}

pub fn sized(rng: &mut Rng, nmax: usize) -> Sized_ {
    let mut scn = gen(rng, &Prof { big_n: 0.0, nmax: 2, memory: 0.0, ..Prof::default() });
    let n = match rng.below(4) {
        0 => rng.range(1, 20),
        1 => rng.range(20, 130),
        2 => rng.range(130, 600),
        _ => rng.range(600, nmax),
    };
    let odd = if rng.chance(0.8) { Some(if rng.chance(0.4) { n - 1 } else { rng.below(n) }) } else { None };
    scn.n = n;
    scn.stat = false;
    scn.analytic = true;
    scn.tol = *rng.pick(&[0.0, 1e-6, 1e-3, 1.0]);
    let kind = rng.below(4);
    let v: Vec<f64> = (0..n).map(|_| rng.logmag(-2.0, 2.0)).collect();
    let w: Vec<f64> = (0..n)
        .map(|i| match odd {
            Some(k) if k == i => match kind {
                0 => f64::NAN,
                1 => f64::INFINITY,
                // satisfied or not according to the normalization
                3 => v[i] * (1.0 + rng.sign() * rng.uniform(0.05, 0.8)),
                _ => v[i] + rng.sign() * rng.uniform(3.0, 30.0) * (1.0 + v[i].abs()),
            },
            _ => v[i],
        })
        .collect();
    let mut p = (*scn.prob).clone();
    p.n = n;
    p.family = "sizes";
    p.units = None;
    p.left = v.iter().map(|c| vec![Term::Const(*c)]).collect();
    p.right = w.iter().map(|c| vec![Term::Const(*c)]).collect();
    p.root = None;
    scn.prob = Arc::new(p);
    scn.guess = (0..n).map(|i| i as f64).collect();
    scn.params = vec![Par::free(); n];
    scn.stop = (0..n).map(|_| *rng.pick(&[NM::Abs, NM::Rel, NM::Adapt])).collect();
    scn.upd = scn.stop.iter().map(|s| loop {
        let u = *rng.pick(&[NM::Abs, NM::Rel, NM::Adapt]);
        if u != *s {
            break u;
        }
    }).collect();
    if let (Some(k), 3) = (odd, kind) {
        // between the error and what another normalization would give
        let e = crate::spec::norm(v[k], w[k], scn.stop[k]).abs();
        let other = crate::spec::norm(v[k], w[k], scn.upd[k]).abs();
        if (e / other - 1.0).abs() > 1e-6 {
            scn.tol = (e * other).sqrt();
        }
    }
    scn.faults = Faults::default();
    // nothing but the verdict on the initial guess
    scn.max_iter = 0;
    Sized_ { scn, odd, kind, v, w }
}

pub fn sizes_case(ctx: &Ctx, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    let Sized_ { scn, odd, kind, v, w } = sized(rng, 2100);
    let n = scn.n;
    c.sample = format!("{} equations, odd one {:?} (kind {})", n, odd, kind);
    c.mix(n as u64);
    c.mix(kind as u64);
    let out = scn.run();
    c.count("verdicts_on_sizes", 1);
    c.nontrivial = true;
    let err = odd.map(|k| crate::spec::norm(v[k], w[k], scn.stop[k]).abs());
    let want = match err {
        None => Res::Ok,
        Some(e) if e <= scn.tol => Res::Ok,
        Some(_) => Res::NonConv,
    };
    if out.res != want || out.evals() != 1 {
        c.fail(format!(
            "{} equations, the only one not satisfied is {:?} (error {:?}, tolerance {:e}): {:?} after {} evaluations, expected {:?} after one",
            n, odd, err, scn.tol, out.res, out.evals(), want
        ));
    }
    judge(ctx.prop, &scn, &out, &mut c);
    c
}

/// Every fault at every model call of a run, and pairs of faults
pub fn fault_enumeration(ctx: &Ctx, rng: &mut Rng, kinds: &[Fault]) -> Case {
    let mut c = Case::default();
    let prof = Prof {
        families: vec![(Family::Mild, 0.35), (Family::Wild, 0.25), (Family::Atan, 0.35), (Family::NoRoot, 0.05)],
        nmax: 3,
        big_n: 0.0,
        long: 0.0,
        ..Prof::default()
    };
    let mut scn = gen(rng, &prof);
    scn.max_iter = *rng.pick(&[0, 1, 2, 3, 4, 5]);
    scn.tol = *rng.pick(&[1e-2, 1e-4, 1e-6, 1e-10]);
    scn.faults = Faults::default();
    let clean = scn.run();
    let rep = judge(ctx.prop, &scn, &clean, &mut c);
    c.sample = scn.describe();
    c.nontrivial = nontrivial(&rep, &scn);
    let ne = clean.evals();
    let nj = clean.trace.iter().filter(|e| matches!(e, Ev::Jac { .. })).count();
    let mut points: Vec<(bool, usize)> = (1..=ne).map(|k| (false, k)).collect();
    points.extend((1..=nj).map(|k| (true, k)));
    for &(isjac, k) in &points {
        for &f in kinds {
            let mut s = scn.clone();
            if isjac {
                s.faults.jacs.insert(k, f);
            } else {
                s.faults.evals.insert(k, f);
            }
            let out = s.run();
            judge(ctx.prop, &s, &out, &mut c);
            c.count("faults_injected", 1);
            if !isjac && f == Fault::Inaccurate && ctx.prop == "C12" {
                transparent(&s, &clean, &out, k == ne, &mut c);
            }
            if !c.violations.is_empty() {
                return c;
            }
        }
    }
    // several faults
    for _ in 0..6 {
        let mut s = scn.clone();
        for _ in 0..rng.range(2, 4) {
            let (isjac, k) = *rng.pick(&points);
            let f = *rng.pick(kinds);
            if isjac {
                s.faults.jacs.insert(k, f);
            } else {
                s.faults.evals.insert(k, f);
            }
        }
        let out = s.run();
        judge(ctx.prop, &s, &out, &mut c);
        c.count("fault_combinations", 1);
        if !c.violations.is_empty() {
            return c;
        }
    }
    // everything inaccurate
    let mut s = scn.clone();
    s.faults.all_inaccurate = true;
    let out = s.run();
    judge(ctx.prop, &s, &out, &mut c);
    if ctx.prop == "C12" {
        transparent(&s, &clean, &out, true, &mut c);
    }
    c
}

/// inaccurate evaluations do not change the resolution
fn transparent(s: &Scn, clean: &RunOut, out: &RunOut, last_faulty: bool, c: &mut Case) {
    c.count("transparency_checks", 1);
    let a: Vec<(&Vec<f64>, &Vec<f64>, &Vec<f64>)> = clean.trace.iter().filter_map(ev_values).collect();
    let b: Vec<(&Vec<f64>, &Vec<f64>, &Vec<f64>)> = out.trace.iter().filter_map(ev_values).collect();
    let same = a.len() == b.len() && a.iter().zip(&b).all(|(p, q)| eqb(p.0, q.0) && eqb(p.1, q.1) && eqb(p.2, q.2));
    let want = if clean.res == Res::Ok && last_faulty { Res::Final } else { clean.res.clone() };
    if !same {
        c.fail("an inaccurate evaluation changed the sequence of the evaluations".to_string());
    } else if out.res != want {
        c.fail(format!("result {:?} with an inaccurate evaluation, {:?} expected", out.res, want));
    }
    if !c.violations.is_empty() && c.details.is_empty() {
        c.sample = s.describe();
        c.details = format!("{:#?}\n--- clean\n{}\n--- faulty\n{}", s, dump(clean), dump(out));
    }
}

fn ev_values(e: &Ev) -> Option<(&Vec<f64>, &Vec<f64>, &Vec<f64>)> {
    match e {
        Ev::Eval { x, l, r, .. } => Some((x, l, r)),
        _ => None,
    }
}
pub fn eqb(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits())
}

/// Same scenario with its J or inverse counterpart; methods 2..9
pub fn pair_case(ctx: &Ctx, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    let prof = Prof {
        families: vec![(Family::Affine, 0.1), (Family::Mild, 0.75), (Family::Atan, 0.15)],
        methods: (2..10).collect(),
        long: 0.0,
        far: 0.1,
        memory: 0.0,
        limits: 0.3,
        big_dx: 0.05,
        ..Prof::default()
    };
    let mut scn = gen(rng, &prof);
    scn.max_iter = scn.max_iter.max(4);
    if rng.chance(0.5) {
        scn.tol = 1e-11;
    }
    let mut other = scn.clone();
    other.method ^= 1;
    c.sample = scn.describe();
    let a = scn.run();
    let b = other.run();
    c.evaluations += 2;
    let (ea, compared) = compare_runs(&mut c, &scn, &a, &other, &b, METHOD_CODES[scn.method], METHOD_CODES[other.method]);
    let n = scn.n;
    let jacs = |o: &RunOut| o.trace.iter().filter(|e| matches!(e, Ev::Jac { .. })).count();
    c.count("jacobians", jacs(&a) as u64);
    c.nontrivial = compared > 3 + if scn.analytic { 0 } else { n as u64 };
    c.mix(scn.method as u64);
    c.mix(n as u64);
    c.mix(compared);
    c.mix(scn.analytic as u64);
    c.mix(ea as u64);
    c.mix(res_code(&a.res));
    let _ = ctx;
    if !c.violations.is_empty() {
        c.details = format!("{:#?}\n--- {}\n{}\n--- {}\n{}", scn, crate::scen::METHOD_CODES[scn.method], dump(&a), crate::scen::METHOD_CODES[other.method], dump(&b));
    }
    c
}

/// The same resolution up to the rounding errors, as long as these are not amplified.
/// Gives the number of evaluations and of compared ones.
pub fn compare_runs(c: &mut Case, scn: &Scn, a: &RunOut, other: &Scn, b: &RunOut, what_a: &str, what_b: &str) -> (usize, u64) {
    compare_renamed(c, scn, a, other, b, what_a, what_b, None)
}

/// The unknown j of `scn` is the unknown at[j] of `other`.
#[allow(clippy::too_many_arguments)]
pub fn compare_renamed(c: &mut Case, scn: &Scn, a: &RunOut, other: &Scn, b: &RunOut, what_a: &str, what_b: &str, at: Option<&[usize]>) -> (usize, u64) {
    let mut pert = Vec::new();
    for s in [scn, other] {
        for _ in 0..4 {
            let mut t = s.clone();
            let mut p = (*t.prob).clone();
            let mut rng = Rng::new(pert.len() as u64, 5, 5);
            for row in p.left.iter_mut().chain(p.right.iter_mut()) {
                // rounding-like perturbation of the model
                for term in row.iter_mut() {
                    *term = term.scaled(1.0 + rng.sign() * rng.uniform(1e-15, 4e-15));
                }
            }
            t.prob = Arc::new(p);
            pert.push(t.run());
        }
    }
    let ev = |o: &RunOut| -> Vec<(u8, Vec<f64>, Vec<f64>, Vec<f64>)> {
        o.trace
            .iter()
            .filter_map(|e| match e {
                Ev::Eval { x, l, r, .. } => Some((0, x.clone(), l.clone(), r.clone())),
                Ev::Jac { x, .. } => Some((1, x.clone(), vec![], vec![])),
                _ => None,
            })
            .collect()
    };
    let back = |e: Evs| -> Evs {
        match at {
            None => e,
            Some(at) => e.into_iter().map(|(k, x, l, r)| (k, at.iter().map(|j| x[*j]).collect(), l, r)).collect(),
        }
    };
    let (ea, eb) = (ev(a), back(ev(b)));
    let ep: Vec<_> = pert.iter().enumerate().map(|(q, o)| if q < 4 { ev(o) } else { back(ev(o)) }).collect();
    let n = scn.n;
    let mut compared = 0;
    let mut worst: f64 = 0.0;
    // as long as the updates are well conditioned
    let mut reach = usize::MAX;
    for (s, o) in [(scn, a), (other, b)] {
        let rep = check(s, o, true);
        if rep.inconclusive.is_some() {
            reach = reach.min(rep.reach);
        }
    }
    let mut scale: f64 = 1e-3;
    for k in 0..ea.len().max(eb.len()) {
        if k >= reach {
            c.count("ill_conditioned_end", 1);
            break;
        }
        let kinds_same = |e: &Vec<(u8, Vec<f64>, Vec<f64>, Vec<f64>)>, f: &Vec<(u8, Vec<f64>, Vec<f64>, Vec<f64>)>| match (e.get(k), f.get(k)) {
            (None, None) => true,
            (Some(x), Some(y)) => x.0 == y.0,
            _ => false,
        };
        // a structure depending on rounding errors is not judged
        let ok = (0..8).all(|q| kinds_same(if q < 4 { &ea } else { &eb }, &ep[q]));
        if !ok {
            c.count("sensitive_structure", 1);
            break;
        }
        let (xa, xb) = match (ea.get(k), eb.get(k)) {
            (Some(x), Some(y)) if x.0 == y.0 => (&x.1, &y.1),
            (x, y) => {
                // decisions taken on values that are close to the limit are not judged
                if near_decision(scn, &ea, k) {
                    c.count("sensitive_structure", 1);
                    break;
                }
                c.fail(format!(
                    "event {}: {} with {}, {} with {} ({:?} / {:?})",
                    k,
                    x.map_or("end".to_string(), |e| format!("{} at {:?}", if e.0 == 1 { "jacobian" } else { "evaluation" }, e.1)),
                    what_a,
                    y.map_or("end".to_string(), |e| format!("{} at {:?}", if e.0 == 1 { "jacobian" } else { "evaluation" }, e.1)),
                    what_b,
                    a.res,
                    b.res
                ));
                break;
            }
        };
        let mut stop = false;
        for j in 0..n {
            let spread = (0..8)
                .map(|q| (ep[q][k].1[j] - if q < 4 { xa[j] } else { xb[j] }).abs())
                .fold(0.0, f64::max);
            scale = (0..n).map(|i| xa[i].abs()).fold(scale, f64::max);
            let fd = if scn.analytic {
                0.0
            } else if scn.damping {
                1e-4
            } else {
                1e-6
            };
            let tol = 2000.0 * spread + (1e-7 + 10.0 * fd) * scale;
            if !(tol < 1e-2 * scale) || scale > 1e5 {
                stop = true;
                break;
            }
            let d = (xa[j] - xb[j]).abs();
            if !(d <= tol) && near_decision_any(scn, &ea, k) {
                stop = true;
                break;
            }
            if !(d <= tol) {
                c.fail(format!(
                    "event {}: unknown {} at {:e} with {} but {:e} with {} (tolerance {:.1e})",
                    k,
                    j,
                    xa[j],
                    what_a,
                    xb[j],
                    what_b,
                    tol
                ));
                stop = true;
                break;
            }
            worst = worst.max(d / scale);
        }
        if stop {
            break;
        }
        compared += 1;
    }
    c.count("compared_evaluations", compared);
    (ea.len(), compared)
}

type Evs = Vec<(u8, Vec<f64>, Vec<f64>, Vec<f64>)>;

/// was a decision (stop, damping) taken just before k on values close to its limit ?
fn near_decision(scn: &Scn, e: &Evs, k: usize) -> bool {
    let lo = k.saturating_sub(scn.n + 2);
    let err = |q: &(u8, Vec<f64>, Vec<f64>, Vec<f64>)| -> f64 {
        (0..scn.n).map(|i| crate::spec::norm(q.2[i], q.3[i], scn.stop[i]).abs()).fold(0.0, f64::max)
    };
    let es: Vec<f64> = e[lo..k.min(e.len())].iter().filter(|q| q.0 == 0).map(err).collect();
    for (i, a) in es.iter().enumerate() {
        if (a - scn.tol).abs() <= 1e-5 * scn.tol.max(*a) {
            return true;
        }
        if scn.tol < 1e-12 && *a < 1e-10 {
            return true;
        }
        for b in &es[..i] {
            if (a - b).abs() <= 1e-5 * a.max(*b) {
                return true;
            }
        }
    }
    false
}
fn near_decision_any(scn: &Scn, e: &Evs, k: usize) -> bool {
    scn.stop.iter().any(|m| *m != NM::Abs) && near_decision(scn, e, k)
}

#[allow(dead_code)]
pub fn outcome_count(out: &RunOut, o: Outcome) -> usize {
    out.trace
        .iter()
        .filter(|e| match e {
            Ev::Eval { out, .. } => *out == o,
            _ => false,
        })
        .count()
}
