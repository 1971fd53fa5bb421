//! Suites comparing several resolutions: repeatability (C14), descriptions of a problem (C18),
//! convergence (C20).

use std::cell::RefCell;
use std::process::Command;
use std::sync::{Arc, Barrier};

use nalgebra::{DMatrix, DVector, Dyn};
use newton_rootfinder as nrf;
use nrf::iteratives::{default_vec_iteratives, default_vec_iteratives_fd, Iteratives};
use nrf::model::{
    Model, ModelError, UserModelFromClosure, UserModelFromClosureAndJacobian, UserModelFromFunction,
    UserModelFromFunctionAndJacobian,
};
use nrf::residuals::{default_vec_residuals, NormalizationMethod as NM, ResidualsConfig, ResidualsValues};
use nrf::solver::{default_with_guess, RootFinder, SolverParameters};

use crate::model::{Ev, Fault, Faults};
use crate::prob::{self, Family, Gen, Problem, Term};
use crate::report::{Case, Ctx};
use crate::rng::{hash_str, Rng};
use crate::scen::{gen, guarded, has_static, method, prior, Par, PRIOR, Prof, Res, RunOut, Scn, METHOD_CODES};
use crate::spec::res_code;
use crate::trace::{dump, res_name};

fn mix_scn(c: &mut Case, s: &Scn, o: &RunOut) {
    c.mix(s.n as u64);
    c.mix(s.method as u64);
    c.mix(s.analytic as u64 + 2 * s.damping as u64 + 4 * s.stat as u64);
    c.mix(res_code(&o.res));
    c.mix(o.trace.len() as u64);
}

fn expect_same(c: &mut Case, what: &str, s: &Scn, a: &RunOut, b: &RunOut) {
    c.count("comparisons", 1);
    c.count("compared_events", a.trace.len() as u64);
    if !a.same(b) || a.shown != b.shown {
        c.fail(format!("{}: {}", what, a.first_diff(b)));
        if c.details.is_empty() {
            c.sample = s.describe();
            c.details = format!("{:#?}\n--- first\n{}\n--- second\n{}", s, dump(a), dump(b));
        }
    }
}

// ---------------------------------------------------------------- C14

/// same solver object used again
pub fn reuse(ctx: &Ctx, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    let prof = Prof { memory: 0.2, ..Prof::default() };
    let mut scn = gen(rng, &prof);
    if rng.chance(0.3) {
        crate::trace::add_faults(rng, &mut scn, &[Fault::Inaccurate, Fault::Unusable, Fault::Inaccurate]);
    }
    scn.fd_params = true;
    let fresh = scn.run();
    c.sample = scn.describe();
    // other models for the same solver
    let mut others: Vec<Scn> = Vec::new();
    let before = match rng.below(1000) {
        0..=99 => rng.range(4, 20),
        100..=103 if scn.n <= 4 && fresh.evals() < 100 => rng.range(60, 400),
        _ => rng.range(1, 3),
    };
    if before > 50 {
        c.count("more_than_fifty_resolutions_before", 1);
    }
    for _ in 0..before {
        let o = prior(rng, &scn);
        others.push(o);
    }
    let mut list: Vec<&Scn> = others.iter().collect();
    list.push(&scn);
    list.push(&scn);
    // the log activated at any time
    let mut solver = scn.clone();
    if rng.chance(0.1) {
        let path = format!("{}/reuse-{:016x}.txt", ctx.scratch, rng.next());
        solver.log = Some(path);
        solver.log_at = rng.below(list.len());
        c.count("log_activated_between", 1);
    }
    let outs = solver.run_models(&list);
    if let Some(path) = &solver.log {
        let _ = std::fs::remove_file(path);
    }
    c.evaluations = outs.len() as u64;
    let n = outs.len();
    for o in &outs[..n - 2] {
        c.count(&format!("after:{}", res_name(&o.res)), 1);
    }
    expect_same(&mut c, "solver used before with another model", &scn, &fresh, &outs[n - 2]);
    expect_same(&mut c, "second resolution by the same solver", &scn, &fresh, &outs[n - 1]);
    mix_scn(&mut c, &scn, &fresh);
    for o in &outs[..n - 2] {
        c.mix(res_code(&o.res));
        c.mix(o.trace.len() as u64);
    }
    c.nontrivial = fresh.evals() > 1 && outs[0].evals() > 1;
    c
}

/// other resolutions in between
pub fn interleaved(_ctx: &Ctx, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    let prof = Prof { memory: 0.2, ..Prof::default() };
    let scn = gen(rng, &prof);
    let a = scn.run();
    for _ in 0..rng.range(1, 3) {
        let mut b = gen(rng, &prof);
        if rng.chance(0.4) {
            b.faults.evals.insert(1 + rng.below(6), *rng.pick(&PRIOR));
        }
        let o = b.run();
        c.count(&format!("between:{}", res_name(&o.res)), 1);
    }
    let b = scn.run();
    c.sample = scn.describe();
    expect_same(&mut c, "same resolution later", &scn, &a, &b);
    mix_scn(&mut c, &scn, &a);
    c.nontrivial = a.evals() > 1;
    c
}

/// the model runs other resolutions inside its evaluation
pub fn nested(_ctx: &Ctx, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    let prof = Prof { stat: 0.0, long: 0.0, ..Prof::default() };
    let mut outer = gen(rng, &prof);
    outer.stat = false;
    outer.max_iter = outer.max_iter.min(12);
    let mut inner = gen(rng, &prof);
    if rng.chance(0.3) {
        inner = outer.clone();
        inner.method = rng.below(10);
    }
    inner.max_iter = inner.max_iter.min(8);
    if rng.chance(0.2) {
        inner.faults.evals.insert(1 + rng.below(5), *rng.pick(&PRIOR));
    }
    let plain = outer.run();
    let iplain = inner.run();
    let seen: std::rc::Rc<RefCell<Vec<RunOut>>> = Default::default();
    let every = rng.range(1, 3);
    let s2 = seen.clone();
    let i2 = inner.clone();
    let out = outer.run_prep(&move |_, m| {
        let s3 = s2.clone();
        let i3 = i2.clone();
        m.hook = Some(Box::new(move |k| {
            if k % every == 0 {
                let o = i3.run();
                s3.borrow_mut().push(o);
            }
        }));
    });
    c.sample = format!("{} with, inside, {}", outer.describe(), inner.describe());
    expect_same(&mut c, "resolution with nested ones", &outer, &plain, &out);
    for o in seen.borrow().iter() {
        expect_same(&mut c, "nested resolution", &inner, &iplain, o);
        c.count("nested", 1);
    }
    mix_scn(&mut c, &outer, &plain);
    mix_scn(&mut c, &inner, &iplain);
    c.nontrivial = !seen.borrow().is_empty() && plain.evals() > 1;
    c
}

/// concurrent resolutions
pub fn concurrent(ctx: &Ctx, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    let prof = Prof { memory: 0.2, ..Prof::default() };
    let mut scns: Vec<Scn> = (0..24).map(|_| gen(rng, &prof)).collect();
    for s in scns.iter_mut() {
        if rng.chance(0.15) {
            s.faults.evals.insert(1 + rng.below(6), *rng.pick(&PRIOR));
        }
    }
    // half of the threads resolve the same problems at the same time
    let refs: Vec<RunOut> = scns.iter().map(|s| s.run()).collect();
    let threads = 8;
    let rounds = if ctx.thorough { 6 } else { 3 };
    let barrier = Barrier::new(threads);
    let orders: Vec<Vec<usize>> = (0..threads).map(|t| if t < 4 { (0..scns.len()).collect() } else { rng.perm(scns.len()) }).collect();
    let results: Vec<Vec<(usize, RunOut)>> = std::thread::scope(|sc| {
        let hs: Vec<_> = orders
            .iter()
            .map(|order| {
                let (scns, barrier) = (&scns, &barrier);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        let mut v = Vec::new();
                        for r in 0..rounds {
                            barrier.wait();
                            for &k in order {
                                let s = &scns[k];
                                if s.stat || r == 0 {
                                    v.push((k, s.run()));
                                } else {
                                    // yields inside of the evaluations
                                    let o = s.run_prep(&|_, m| {
                                        m.hook = Some(Box::new(|_| std::thread::yield_now()));
                                    });
                                    v.push((k, o));
                                }
                            }
                        }
                        v
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (t, v) in results.iter().enumerate() {
        for (k, o) in v {
            expect_same(&mut c, &format!("thread {}", t), &scns[*k], &refs[*k], o);
            c.count("concurrent_runs", 1);
        }
    }
    c.sample = format!("{} problems in {} threads", scns.len(), threads);
    c.nontrivial = true;
    for (s, o) in scns.iter().zip(&refs) {
        mix_scn(&mut c, s, o);
    }
    c
}

/// digest of some resolutions, independent of the process
pub fn digest(seed: u64, count: u64) -> u64 {
    let mut h: u64 = 1469598103934665603;
    for k in 0..count {
        let mut rng = Rng::new(seed, 77, k);
        let mut s = gen(&mut rng, &Prof { memory: 0.2, ..Prof::default() });
        if rng.chance(0.3) {
            crate::trace::add_faults(&mut rng, &mut s, &[Fault::Inaccurate, Fault::Unusable, Fault::Nan]);
        }
        let o = s.run();
        let mut add = |v: u64| {
            h ^= v;
            h = h.wrapping_mul(1099511628211).rotate_left(11);
        };
        add(res_code(&o.res));
        add(hash_str(&o.shown));
        for e in &o.trace {
            if let Ev::Eval { x, l, r, .. } = e {
                for v in x.iter().chain(l).chain(r) {
                    add(v.to_bits());
                }
            }
        }
    }
    h
}

pub fn processes(ctx: &Ctx, k: u64, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    let seed = rng.next() >> 8;
    let count = 150;
    let here = digest(seed, count);
    let exe = std::env::current_exe().unwrap();
    let out = Command::new(exe)
        .arg("digest")
        .arg(seed.to_string())
        .arg(count.to_string())
        .current_dir(&ctx.scratch)
        .env_clear()
        .env("K", k.to_string())
        .output()
        .unwrap();
    let there = String::from_utf8_lossy(&out.stdout).trim().to_string();
    c.sample = format!("{} resolutions, seed {}", count, seed);
    c.count("resolutions_in_two_processes", count);
    c.nontrivial = true;
    c.mix(seed);
    if there != here.to_string() {
        c.fail(format!("digest {} in this process, {} in another one", here, there));
    }
    c
}

// ---------------------------------------------------------------- C18

#[derive(Clone, PartialEq, Debug)]
struct Calls {
    evals: Vec<Vec<u64>>,
    jacs: Vec<Vec<u64>>,
}

fn bits(v: &DVector<f64>) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}

thread_local! {
    static PROB: RefCell<Option<Arc<Problem>>> = RefCell::new(None);
    static CALLS: RefCell<Calls> = RefCell::new(Calls { evals: vec![], jacs: vec![] });
}

fn user_fn(x: &DVector<f64>) -> DVector<f64> {
    CALLS.with(|c| c.borrow_mut().evals.push(bits(x)));
    let v: Vec<f64> = x.iter().cloned().collect();
    PROB.with(|p| DVector::from_vec(p.borrow().as_ref().unwrap().eval(&v).0))
}
fn user_jac(x: &DVector<f64>) -> DMatrix<f64> {
    CALLS.with(|c| c.borrow_mut().jacs.push(bits(x)));
    let v: Vec<f64> = x.iter().cloned().collect();
    PROB.with(|p| {
        let (l, _) = p.borrow().as_ref().unwrap().jac(&v);
        DMatrix::from_fn(l.n, l.n, |i, j| l.at(i, j))
    })
}

/// a model written by hand, with the default methods of the trait wherever there are some
struct Hand {
    x: DVector<f64>,
    l: DVector<f64>,
    r: DVector<f64>,
    n: usize,
}
impl Model<Dyn> for Hand {
    type InaccurateValuesError = std::convert::Infallible;
    type UnusableValuesError = std::convert::Infallible;
    fn len_problem(&self) -> usize {
        self.n
    }
    fn set_iteratives(&mut self, x: &DVector<f64>) {
        self.x.copy_from(x)
    }
    fn get_iteratives(&self) -> DVector<f64> {
        self.x.clone()
    }
    fn evaluate(&mut self) -> Result<(), ModelError<Self, Dyn>> {
        self.l = user_fn(&self.x);
        Ok(())
    }
    fn get_residuals(&self) -> ResidualsValues<Dyn> {
        ResidualsValues::new(self.l.clone(), self.r.clone())
    }
}

fn code<M, D>(r: &Result<(), nrf::errors::SolverError<M, D>>) -> u64
where
    M: Model<D>,
    D: nalgebra::Dim,
    nalgebra::DefaultAllocator: nalgebra::allocator::Allocator<D> + nalgebra::allocator::Allocator<D, D>,
{
    use nrf::errors::{SolverError as E, SolverInternalError as I};
    match r {
        Ok(()) => 1,
        Err(E::NonConvergenceError) => 2,
        Err(E::FinalEvaluationError) => 3,
        Err(E::ModelInitialEvaluationError(_)) => 4,
        Err(E::ModelEvaluationError(_)) => 5,
        Err(E::JacobianError(I::InvalidJacobianError(_))) => 6,
        Err(E::JacobianError(I::InvalidJacobianInverseError)) => 7,
    }
}

struct Seen {
    what: &'static str,
    calls: Calls,
    code: Result<u64, String>,
    x: Vec<u64>,
    left: Vec<u64>,
    right: Vec<u64>,
}

/// the interpreter needs small cases
fn sized(ctx: &Ctx) -> Prof {
    if ctx.prop == "C22" {
        Prof { nmax: 2, big_n: 0.0, long: 0.0, ..Prof::default() }
    } else {
        Prof::default()
    }
}

/// All descriptions of a problem whose right members are constant
pub fn descriptions(ctx: &Ctx, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    let prof = Prof { memory: 0.0, stat: 0.0, ..sized(ctx) };
    let mut scn = gen(rng, &prof);
    if ctx.prop == "C22" {
        scn.max_iter = scn.max_iter.min(2);
    }
    let n = scn.n;
    // constant right members
    let mut p = (*scn.prob).clone();
    let zero = rng.chance(0.4);
    let consts: Vec<f64> = (0..n).map(|_| if zero { 0.0 } else { rng.uniform(-2.0, 2.0) }).collect();
    for i in 0..n {
        p.right[i] = if consts[i] == 0.0 { vec![] } else { vec![Term::Const(consts[i])] };
    }
    scn.prob = Arc::new(p);
    scn.stat = false;
    let defaults = rng.chance(if ctx.prop == "C22" { 0.0 } else { 0.4 });
    if defaults {
        scn.tol = 1e-6;
        scn.max_iter = 50;
        scn.params = vec![Par::free(); n];
        scn.stop = vec![NM::Abs; n];
        scn.upd = vec![NM::Abs; n];
    }
    c.sample = format!("{} constants {:?} defaults {}", scn.describe(), &consts[..n.min(4)], defaults);
    let reference = scn.run();
    let want = Calls {
        evals: reference
            .trace
            .iter()
            .filter_map(|e| match e {
                Ev::Eval { x, .. } => Some(x.iter().map(|v| v.to_bits()).collect()),
                _ => None,
            })
            .collect(),
        jacs: reference
            .trace
            .iter()
            .filter_map(|e| match e {
                Ev::Jac { x, .. } => Some(x.iter().map(|v| v.to_bits()).collect()),
                _ => None,
            })
            .collect(),
    };
    PROB.with(|p| *p.borrow_mut() = Some(scn.prob.clone()));
    let guess = DVector::from_vec(scn.guess.clone());
    let right = DVector::from_vec(consts.clone());
    let mut seen: Vec<Seen> = Vec::new();
    let prob = scn.prob.clone();
    let closure = |x: &DVector<f64>| -> DVector<f64> {
        CALLS.with(|c| c.borrow_mut().evals.push(bits(x)));
        let v: Vec<f64> = x.iter().cloned().collect();
        DVector::from_vec(prob.eval(&v).0)
    };
    let prob2 = scn.prob.clone();
    let closure_jac = |x: &DVector<f64>| -> DMatrix<f64> {
        CALLS.with(|c| c.borrow_mut().jacs.push(bits(x)));
        let v: Vec<f64> = x.iter().cloned().collect();
        let l = prob2.jac(&v).0;
        DMatrix::from_fn(l.n, l.n, |i, j| l.at(i, j))
    };
    macro_rules! solve {
        ($what:expr, $model:expr, $params:expr, $inputs:expr, $default:expr) => {{
            let mut m = $model;
            let ps = $params;
            let it = Iteratives::new(&ps);
            let (s, u) = if $default {
                ResidualsConfig::convert_into_vecs(default_vec_residuals(n))
            } else {
                (scn.stop.clone(), scn.upd.clone())
            };
            let rc = ResidualsConfig::new(&s, &u);
            let mut rf = if $default {
                default_with_guess(guess.clone(), &it, &rc, method(scn.method), scn.damping)
            } else {
                RootFinder::new(
                    SolverParameters::new(n, scn.tol, scn.max_iter, method(scn.method), scn.damping),
                    guess.clone(),
                    &it,
                    &rc,
                )
            };
            CALLS.with(|c| *c.borrow_mut() = Calls { evals: vec![], jacs: vec![] });
            let code = guarded(|| code(&rf.solve(&mut m)));
            let res = m.get_residuals();
            seen.push(Seen {
                what: $what,
                calls: CALLS.with(|c| c.borrow().clone()),
                code,
                x: bits(&$inputs(&m)),
                left: (0..n).map(|i| res.get_values(i).0.to_bits()).collect(),
                right: (0..n).map(|i| res.get_values(i).1.to_bits()).collect(),
            });
        }};
    }
    let fds = || scn.params.iter().map(|p| p.fd()).collect::<Vec<_>>();
    let jacs = || scn.params.iter().map(|p| p.jac()).collect::<Vec<_>>();
    for d in [false, true] {
        if d && !defaults {
            continue;
        }
        if scn.analytic {
            macro_rules! both {
                ($what:expr, $model:expr) => {
                    if d {
                        solve!($what, $model, default_vec_iteratives(n), |m: &_| Model::get_iteratives(m), true);
                    } else {
                        solve!($what, $model, jacs(), |m: &_| Model::get_iteratives(m), false);
                    }
                    solve!($what, $model, fds(), |m: &_| Model::get_iteratives(m), d);
                };
            }
            both!("closure and jacobian", {
                let mut m = UserModelFromClosureAndJacobian::new(n, &closure, &closure_jac);
                if !zero {
                    m.right = right.clone();
                }
                m
            });
            both!("function and jacobian", {
                let mut m = UserModelFromFunctionAndJacobian::new(n, user_fn, user_jac);
                if !zero {
                    m.right = right.clone();
                }
                m
            });
        } else {
            macro_rules! one {
                ($what:expr, $model:expr) => {
                    if d {
                        // the default perturbations
                        solve!($what, $model, default_vec_iteratives_fd(n), |m: &_| Model::get_iteratives(m), true);
                    } else {
                        solve!($what, $model, fds(), |m: &_| Model::get_iteratives(m), false);
                    }
                };
            }
            one!("closure", {
                let mut m = UserModelFromClosure::new(n, &closure);
                if !zero {
                    m.right = right.clone();
                }
                m
            });
            one!("function", {
                let mut m = UserModelFromFunction::new(n, user_fn);
                if !zero {
                    m.right = right.clone();
                }
                m
            });
            one!("model written by hand", {
                Hand { x: DVector::zeros(n), l: DVector::zeros(n), r: right.clone(), n }
            });
        }
    }
    let rx: Vec<u64> = reference.x.iter().map(|v| v.to_bits()).collect();
    for s in &seen {
        c.count("descriptions", 1);
        c.count(&format!("description:{}", s.what), 1);
        if s.code != Ok(res_code(&reference.res)) {
            c.fail(format!("{}: result {:?}, {:?} with the reference model", s.what, s.code, reference.res));
        } else if s.calls.evals != want.evals {
            let k = s.calls.evals.iter().zip(&want.evals).position(|(a, b)| a != b);
            c.fail(format!(
                "{}: {} evaluations, {} with the reference model, first difference {:?}",
                s.what,
                s.calls.evals.len(),
                want.evals.len(),
                k
            ));
        } else if s.calls.jacs != want.jacs {
            c.fail(format!("{}: jacobian requested at other points", s.what));
        } else if s.x != rx {
            c.fail(format!("{}: other final unknowns", s.what));
        } else if s.left != reference.l.iter().map(|v| v.to_bits()).collect::<Vec<_>>()
            && !reference.l.iter().any(|v| v.is_nan())
        {
            c.fail(format!("{}: other final left members", s.what));
        } else if s.right.iter().zip(&consts).any(|(a, b)| f64::from_bits(*a) != *b) {
            c.fail(format!("{}: the right members have changed", s.what));
        }
    }
    mix_scn(&mut c, &scn, &reference);
    c.mix(defaults as u64 + 2 * zero as u64);
    c.nontrivial = reference.evals() > 1;
    if !c.violations.is_empty() {
        c.details = format!("{:#?}\n{}", scn, dump(&reference));
    }
    c
}

/// statically and dynamically sized vectors
pub fn static_dynamic(_ctx: &Ctx, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    let mut scn = gen(rng, &Prof { nmax: 6, big_n: 0.1, memory: 0.2, ..Prof::default() });
    let mut tries = 0;
    while !has_static(scn.n) && tries < 50 {
        scn = gen(rng, &Prof { nmax: 6, big_n: 0.1, memory: 0.2, ..Prof::default() });
        tries += 1;
    }
    if rng.chance(0.3) {
        crate::trace::add_faults(rng, &mut scn, &[Fault::Inaccurate, Fault::Unusable, Fault::Nan]);
    }
    scn.stat = true;
    let a = scn.run();
    scn.stat = false;
    let b = scn.run();
    // the kind of parameters does not matter when the jacobian is provided
    if scn.analytic {
        scn.fd_params = !scn.fd_params;
        let d = scn.run();
        expect_same(&mut c, "parameters with or without perturbations", &scn, &b, &d);
    }
    c.sample = scn.describe();
    if a.same(&b) && a.shown == b.shown {
        c.count("comparisons", 1);
        c.count("identical", 1);
    } else {
        // other kernels may be used: same thing up to the rounding errors
        let mut st = scn.clone();
        st.stat = true;
        let (_, k) = crate::trace::compare_runs(&mut c, &st, &a, &scn, &b, "static sizes", "dynamic sizes");
        c.count("compared_up_to_rounding", k);
        if !c.violations.is_empty() {
            c.details = format!("{:#?}\n--- static\n{}\n--- dynamic\n{}", scn, dump(&a), dump(&b));
        }
    }
    mix_scn(&mut c, &scn, &a);
    c.nontrivial = a.evals() > 1;
    c
}

#[derive(Clone, Debug)]
enum Op {
    Set(Vec<f64>),
    Eval,
    Jac,
    Memory,
}

/// The adapters alone
pub fn adapters(ctx: &Ctx, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    let scn = gen(rng, &Prof { memory: 0.0, ..sized(ctx) });
    let n = scn.n;
    PROB.with(|p| *p.borrow_mut() = Some(scn.prob.clone()));
    c.sample = scn.describe();
    c.nontrivial = true;
    c.mix(n as u64);
    let prob = scn.prob.clone();
    let f = move |x: &DVector<f64>| user_fn(x);
    let j = move |x: &DVector<f64>| user_jac(x);
    let unit = if rng.chance(0.4) { 10f64.powf(rng.uniform(-320.0, 300.0)) } else { 1.0 };
    let right: Vec<f64> = (0..n).map(|_| unit * rng.uniform(-2.0, 2.0)).collect();
    let xs: Vec<Vec<f64>> = (0..4).map(|_| (0..n).map(|_| rng.uniform(-3.0, 3.0)).collect()).collect();
    let set_at = rng.below(5);
    let ops: Vec<Op> = (0..rng.range(0, 12))
        .map(|_| match rng.below(5) {
            0 | 1 => Op::Set(
                (0..n)
                    .map(|_| match rng.below(4) {
                        0 => *rng.pick(&[0.0, -0.0, 1.0, -1.0, f64::NAN, f64::INFINITY, 5e-324, -1e300]),
                        _ => rng.uniform(-3.0, 3.0),
                    })
                    .collect(),
            ),
            2 => Op::Eval,
            3 => Op::Jac,
            _ => Op::Memory,
        })
        .collect();
    macro_rules! check {
        ($what:expr, $m:expr, $jac:expr) => {{
            let mut m = $m;
            if m.len_problem() != n {
                c.fail(format!("{}: len_problem {}", $what, m.len_problem()));
            }
            if m.jacobian_provided() != $jac {
                c.fail(format!("{}: jacobian_provided {}", $what, m.jacobian_provided()));
            }
            for (k, x) in xs.iter().enumerate() {
                if k == set_at {
                    m.right = DVector::from_vec(right.clone());
                }
                let want_right: Vec<f64> = if k >= set_at { right.clone() } else { vec![0.0; n] };
                let xv = DVector::from_vec(x.clone());
                m.set_iteratives(&xv);
                CALLS.with(|c| *c.borrow_mut() = Calls { evals: vec![], jacs: vec![] });
                if m.evaluate().is_err() {
                    c.fail(format!("{}: evaluation error", $what));
                }
                let calls = CALLS.with(|c| c.borrow().clone());
                if calls.evals != vec![bits(&xv)] {
                    c.fail(format!("{}: the function was called at {:?} instead of once at {:?}", $what, calls.evals, xv));
                }
                if m.get_iteratives() != xv || m.inputs != xv {
                    c.fail(format!("{}: iteratives {:?}, set to {:?}", $what, m.get_iteratives(), xv));
                }
                let (l, _) = prob.eval(x);
                let res = m.get_residuals();
                for i in 0..n {
                    let (a, b) = res.get_values(i);
                    c.count("adapter_values", 1);
                    if !(a == l[i] || (a.is_nan() && l[i].is_nan())) || b != want_right[i] {
                        c.fail(format!("{}: equation {}: {:e} = {:e}, expected {:e} = {:e}", $what, i, a, b, l[i], want_right[i]));
                    }
                }
                if $jac {
                    match m.get_jacobian() {
                        Ok(v) => {
                            let (jl, jr) = v.get_jacobians();
                            let want = prob.jac(x).0;
                            for i in 0..n {
                                for q in 0..n {
                                    c.count("adapter_jacobian_entries", 1);
                                    let w = want.at(i, q);
                                    if !(jl[(i, q)] == w || (w.is_nan() && jl[(i, q)].is_nan())) || jr[(i, q)] != 0.0 {
                                        c.fail(format!("{}: jacobian ({}, {}) is {:e} / {:e}, expected {:e} / 0", $what, i, q, jl[(i, q)], jr[(i, q)], w));
                                    }
                                }
                            }
                            let calls = CALLS.with(|c| c.borrow().clone());
                            if calls.jacs != vec![bits(&xv)] {
                                c.fail(format!("{}: jacobian called at {:?}", $what, calls.jacs));
                            }
                        }
                        Err(_) => c.fail(format!("{}: jacobian refused", $what)),
                    }
                }
            }
            // any order of the operations: the function and its jacobian are always
            // those of the last unknowns given, the members those of the last evaluation
            let mut last = xs[3].clone();
            let mut members: Option<Vec<f64>> = Some(prob.eval(&last).0);
            for op in &ops {
                match op {
                    Op::Set(x) => {
                        last = x.clone();
                        m.set_iteratives(&DVector::from_vec(x.clone()));
                    }
                    Op::Eval => {
                        CALLS.with(|c| *c.borrow_mut() = Calls { evals: vec![], jacs: vec![] });
                        let _ = m.evaluate();
                        let calls = CALLS.with(|c| c.borrow().clone());
                        if calls.evals != vec![bits(&DVector::from_vec(last.clone()))] {
                            c.fail(format!("{}: the function was called at {:?} instead of once at {:?}", $what, calls.evals, last));
                        }
                        members = Some(prob.eval(&last).0);
                    }
                    Op::Jac => {
                        if $jac {
                            CALLS.with(|c| *c.borrow_mut() = Calls { evals: vec![], jacs: vec![] });
                            let v = m.get_jacobian();
                            let calls = CALLS.with(|c| c.borrow().clone());
                            if calls.jacs != vec![bits(&DVector::from_vec(last.clone()))] {
                                c.fail(format!("{}: jacobian called at {:?} instead of once at {:?}", $what, calls.jacs, last));
                            }
                            let want = prob.jac(&last).0;
                            if let Ok(v) = v {
                                let (jl, jr) = v.get_jacobians();
                                if (0..n * n).any(|q| {
                                    let (w, g) = (want.at(q / n, q % n), jl[(q / n, q % n)]);
                                    !(g == w || (g.is_nan() && w.is_nan())) || jr[(q / n, q % n)] != 0.0
                                }) {
                                    c.fail(format!("{}: the jacobian at {:?} is not the one of the function", $what, last));
                                }
                            }
                        }
                    }
                    Op::Memory => {
                        let mem = m.get_memory();
                        m.set_memory(&mem);
                    }
                }
                c.count("adapter_operations", 1);
                if bits(&m.get_iteratives()) != bits(&DVector::from_vec(last.clone())) {
                    c.fail(format!("{}: iteratives {:?}, set to {:?}", $what, m.get_iteratives(), last));
                }
                if let Some(l) = &members {
                    let want_right: Vec<f64> = if set_at < 4 { right.clone() } else { vec![0.0; n] };
                    let res = m.get_residuals();
                    for i in 0..n {
                        let (a, b) = res.get_values(i);
                        if !(a == l[i] || (a.is_nan() && l[i].is_nan())) || b != want_right[i] {
                            c.fail(format!("{}: equation {} after {:?}: {:e} = {:e}, expected {:e} = {:e}", $what, i, op, a, b, l[i], want_right[i]));
                        }
                    }
                }
            }
        }};
    }
    check!("UserModelFromFunction", UserModelFromFunction::new(n, user_fn), false);
    check!("UserModelFromFunctionAndJacobian", UserModelFromFunctionAndJacobian::new(n, user_fn, user_jac), true);
    check!("UserModelFromClosure", UserModelFromClosure::new(n, &f), false);
    check!("UserModelFromClosureAndJacobian", UserModelFromClosureAndJacobian::new(n, &f, &j), true);
    c
}

// ---------------------------------------------------------------- C13

/// Constant residuals with a jacobian claiming otherwise: the first update gives a matrix exactly
/// singular (or undefined), in whatever order it is computed (powers of two only).
pub fn plateau(_ctx: &Ctx, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    let n = if rng.chance(0.6) { 1 } else { 2 };
    let two = |rng: &mut Rng| 2f64.powi(rng.range(0, 20) as i32 - 10);
    let (value, slope) = (two(rng) * rng.sign(), two(rng) * rng.sign());
    let method = rng.range(2, 9);
    let s = Scn {
        prob: Arc::new(Problem {
            n,
            family: "plateau",
            left: (0..n).map(|i| vec![Term::Const(value), Term::Slope(slope, i)]).collect(),
            right: vec![vec![]; n],
            root: None,
            mem_len: 0,
            mem_gain: 0.0,
            mem_opaque: None,
            units: None,
        }),
        n,
        method,
        damping: rng.chance(0.5),
        tol: value.abs() / 2.0,
        max_iter: rng.range(2, 30),
        stop: vec![NM::Abs; n],
        upd: vec![NM::Abs; n],
        params: vec![Par::free(); n],
        analytic: true,
        fd_params: rng.chance(0.5),
        stat: rng.chance(0.5),
        guess: (0..n).map(|_| rng.below(9) as f64 - 4.0).collect(),
        faults: Faults::default(),
        log: None,
        log_at: 0,
        before: Vec::new(),
    };
    c.sample = s.describe();
    let o = s.run();
    c.count("singular_approximations", 1);
    let jacs = o.trace.iter().filter(|e| matches!(e, Ev::Jac { .. })).count();
    if o.res != Res::JacInv || jacs != 1 || o.evals() != 2 {
        c.fail(format!(
            "{}: singular approximation at iteration 2: result {:?} after {} evaluations and {} jacobians",
            METHOD_CODES[method],
            o.res,
            o.evals(),
            jacs
        ));
        c.details = format!("{:#?}\n{}", s, dump(&o));
    }
    mix_scn(&mut c, &s, &o);
    c.mix(value.to_bits());
    c.mix(slope.to_bits());
    c.nontrivial = true;
    c
}

/// A triangular jacobian, with finite entries and pivots, whose inverse is beyond the range of
/// the numbers (powers of two only): it cannot be inverted, whatever the order of the operations
pub fn overflow(_ctx: &Ctx, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    let n = rng.range(2, 7);
    let two = |rng: &mut Rng, lo: i32, hi: i32| 2f64.powi(lo + rng.below((hi - lo) as usize + 1) as i32) * rng.sign();
    let mut j = vec![vec![0.0; n]; n];
    for (i, row) in j.iter_mut().enumerate() {
        row[i] = two(rng, -3, 3);
    }
    let hi = rng.range(1, n - 1);
    let lo = rng.below(hi);
    j[lo][lo] = two(rng, -600, -580);
    j[hi][hi] = two(rng, -600, -580);
    j[lo][hi] = two(rng, -50, 200);
    let (rows, cols) = (rng.perm(n), rng.perm(n));
    let upper = rng.chance(0.5);
    let mut left = vec![vec![]; n];
    let mut right = vec![vec![]; n];
    for i in 0..n {
        left[rows[i]].push(Term::Const(two(rng, 0, 4)));
        for k in 0..n {
            let v = if upper { j[i][k] } else { j[k][i] };
            if v != 0.0 {
                if rng.chance(0.5) {
                    left[rows[i]].push(Term::Lin(v, cols[k]));
                } else {
                    right[rows[i]].push(Term::Lin(-v, cols[k]));
                }
            }
        }
    }
    let mut params = vec![Par::free(); n];
    if rng.chance(0.5) {
        for p in params.iter_mut() {
            p.max_abs = rng.uniform(0.1, 10.0);
        }
    }
    let s = Scn {
        prob: Arc::new(Problem {
            n,
            family: "overflow",
            left,
            right,
            root: None,
            mem_len: 0,
            mem_gain: 0.0,
            mem_opaque: None,
            units: None,
        }),
        n,
        method: rng.below(10),
        damping: rng.chance(0.5),
        tol: 1e-6,
        max_iter: rng.range(1, 30),
        stop: vec![NM::Abs; n],
        upd: vec![NM::Abs; n],
        params,
        analytic: true,
        fd_params: rng.chance(0.5),
        stat: has_static(n) && rng.chance(0.5),
        guess: vec![0.0; n],
        faults: Faults::default(),
        log: None,
        log_at: 0,
        before: Vec::new(),
    };
    c.sample = s.describe();
    let o = s.run();
    c.count("inverses_beyond_the_range", 1);
    let jacs = o.trace.iter().filter(|e| matches!(e, Ev::Jac { .. })).count();
    if o.res != Res::JacInv || jacs != 1 || o.evals() != 1 {
        c.fail(format!(
            "{}: the inverse of the jacobian is beyond the range of the numbers: result {:?} after {} evaluations and {} jacobians",
            METHOD_CODES[s.method],
            o.res,
            o.evals(),
            jacs
        ));
        c.details = format!("{:#?}\n{}", s, dump(&o));
    }
    mix_scn(&mut c, &s, &o);
    c.mix((lo * 10 + hi) as u64);
    c.nontrivial = true;
    c
}

// ---------------------------------------------------------------- C20

fn well_conditioned(rng: &mut Rng, family: Family, eps: f64, delta: f64) -> Scn {
    let n = match rng.below(1000) {
        0..=99 => *rng.pick(&[8, 10, 14, 20]),
        100..=104 => *rng.pick(&[30, 45, 70, 100]),
        _ => rng.range(1, 6),
    };
    let norms = rng.chance(0.3) && family == Family::Mild;
    let g = Gen { family, n, zero_right: !norms && rng.chance(0.4), scaled: !norms && rng.chance(0.3), offset: norms, mild_eps: eps, units: (1.0, 1.0) };
    let p = prob::generate(rng, &g);
    let root = p.root.clone().unwrap();
    let guess: Vec<f64> = root.iter().map(|r| r + delta * rng.uniform(0.3, 1.0) * rng.sign() * if g.scaled { r.abs().max(1e-2) } else { 1.0 }).collect();
    let meth = if norms { *rng.pick(&[NM::Rel, NM::Adapt, NM::Abs]) } else { NM::Abs };
    let analytic = rng.chance(0.5);
    Scn {
        prob: Arc::new(p),
        n,
        method: rng.below(10),
        damping: rng.chance(0.5),
        tol: 1e-9,
        max_iter: 60,
        stop: vec![NM::Abs; n],
        upd: vec![meth; n],
        params: vec![Par::free(); n],
        analytic,
        fd_params: rng.chance(0.5),
        stat: has_static(n) && rng.chance(0.3),
        guess,
        faults: Faults::default(),
        log: None,
        log_at: 0,
        before: Vec::new(),
    }
}

/// number of iterations from the number of evaluations
fn iterations(s: &Scn, o: &RunOut) -> usize {
    let rep = crate::spec::check(s, o, true);
    rep.counters.get("iterations").copied().unwrap_or(0) as usize
}

fn to_root(s: &Scn, o: &RunOut, c: &mut Case) {
    let root = s.prob.root.as_ref().unwrap();
    // distance allowed by the tolerance on the residuals
    let (jl, jr) = s.prob.jac(root);
    let mut j = crate::lin::Mat::zeros(s.n);
    for q in 0..s.n * s.n {
        j.a[q] = jl.a[q] - jr.a[q];
    }
    let inv = match j.inverse() {
        Some(i) => i,
        None => return,
    };
    let (l, _) = s.prob.eval(root);
    let size: Vec<f64> = (0..s.n).map(|i| (0..s.n).map(|q| jl.at(i, q).abs() * (root[q].abs() + 1.0)).sum::<f64>() + l[i].abs()).collect();
    for i in 0..s.n {
        let allowed: f64 = (0..s.n).map(|q| inv.at(i, q).abs() * (s.tol + 1e-13 * size[q])).sum::<f64>() * 10.0 + 1e-12 * root[i].abs();
        c.count("root_components", 1);
        if !((o.x[i] - root[i]).abs() <= allowed) {
            c.fail(format!("unknown {} ends at {:e}, the root is {:e} (+- {:.1e})", i, o.x[i], root[i], allowed));
            return;
        }
    }
}

pub fn affine(_ctx: &Ctx, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    let delta = 10f64.powf(rng.uniform(-1.0, 2.0));
    let mut s = well_conditioned(rng, Family::Affine, 0.0, delta);
    let (l0, r0) = s.prob.eval(&s.guess);
    let size = l0.iter().chain(&r0).fold(0.0f64, |m, v| m.max(v.abs()));
    s.tol = (1e-9 * size).max(1e-9);
    if !s.analytic {
        s.tol = (1e-8 * size).max(1e-8);
    }
    // the starting point must not be a solution
    if (0..s.n).all(|i| (l0[i] - r0[i]).abs() <= 1e3 * s.tol) {
        return c;
    }
    c.sample = s.describe();
    let o = s.run();
    let k = iterations(&s, &o);
    let most = if s.analytic { 1 } else { 3 };
    c.count("affine_runs", 1);
    if o.res != Res::Ok || k > most || (s.analytic && o.evals() != 2) {
        c.fail(format!("result {:?} after {} iterations and {} evaluations, {} iterations expected", o.res, k, o.evals(), most));
    } else {
        to_root(&s, &o, &mut c);
    }
    c.nontrivial = true;
    c.mix(s.damping as u64);
    mix_scn(&mut c, &s, &o);
    if !c.violations.is_empty() {
        c.details = format!("{:#?}\n{}", s, dump(&o));
    }
    c
}

/// affine system, step limits: the number of iterations is the one the limits impose
pub fn affine_limited(_ctx: &Ctx, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    let delta = rng.uniform(1.0, 20.0);
    let mut s = well_conditioned(rng, Family::Affine, 0.0, delta);
    s.damping = false;
    s.analytic = true;
    s.max_iter = 60;
    let root = s.prob.root.clone().unwrap();
    let target = rng.range(1, 12) as f64;
    for j in 0..s.n {
        let d = (root[j] - s.guess[j]).abs();
        if rng.chance(0.7) {
            s.params[j].max_abs = d / (target * rng.uniform(0.3, 1.0) + 0.03);
        }
        if rng.chance(0.2) {
            s.params[j].max_rel = rng.uniform(0.3, 2.0);
        }
        if rng.chance(0.3) {
            s.params[j].min = root[j].min(s.guess[j]) - d;
        }
        if rng.chance(0.3) {
            s.params[j].max = root[j].max(s.guess[j]) + d;
        }
    }
    let (l0, r0) = s.prob.eval(&s.guess);
    let size = l0.iter().chain(&r0).fold(0.0f64, |m, v| m.max(v.abs()));
    s.tol = (1e-8 * size).max(1e-8);
    // the raw step is always root - x
    let mut x = s.guess.clone();
    let mut want = None;
    let mut stuck = false;
    for k in 0..=s.max_iter {
        let (l, r) = s.prob.eval(&x);
        let e = (0..s.n).map(|i| (l[i] - r[i]).abs()).fold(0.0, f64::max);
        if e <= s.tol {
            if e > 0.01 * s.tol {
                return c;
            }
            want = Some(k);
            break;
        }
        if e < 100.0 * s.tol {
            return c;
        }
        let next: Vec<f64> = (0..s.n).map(|j| s.params[j].limited(x[j], root[j] - x[j])).collect();
        stuck |= (0..s.n).all(|j| (next[j] - x[j]).abs() <= 1e-6 * (root[j] - x[j]).abs().max(s.guess[j].abs()));
        x = next;
    }
    c.sample = s.describe();
    let o = s.run();
    let k = o.evals() - 1;
    c.count("limited_runs", 1);
    match want {
        Some(w) => {
            c.count("limited_iterations", w as u64);
            if o.res != Res::Ok || k != w {
                c.fail(format!("result {:?} after {} iterations, {} imposed by the limits", o.res, k, w));
            } else {
                to_root(&s, &o, &mut c);
            }
        }
        None => {
            // no update from a null step
            let null_step = stuck && s.method >= 2 && o.res == Res::JacInv;
            if o.res != Res::NonConv && !null_step {
                c.fail(format!("result {:?} after {} iterations, the limits do not allow to get there in {}", o.res, k, s.max_iter));
            }
        }
    }
    c.nontrivial = want.map_or(true, |w| w > 1);
    mix_scn(&mut c, &s, &o);
    if !c.violations.is_empty() {
        c.details = format!("{:#?}\n{}", s, dump(&o));
    }
    c
}

pub fn mild(_ctx: &Ctx, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    let delta = rng.uniform(0.01, 0.15);
    let mut s = well_conditioned(rng, Family::Mild, 0.1, delta);
    let (l0, r0) = s.prob.eval(s.prob.root.as_ref().unwrap());
    let size = l0.iter().chain(&r0).fold(1.0f64, |m, v| m.max(v.abs()));
    s.tol = 1e-9 * size;
    c.sample = s.describe();
    let o = s.run();
    let k = iterations(&s, &o);
    let most = if s.method == 0 { 8 } else { 25 };
    c.count("mild_runs", 1);
    c.count(&format!("converged:{}", METHOD_CODES[s.method]), (o.res == Res::Ok) as u64);
    let key = format!("iterations:{}:{}", METHOD_CODES[s.method], k.min(30));
    c.count(&key, 1);
    if o.res != Res::Ok || k > most {
        c.fail(format!("result {:?} after {} iterations, at most {} expected", o.res, k, most));
    } else {
        to_root(&s, &o, &mut c);
    }
    c.nontrivial = k > 0;
    c.mix(k as u64);
    mix_scn(&mut c, &s, &o);
    if !c.violations.is_empty() {
        c.details = format!("{:#?}\n{}", s, dump(&o));
    }
    c
}

// ---------------------------------------------------------------- marathons (C03, C13)

/// Resolutions without solution, much longer than those followed call by call: only the number of
/// evaluations, the ending and the distance covered are observed
pub fn marathon(_ctx: &Ctx, rng: &mut Rng) -> Case {
    use std::cell::Cell;
    let mut c = Case::default();
    let n = rng.range(1, 2);
    let budget = match rng.below(8) {
        0 => rng.range(65530, 65540),
        1 => rng.range(32765, 32770),
        2 => rng.range(9990, 10010),
        3 => rng.range(99_990, 100_010),
        4 => 262_145,
        _ => rng.range(2000, 150_000),
    };
    let damping = rng.chance(0.3);
    let stationary = rng.chance(0.4);
    // constant residuals, and an inverse (powers of two) leading one step further each time
    let value = 2f64.powi(rng.range(0, 20) as i32 - 10) * rng.sign();
    let slope = 2f64.powi(rng.range(0, 20) as i32 - 10) * rng.sign();
    let analytic = !stationary && rng.chance(0.5);
    let evals = Cell::new(0u64);
    let jacs = Cell::new(0u64);
    let start: Vec<f64> = (0..n).map(|_| rng.below(9) as f64 - 4.0).collect();
    c.sample = format!(
        "n={} budget={} damping={} stationary={} analytic={} value={:e} slope={:e}",
        n, budget, damping, stationary, analytic, value, slope
    );
    c.mix(budget as u64);
    c.mix(damping as u64 + 2 * stationary as u64 + 4 * analytic as u64 + 8 * n as u64);
    c.mix(slope.to_bits());
    c.nontrivial = true;
    // with finite differences: x |-> |x| + 1 leads from 1 to -1 and back
    let fd = !analytic && !stationary;
    let damping = damping && !fd;
    let f = |x: &DVector<f64>| -> DVector<f64> {
        evals.set(evals.get() + 1);
        if fd {
            x.map(|v| v.abs() + 1.0)
        } else {
            DVector::from_element(n, value)
        }
    };
    let j = |_x: &DVector<f64>| -> DMatrix<f64> {
        jacs.set(jacs.get() + 1);
        DMatrix::from_diagonal_element(n, n, slope)
    };
    let start = if fd { start.iter().map(|v| v + 0.3217).collect() } else { start };
    let guess = DVector::from_vec(start.clone());
    let m = if stationary { method(1) } else { method(0) };
    let stop = vec![NM::Abs; n];
    let rc = ResidualsConfig::new(&stop, &stop);
    let sp = SolverParameters::new(n, 1e-300, budget, m, damping);
    let (code, last) = if fd {
        let ps = default_vec_iteratives_fd(n);
        let it = Iteratives::new(&ps);
        let mut rf = RootFinder::new(sp, guess, &it, &rc);
        let mut model = UserModelFromClosure::new(n, &f);
        let code = guarded(|| code(&rf.solve(&mut model)));
        (code, model.get_iteratives())
    } else {
        let ps = default_vec_iteratives(n);
        let it = Iteratives::new(&ps);
        let mut rf = RootFinder::new(sp, guess, &it, &rc);
        let mut model = UserModelFromClosureAndJacobian::new(n, &f, &j);
        let code = guarded(|| code(&rf.solve(&mut model)));
        (code, model.get_iteratives())
    };
    c.count("marathons", 1);
    c.count("marathon_evaluations", evals.get());
    let b = budget as u64;
    let ok = code == Ok(2);
    if !ok {
        c.fail(format!("{}: ended with {:?} after {} evaluations", c.sample, code, evals.get()));
        return c;
    }
    let per_iteration = 1 + if fd { n as u64 } else { 0 };
    let (least, most) = (1 + b * per_iteration, 1 + b * (per_iteration + damping as u64));
    if evals.get() < least || evals.get() > most {
        c.fail(format!("{}: {} evaluations, expected {} to {}", c.sample, evals.get(), least, most));
    }
    let want_jacs = if fd { 0 } else if stationary { 1 } else { b };
    if jacs.get() != want_jacs {
        c.fail(format!("{}: {} jacobians, expected {}", c.sample, jacs.get(), want_jacs));
    }
    if fd && last.iter().any(|v| (v.abs() - 1.0).abs() > 1e-3) {
        c.fail(format!("{}: ends at {:?} instead of near 1 or -1", c.sample, last));
    }
    if !fd && !damping {
        // exact: multiples of a power of two, far below 2^53 of them
        for (k, s) in start.iter().enumerate() {
            let want = s - b as f64 * (value / slope);
            if (last[k] - want).abs() > 1e-9 * (1.0 + want.abs()) {
                c.fail(format!("{}: unknown {} ends at {:e}, expected {:e}", c.sample, k, last[k], want));
            }
        }
    }
    c
}
