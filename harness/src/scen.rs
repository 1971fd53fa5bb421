//! Scenarios: a problem, a solver configuration and injected faults; their execution.

use std::cell::RefCell;
use std::fmt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

use nalgebra::allocator::Allocator;
use nalgebra::{Const, DefaultAllocator, Dim, DimMin, Dyn, OVector, U1};
use newton_rootfinder as nrf;
use nrf::errors::{SolverError, SolverInternalError};
use nrf::iteratives::{Iterative, IterativeParams, IterativeParamsFD, Iteratives, PerturbationMethod};
use nrf::model::ModelError;
use nrf::residuals::{NormalizationMethod, ResidualsConfig};
use nrf::solver::{
    QuasiNewtonMethod as QN, ResolutionMethod, RootFinder, SolverParameters,
    UpdateQuasiNewtonMethod as UQ,
};

use crate::model::{Ev, Fault, Faults, RecModel, OUT_OF_FUEL, USER_PANIC};
use crate::prob::{self, Family, Gen, Problem};
use crate::rng::Rng;

pub const NB_METHODS: usize = 10;
pub const METHOD_CODES: [&str; NB_METHODS] = [
    "NR", "SN", "BROY1", "BROY1_INV", "BROY2", "BROY2_INV", "GRST1", "GRST1_INV", "GRST2", "GRST2_INV",
];
/// sizes run with statically sized vectors
pub fn has_static(n: usize) -> bool {
    matches!(n, 1..=6 | 8 | 10)
}
pub fn method(m: usize) -> ResolutionMethod {
    match m {
        0 => ResolutionMethod::NewtonRaphson,
        1 => ResolutionMethod::QuasiNewton(QN::StationaryNewton),
        2 => ResolutionMethod::QuasiNewton(QN::JacobianUpdate(UQ::BroydenFirstMethod)),
        3 => ResolutionMethod::QuasiNewton(QN::InverseJacobianUpdate(UQ::BroydenFirstMethod)),
        4 => ResolutionMethod::QuasiNewton(QN::JacobianUpdate(UQ::BroydenSecondMethod)),
        5 => ResolutionMethod::QuasiNewton(QN::InverseJacobianUpdate(UQ::BroydenSecondMethod)),
        6 => ResolutionMethod::QuasiNewton(QN::JacobianUpdate(UQ::GreenstadtFirstMethod)),
        7 => ResolutionMethod::QuasiNewton(QN::InverseJacobianUpdate(UQ::GreenstadtFirstMethod)),
        8 => ResolutionMethod::QuasiNewton(QN::JacobianUpdate(UQ::GreenstadtSecondMethod)),
        _ => ResolutionMethod::QuasiNewton(QN::InverseJacobianUpdate(UQ::GreenstadtSecondMethod)),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Par {
    pub max_abs: f64,
    pub max_rel: f64,
    pub min: f64,
    pub max: f64,
    pub dx_abs: f64,
    pub dx_rel: f64,
    pub sum: bool,
    /// limits or perturbations of the user
    pub custom: Option<Custom>,
}

/// An implementation of the trait `Iterative` that is not of the library
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Custom {
    pub kind: u8,
    pub strength: f64,
    pub pert: u8,
}

pub const NB_POLICIES: u8 = 9;
pub const NB_PERTURBATIONS: u8 = 5;

impl Custom {
    /// never decreasing with the raw step
    pub fn next(&self, x: f64, raw: f64) -> f64 {
        let m = self.strength;
        match self.kind {
            0 => x + raw,
            // relaxation
            1 => x + m.min(1.0) * raw,
            // saturation
            2 => x + m * (raw / m).tanh(),
            // the sign is kept
            3 => {
                let y = x + raw;
                if x > 0.0 {
                    y.max(0.1 * x)
                } else if x < 0.0 {
                    y.min(0.1 * x)
                } else {
                    y
                }
            }
            // grid
            4 => ((x + raw) / m).round() * m,
            // frozen
            5 => x,
            // multiplicative
            6 => {
                if x == 0.0 {
                    raw
                } else {
                    let r = (raw / x).clamp(-1.0, 1.0);
                    x * r.exp()
                }
            }
            // slower downwards
            7 => {
                if raw < 0.0 {
                    x + 0.2 * raw
                } else {
                    x + raw
                }
            }
            // faster than Newton
            _ => x + 1.5 * raw,
        }
    }
    pub fn dx(&self, p: &Par, x: f64) -> f64 {
        match self.pert {
            0 => p.provided_dx(x),
            1 => -p.provided_dx(x),
            2 => {
                if x > 0.0 {
                    -p.provided_dx(x)
                } else {
                    p.provided_dx(x)
                }
            }
            3 => 9.5367431640625e-7,
            _ => -1e-6 * x.abs().max(0.125).sqrt(),
        }
    }
}

impl Par {
    pub fn free() -> Par {
        Par {
            max_abs: f64::INFINITY,
            max_rel: f64::INFINITY,
            min: f64::NEG_INFINITY,
            max: f64::INFINITY,
            dx_abs: 5e-8,
            dx_rel: 5e-8,
            sum: false,
            custom: None,
        }
    }
    pub fn is_free(&self) -> bool {
        self.custom.is_none()
            && self.max_abs.is_infinite()
            && self.max_rel.is_infinite()
            && self.min.is_infinite()
            && self.max.is_infinite()
    }
    pub fn jac(&self) -> IterativeParams {
        IterativeParams::new(self.max_abs, self.max_rel, self.min, self.max)
    }
    pub fn fd(&self) -> IterativeParamsFD {
        IterativeParamsFD::new(
            self.max_abs,
            self.max_rel,
            self.min,
            self.max,
            self.dx_abs,
            self.dx_rel,
            if self.sum {
                PerturbationMethod::Sum
            } else {
                PerturbationMethod::Max
            },
        )
    }
    pub fn dx(&self, x: f64) -> f64 {
        match &self.custom {
            Some(c) => c.dx(self, x),
            None => self.provided_dx(x),
        }
    }
    pub fn provided_dx(&self, x: f64) -> f64 {
        let rel = self.dx_rel * x.abs();
        if self.sum {
            self.dx_abs + rel
        } else if rel > self.dx_abs {
            rel
        } else {
            self.dx_abs
        }
    }
    /// largest move allowed from x
    pub fn max_move(&self, x: f64) -> f64 {
        let rel = self.max_rel * x.abs();
        if rel.is_nan() || rel > self.max_abs {
            self.max_abs
        } else {
            rel
        }
    }
    pub fn limited(&self, x: f64, raw: f64) -> f64 {
        if let Some(c) = &self.custom {
            return c.next(x, raw);
        }
        let m = self.max_move(x);
        let mut s = raw;
        if s > m {
            s = m;
        }
        if s < -m {
            s = -m;
        }
        let mut y = x + s;
        if y < self.min {
            y = self.min;
        }
        if y > self.max {
            y = self.max;
        }
        y
    }
}

#[derive(Clone, Debug)]
pub struct Scn {
    pub prob: Arc<Problem>,
    pub n: usize,
    pub method: usize,
    pub damping: bool,
    pub tol: f64,
    pub max_iter: usize,
    pub stop: Vec<NormalizationMethod>,
    pub upd: Vec<NormalizationMethod>,
    pub params: Vec<Par>,
    pub analytic: bool,
    /// parameters with perturbations even if the jacobian is provided
    pub fd_params: bool,
    pub stat: bool,
    pub guess: Vec<f64>,
    pub faults: Faults,
    pub log: Option<String>,
    /// number of the resolution before which the log is activated
    pub log_at: usize,
    /// resolutions of the same solver object before this one
    pub before: Vec<Scn>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Ok,
    NonConv,
    Final,
    Init(String),
    ModelEval(&'static str, String),
    JacModel(&'static str, String),
    JacInv,
    UserPanic,
    Panic(String),
    Fuel,
}

#[derive(Clone)]
pub struct RunOut {
    pub trace: Vec<Ev>,
    pub res: Res,
    pub shown: String,
    pub x: Vec<f64>,
    pub l: Vec<f64>,
    pub r: Vec<f64>,
    pub mem: Vec<f64>,
}

impl RunOut {
    pub fn same(&self, o: &RunOut) -> bool {
        self.res == o.res
            && self.trace.len() == o.trace.len()
            && self.trace.iter().zip(&o.trace).all(|(a, b)| a.same(b))
            && self.x.iter().zip(&o.x).all(|(a, b)| a.to_bits() == b.to_bits())
            && self.l.iter().zip(&o.l).all(|(a, b)| a.to_bits() == b.to_bits())
            && self.r.iter().zip(&o.r).all(|(a, b)| a.to_bits() == b.to_bits())
    }
    pub fn first_diff(&self, o: &RunOut) -> String {
        for (k, (a, b)) in self.trace.iter().zip(&o.trace).enumerate() {
            if !a.same(b) {
                return format!("event {}: {:?} / {:?}", k, a, b);
            }
        }
        format!(
            "lengths {} / {}, results {:?} / {:?}, final {:?} / {:?}",
            self.trace.len(),
            o.trace.len(),
            self.res,
            o.res,
            self.x,
            o.x
        )
    }
    pub fn evals(&self) -> usize {
        self.trace.iter().filter(|e| matches!(e, Ev::Eval { .. })).count()
    }
}

thread_local! {
    static PANIC_MSG: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var("MONITOR_SHOW_PANICS").is_ok() {
            eprintln!("panic: {}{}", m, loc);
        }
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("{}{}", m, loc));
    }));
}

/// Runs f, gives back the message of its panic if it panicked
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(PANIC_MSG.with(|p| p.borrow().clone())),
    }
}

fn panic_res(m: String) -> Res {
    if m.contains(USER_PANIC) {
        Res::UserPanic
    } else if m.contains(OUT_OF_FUEL) {
        Res::Fuel
    } else {
        Res::Panic(m)
    }
}

pub fn classify<D: Dim>(r: Result<(), SolverError<RecModel<D>, D>>) -> (Res, String)
where
    DefaultAllocator: Allocator<D> + Allocator<D, D>,
{
    match r {
        Ok(()) => (Res::Ok, String::new()),
        Err(e) => {
            let shown = e.to_string();
            let me = |m: ModelError<RecModel<D>, D>| match m {
                ModelError::InaccurateValuesError(x) => ("inaccurate", x.0),
                ModelError::UnusableValuesError(x) => ("unusable", x.0),
            };
            let r = match e {
                SolverError::NonConvergenceError => Res::NonConv,
                SolverError::FinalEvaluationError => Res::Final,
                SolverError::ModelInitialEvaluationError(m) => Res::Init(m),
                SolverError::ModelEvaluationError(m) => {
                    let (k, t) = me(m);
                    Res::ModelEval(k, t)
                }
                SolverError::JacobianError(SolverInternalError::InvalidJacobianError(m)) => {
                    let (k, t) = me(m);
                    Res::JacModel(k, t)
                }
                SolverError::JacobianError(SolverInternalError::InvalidJacobianInverseError) => Res::JacInv,
            };
            (r, shown)
        }
    }
}

/// What was asked to the limits and perturbations of an unknown
#[derive(Clone, Copy, Debug)]
pub enum Call {
    Limit { x: f64, raw: f64, next: f64 },
    Dx { x: f64, dx: f64 },
}

#[derive(Debug)]
pub struct Policy {
    par: Par,
    pub calls: RefCell<Vec<Call>>,
}
impl Policy {
    fn new(par: Par) -> Policy {
        Policy { par, calls: RefCell::new(Vec::new()) }
    }
    fn limit(&self, x: f64, raw: f64) -> f64 {
        let next = if self.par.custom.is_some() {
            self.par.limited(x, raw)
        } else {
            self.par.jac().step_limitation(x, raw)
        };
        self.calls.borrow_mut().push(Call::Limit { x, raw, next });
        next
    }
}
impl Iterative for Policy {
    fn step_limitation(&self, x: f64, raw: f64) -> f64 {
        self.limit(x, raw)
    }
    fn compute_perturbation(&self, x: f64) -> f64 {
        let dx = self.par.dx(x);
        self.calls.borrow_mut().push(Call::Dx { x, dx });
        dx
    }
    fn with_finite_diff(&self) -> bool {
        true
    }
}
impl fmt::Display for Policy {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "policy {:?}", self.par.custom)
    }
}

#[derive(Debug)]
pub struct NoPerturbation(Policy);
impl Iterative for NoPerturbation {
    fn step_limitation(&self, x: f64, raw: f64) -> f64 {
        self.0.limit(x, raw)
    }
}
impl fmt::Display for NoPerturbation {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}

/// Something to do with each model (hooks) before a run
pub type Prep<'a, D> = &'a dyn Fn(usize, &mut RecModel<D>);

impl Scn {
    pub fn parameters(&self) -> SolverParameters {
        SolverParameters::new(self.n, self.tol, self.max_iter, method(self.method), self.damping)
    }

    pub fn describe(&self) -> String {
        let mut s = format!(
            "{} n={} {} {} {} tol={:e} max_iter={} damping={} guess={:?}",
            self.prob.family,
            self.n,
            METHOD_CODES[self.method],
            if self.analytic { "analytic" } else { "fd" },
            if self.stat { "static" } else { "dyn" },
            self.tol,
            self.max_iter,
            self.damping,
            &self.guess[..self.guess.len().min(4)]
        );
        if self.params.iter().any(|p| !p.is_free()) {
            s.push_str(" limits");
        }
        if self.stop.iter().chain(&self.upd).any(|m| *m != NormalizationMethod::Abs) {
            s.push_str(&format!(" stop={:?} upd={:?}", &self.stop[..self.n.min(3)], &self.upd[..self.n.min(3)]));
        }
        if self.prob.mem_len > 0 {
            s.push_str(&format!(" memory={}", self.prob.mem_len));
        }
        if !self.before.is_empty() {
            s.push_str(&format!(" after {} resolutions of the same solver", self.before.len()));
        }
        if !self.faults.evals.is_empty() || !self.faults.jacs.is_empty() || self.faults.all_inaccurate {
            s.push_str(&format!(" faults={:?}", self.faults));
        }
        s
    }

    fn drive<D, T>(&self, d: D, pars: &[T], models: &[&Scn], prep: Option<Prep<D>>) -> Vec<RunOut>
    where
        T: Iterative + fmt::Display + fmt::Debug,
        D: DimMin<D, Output = D>,
        DefaultAllocator: Allocator<D> + Allocator<D, D> + Allocator<U1, D>,
    {
        self.drive_with(d, self.parameters(), pars, &self.stop, &self.upd, models, prep)
    }

    /// with the given configuration
    #[allow(clippy::too_many_arguments)]
    pub fn drive_with<D, T>(
        &self,
        d: D,
        parameters: SolverParameters,
        pars: &[T],
        stop: &[NormalizationMethod],
        upd: &[NormalizationMethod],
        models: &[&Scn],
        prep: Option<Prep<D>>,
    ) -> Vec<RunOut>
    where
        T: Iterative + fmt::Display + fmt::Debug,
        D: DimMin<D, Output = D>,
        DefaultAllocator: Allocator<D> + Allocator<D, D> + Allocator<U1, D>,
    {
        let iters = Iteratives::new(pars);
        let rc = ResidualsConfig::new(stop, upd);
        let guess = OVector::<f64, D>::from_iterator_generic(d, Const::<1>, self.guess.iter().cloned());
        let mut rf = RootFinder::new(parameters, guess, &iters, &rc);
        let mut outs = Vec::new();
        for (k, ms) in models.iter().enumerate() {
            if let (Some(path), true) = (&self.log, k == self.log_at) {
                rf.activate_debug(path);
            }
            if k % 2 == 1 && self.n < 12 {
                // looking at a solver does not change it
                let _ = format!("{:?}", rf);
            }
            let mut m = RecModel::new(d, ms.prob.clone(), ms.analytic, ms.faults.clone());
            m.fuel = self.max_iter.saturating_add(2).min(80_000) * (self.n + 3) + 10;
            if let Some(p) = prep {
                p(k, &mut m);
            }
            let (res, shown) = match guarded(|| classify(rf.solve(&mut m))) {
                Ok(r) => r,
                Err(msg) => (panic_res(msg), String::new()),
            };
            outs.push(RunOut {
                trace: m.trace.borrow().clone(),
                res,
                shown,
                x: m.x.iter().cloned().collect(),
                l: m.left.iter().cloned().collect(),
                r: m.right.iter().cloned().collect(),
                mem: m.mem.clone(),
            });
        }
        outs
    }

    fn drive_dim<D>(&self, d: D, models: &[&Scn], prep: Option<Prep<D>>) -> Vec<RunOut>
    where
        D: DimMin<D, Output = D>,
        DefaultAllocator: Allocator<D> + Allocator<D, D> + Allocator<U1, D>,
    {
        if self.fd_params || models.iter().any(|m| !m.analytic) {
            let p: Vec<IterativeParamsFD> = self.params.iter().map(|p| p.fd()).collect();
            self.drive(d, &p, models, prep)
        } else {
            let p: Vec<IterativeParams> = self.params.iter().map(|p| p.jac()).collect();
            self.drive(d, &p, models, prep)
        }
    }

    fn policies_dim<D>(&self, d: D) -> (RunOut, Vec<Vec<Call>>)
    where
        D: DimMin<D, Output = D>,
        DefaultAllocator: Allocator<D> + Allocator<D, D> + Allocator<U1, D>,
    {
        if self.analytic && !self.fd_params {
            // no perturbation at all is provided
            let p: Vec<NoPerturbation> = self.params.iter().map(|p| NoPerturbation(Policy::new(*p))).collect();
            let o = self.drive(d, &p, &[self], None).pop().unwrap();
            (o, p.into_iter().map(|p| p.0.calls.into_inner()).collect())
        } else {
            let p: Vec<Policy> = self.params.iter().map(|p| Policy::new(*p)).collect();
            let o = self.drive(d, &p, &[self], None).pop().unwrap();
            (o, p.into_iter().map(|p| p.calls.into_inner()).collect())
        }
    }

    /// With the limits and perturbations of the user, their calls being recorded
    pub fn run_policies(&self) -> (RunOut, Vec<Vec<Call>>) {
        if self.stat {
            match self.n {
                1 => return self.policies_dim(Const::<1>),
                2 => return self.policies_dim(Const::<2>),
                3 => return self.policies_dim(Const::<3>),
                4 => return self.policies_dim(Const::<4>),
                5 => return self.policies_dim(Const::<5>),
                6 => return self.policies_dim(Const::<6>),
                _ => (),
            }
        }
        self.policies_dim(Dyn(self.n))
    }

    /// One solver object resolving each of the models in turn
    pub fn run_models(&self, models: &[&Scn]) -> Vec<RunOut> {
        if self.stat {
            match self.n {
                1 => return self.drive_dim(Const::<1>, models, None),
                2 => return self.drive_dim(Const::<2>, models, None),
                3 => return self.drive_dim(Const::<3>, models, None),
                4 => return self.drive_dim(Const::<4>, models, None),
                5 => return self.drive_dim(Const::<5>, models, None),
                6 => return self.drive_dim(Const::<6>, models, None),
                8 => return self.drive_dim(Const::<8>, models, None),
                10 => return self.drive_dim(Const::<10>, models, None),
                _ => (),
            }
        }
        self.drive_dim(Dyn(self.n), models, None)
    }

    pub fn run_prep(&self, prep: Prep<Dyn>) -> RunOut {
        self.drive_dim(Dyn(self.n), &[self], Some(prep)).pop().unwrap()
    }

    pub fn run(&self) -> RunOut {
        let mut models: Vec<&Scn> = self.before.iter().collect();
        models.push(self);
        self.run_models(&models).pop().unwrap()
    }
}

pub const PRIOR: [Fault; 4] = [Fault::Panic, Fault::Unusable, Fault::Inaccurate, Fault::Nan];

/// Another model for the solver of a scenario
pub fn prior(rng: &mut Rng, scn: &Scn) -> Scn {
    let mut o = scn.clone();
    o.log = None;
    o.before.clear();
    match rng.below(5) {
        0 => (),
        1 => {
            // another problem
            let g = Gen {
                family: *rng.pick(&[Family::Affine, Family::Mild, Family::Atan, Family::Wild, Family::Singular]),
                n: scn.n,
                zero_right: false,
                scaled: false,
                offset: true,
                mild_eps: 0.2,
                units: (1.0, 1.0),
            };
            o.prob = Arc::new(prob::generate(rng, &g));
            o.faults = Faults::default();
        }
        2 => {
            o.analytic = !o.analytic;
            o.faults = Faults::default();
        }
        _ => {
            let k = 1 + rng.below(3 + 2 * scn.n);
            o.faults.evals.insert(k, *rng.pick(&PRIOR));
            if rng.chance(0.3) {
                o.faults.jacs.insert(1 + rng.below(3), *rng.pick(&PRIOR));
            }
        }
    }
    o
}

/// Knobs of the scenario generator
#[derive(Clone, Debug)]
pub struct Prof {
    /// unknowns and equations of other orders of magnitude
    pub units: f64,
    pub families: Vec<(Family, f64)>,
    pub analytic: f64,
    pub methods: Vec<usize>,
    pub damping: f64,
    pub limits: f64,
    pub norms: f64,
    pub memory: f64,
    pub nmax: usize,
    pub big_n: f64,
    pub big_dx: f64,
    pub stat: f64,
    pub long: f64,
    pub far: f64,
}

impl Default for Prof {
    fn default() -> Prof {
        Prof {
            units: 0.06,
            families: vec![
                (Family::Affine, 0.15),
                (Family::Mild, 0.35),
                (Family::Wild, 0.25),
                (Family::Atan, 0.15),
                (Family::NoRoot, 0.05),
                (Family::Singular, 0.02),
                (Family::Hostile, 0.03),
            ],
            analytic: 0.5,
            methods: (0..NB_METHODS).collect(),
            damping: 0.5,
            limits: 0.4,
            norms: 0.5,
            memory: 0.15,
            nmax: 6,
            big_n: 0.05,
            big_dx: 0.15,
            stat: 0.3,
            long: 0.05,
            far: 0.3,
        }
    }
}

const NORMS: [NormalizationMethod; 3] = [
    NormalizationMethod::Abs,
    NormalizationMethod::Rel,
    NormalizationMethod::Adapt,
];

pub fn gen_params(rng: &mut Rng, prof: &Prof, root: &[f64], guess: &[f64], unit: f64) -> Vec<Par> {
    let limited = rng.chance(prof.limits);
    let fd_kind = rng.below(4);
    let dx_unit = if unit != 1.0 && rng.chance(0.6) { unit } else { 1.0 };
    (0..root.len())
        .map(|j| {
            let mut p = Par::free();
            let scale = root[j].abs().max(guess[j].abs()).max(0.1 * unit);
            if limited {
                if rng.chance(0.4) {
                    p.max_abs = scale * 10f64.powf(rng.uniform(-2.0, 0.7));
                }
                if rng.chance(0.35) {
                    p.max_rel = 10f64.powf(rng.uniform(-1.5, 0.5));
                }
                let (lo, hi) = if root[j] < guess[j] {
                    (root[j], guess[j])
                } else {
                    (guess[j], root[j])
                };
                match rng.below(8) {
                    0 => p.min = lo - scale * rng.uniform(0.0, 0.5),
                    1 => p.max = hi + scale * rng.uniform(0.0, 0.5),
                    2 => {
                        p.min = lo - scale * rng.uniform(0.0, 1.0);
                        p.max = hi + scale * rng.uniform(0.01, 1.0);
                    }
                    3 => p.max = lo + (hi - lo) * rng.uniform(0.0, 1.0),
                    4 => p.min = hi - (hi - lo) * rng.uniform(0.0, 1.0),
                    _ => (),
                }
            }
            match fd_kind {
                0 => (),
                _ => {
                    p.sum = rng.chance(0.5);
                    let big = rng.chance(prof.big_dx);
                    let e = if big { rng.uniform(-3.0, -0.5) } else { rng.uniform(-8.0, -5.0) };
                    p.dx_abs = dx_unit * 10f64.powf(e);
                    let e = if big { rng.uniform(-3.0, -0.5) } else { rng.uniform(-8.0, -5.0) };
                    p.dx_rel = 10f64.powf(e);
                }
            }
            p
        })
        .collect()
}

pub fn gen(rng: &mut Rng, prof: &Prof) -> Scn {
    let total: f64 = prof.families.iter().map(|f| f.1).sum();
    let mut u = rng.unit() * total;
    let mut family = prof.families[0].0;
    for (f, w) in &prof.families {
        if u < *w {
            family = *f;
            break;
        }
        u -= w;
    }
    let n = if rng.chance(prof.big_n) {
        if rng.chance(0.01) {
            if rng.chance(0.15) { *rng.pick(&[101, 120, 130, 150]) } else { *rng.pick(&[41, 50, 64, 65, 72]) }
        } else { *rng.pick(&[8, 8, 10, 10, 12, 12, 16, 20, 25, 33]) }
    } else {
        rng.range(1, prof.nmax)
    };
    let all_abs = !rng.chance(prof.norms);
    let zero_right = rng.chance(if all_abs { 0.4 } else { 0.05 });
    let scaled = rng.chance(0.3);
    let offset = !all_abs && rng.chance(0.8);
    let mild_eps = 10f64.powf(rng.uniform(-2.0, -0.3));
    let physical = matches!(family, Family::Affine | Family::Mild | Family::Wild | Family::Atan | Family::NoRoot);
    let units = if physical && rng.chance(prof.units) {
        (10f64.powf(rng.uniform(-12.0, 12.0)), 10f64.powf(rng.uniform(-12.0, 12.0)))
    } else {
        (1.0, 1.0)
    };
    let g = Gen {
        family,
        n,
        units,
        zero_right,
        scaled,
        offset,
        mild_eps,
    };
    let mut p = prob::generate(rng, &g);
    if rng.chance(0.06) {
        // members exchanged
        if rng.chance(0.5) {
            std::mem::swap(&mut p.left, &mut p.right);
        } else {
            for i in 0..n {
                if rng.chance(0.5) {
                    std::mem::swap(&mut p.left[i], &mut p.right[i]);
                }
            }
        }
    }
    if rng.chance(prof.memory) {
        p.mem_len = *rng.pick(&[1, 1, 2, 3, 7]);
        p.mem_gain = if rng.chance(0.5) { 1e-3 } else { 0.2 };
        if p.mem_len > 1 && rng.chance(0.3) {
            p.mem_opaque = Some(*rng.pick(&[f64::NAN, f64::INFINITY, -0.0, 1e300, 5e-324]));
        }
    }
    let center: Vec<f64> = match &p.root {
        Some(r) => r.clone(),
        None => (0..n).map(|_| units.0 * rng.uniform(-2.0, 2.0)).collect(),
    };
    let far = rng.chance(prof.far);
    let delta = if far {
        10f64.powf(rng.uniform(0.0, 1.2))
    } else {
        10f64.powf(rng.uniform(-3.0, 0.0))
    };
    let mut guess: Vec<f64> = center
        .iter()
        .map(|c| {
            if rng.chance(0.04) {
                units.0 * *rng.pick(&[0.0, 1.0, -1.0])
            } else {
                c + delta * c.abs().max(0.3 * units.0) * rng.uniform(-1.0, 1.0)
            }
        })
        .collect();
    if rng.chance(0.02) {
        guess = center.clone();
    }
    let norm = |rng: &mut Rng| -> Vec<NormalizationMethod> {
        if all_abs {
            return vec![NormalizationMethod::Abs; n];
        }
        match rng.below(4) {
            0 => vec![*rng.pick(&NORMS); n],
            _ => (0..n).map(|_| *rng.pick(&NORMS)).collect(),
        }
    };
    let stop = norm(rng);
    let upd = norm(rng);
    let params = gen_params(rng, prof, &center, &guess, units.0);
    if rng.chance(0.02) {
        // the perturbed unknown is exactly zero
        let j = rng.below(n);
        guess[j] = -params[j].dx_abs;
    }
    let mut tol = *rng.pick(&[1e-6, 1e-6, 1e-8, 1e-10, 1e-12, 1e-3, 1e-1, 1e-14, 0.0, 10.0]);
    if all_abs && rng.chance(0.7) {
        tol *= units.1;
    }
    let max_iter = if rng.chance(prof.long) {
        if n <= 2 && rng.chance(0.04) {
            rng.range(321, 1100)
        } else {
            rng.range(61, 320)
        }
    } else {
        *rng.pick(&[0, 1, 2, 3, 5, 8, 12, 20, 20, 30, 50])
    };
    let analytic = rng.chance(prof.analytic);
    let mut stat = rng.chance(prof.stat);
    if !has_static(n) {
        stat = false;
    }
    Scn {
        n,
        prob: Arc::new(p),
        method: *rng.pick(&prof.methods),
        damping: rng.chance(prof.damping),
        tol,
        max_iter,
        stop,
        upd,
        params,
        analytic,
        fd_params: rng.chance(0.5),
        stat,
        guess,
        faults: Faults::default(),
        log: None,
        log_at: 0,
        before: Vec::new(),
    }
}
