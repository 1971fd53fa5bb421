//! Instrumented model: the monitor at the boundary of the solver.
//!
//! Every call of the solver that can change or evaluate the model is recorded,
//! with the values given back to the solver.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt;
use std::sync::Arc;

use nalgebra::allocator::Allocator;
use nalgebra::{Const, DVector, DefaultAllocator, Dim, OMatrix, OVector};
use newton_rootfinder::model::{Model, ModelError};
use newton_rootfinder::residuals::{JacobianValues, ResidualsValues};

use crate::lin::Mat;
use crate::prob::Problem;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fault {
    /// error "inaccurate values", the values being the right ones
    Inaccurate,
    /// error "unusable values", the values being garbage
    Unusable,
    /// no error but one NaN component
    Nan,
    /// no error but one infinite component
    Inf,
    /// the user code panics
    Panic,
}

pub const USER_PANIC: &str = "panic-of-the-user-model";

#[derive(Debug)]
pub struct MErr(pub String);
impl fmt::Display for MErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for MErr {}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Outcome {
    Ok,
    Inaccurate,
    Unusable,
}

#[derive(Clone, Debug)]
pub enum Ev {
    Set(Vec<f64>),
    Eval {
        x: Vec<f64>,
        l: Vec<f64>,
        r: Vec<f64>,
        out: Outcome,
        msg: String,
        mem_before: Vec<f64>,
        mem_after: Vec<f64>,
    },
    Jac {
        x: Vec<f64>,
        l: Mat,
        r: Mat,
        out: Outcome,
        msg: String,
    },
    GetMem(Vec<f64>),
    SetMem(Vec<f64>),
}

fn same(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits())
}

impl Ev {
    /// bit for bit equality
    pub fn same(&self, o: &Ev) -> bool {
        match (self, o) {
            (Ev::Set(a), Ev::Set(b)) => same(a, b),
            (
                Ev::Eval { x, l, r, out, mem_before, mem_after, .. },
                Ev::Eval { x: x2, l: l2, r: r2, out: o2, mem_before: b2, mem_after: a2, .. },
            ) => {
                same(x, x2) && same(l, l2) && same(r, r2) && out == o2 && same(mem_before, b2) && same(mem_after, a2)
            }
            (Ev::Jac { x, l, r, out, .. }, Ev::Jac { x: x2, l: l2, r: r2, out: o2, .. }) => {
                same(x, x2) && same(&l.a, &l2.a) && same(&r.a, &r2.a) && out == o2
            }
            (Ev::GetMem(a), Ev::GetMem(b)) => same(a, b),
            (Ev::SetMem(a), Ev::SetMem(b)) => same(a, b),
            _ => false,
        }
    }
}

#[derive(Clone, Default, Debug)]
pub struct Faults {
    pub evals: BTreeMap<usize, Fault>,
    pub jacs: BTreeMap<usize, Fault>,
    /// every evaluation inaccurate
    pub all_inaccurate: bool,
    /// inaccurate evaluations when a coordinate is beyond this value
    pub inaccurate_beyond: Option<f64>,
}

pub struct RecModel<D: Dim>
where
    DefaultAllocator: Allocator<D> + Allocator<D, D>,
{
    pub d: D,
    pub prob: Arc<Problem>,
    pub analytic: bool,
    pub x: OVector<f64, D>,
    pub left: OVector<f64, D>,
    pub right: OVector<f64, D>,
    pub mem: Vec<f64>,
    pub faults: Faults,
    pub n_eval: usize,
    pub n_jac: usize,
    pub trace: RefCell<Vec<Ev>>,
    /// called at each evaluation (nested resolutions, yields)
    pub hook: Option<Box<dyn Fn(usize)>>,
    /// hard limit on the number of evaluations (termination monitor)
    pub fuel: usize,
    /// nothing is recorded
    pub quiet: bool,
}

/// What the model says of its failure: a short text, at times several lines, braces, other alphabets or a long text
fn message(what: &str, k: usize) -> String {
    match k % 11 {
        3 => format!("{}-{}: pressure \"p{{0}}\" \u{2264} 0\n  at the inlet of the \u{00e9}jecteur \\ {{}} %s", what, k),
        7 => format!("{}-{} {}", what, k, "no convergence of the inner loop; ".repeat(60) + "end"),
        _ => format!("{}-{}", what, k),
    }
}

pub const OUT_OF_FUEL: &str = "monitor-out-of-fuel";

impl<D: Dim> RecModel<D>
where
    DefaultAllocator: Allocator<D> + Allocator<D, D>,
{
    pub fn new(d: D, prob: Arc<Problem>, analytic: bool, faults: Faults) -> Self {
        let n = prob.n;
        let nan = OVector::<f64, D>::from_element_generic(d, Const::<1>, f64::NAN);
        RecModel {
            d,
            analytic,
            x: nan.clone(),
            left: nan.clone(),
            right: nan,
            mem: (0..prob.mem_len)
                .map(|i| match prob.mem_opaque {
                    Some(v) if i + 1 == prob.mem_len => v,
                    _ => i as f64 * 0.25 - 0.5,
                })
                .collect(),
            prob,
            faults,
            n_eval: 0,
            n_jac: 0,
            trace: RefCell::new(Vec::with_capacity(16 * n)),
            hook: None,
            fuel: 2_000_000,
            quiet: false,
        }
    }
    fn record(&self, e: Ev) {
        if !self.quiet {
            self.trace.borrow_mut().push(e);
        }
    }
    pub fn vec(&self, v: &[f64]) -> OVector<f64, D> {
        OVector::<f64, D>::from_iterator_generic(self.d, Const::<1>, v.iter().cloned())
    }
    pub fn mat(&self, m: &Mat) -> OMatrix<f64, D, D> {
        OMatrix::<f64, D, D>::from_fn_generic(self.d, self.d, |i, j| m.at(i, j))
    }
}

impl<D: Dim> Model<D> for RecModel<D>
where
    DefaultAllocator: Allocator<D> + Allocator<D, D>,
{
    type InaccurateValuesError = MErr;
    type UnusableValuesError = MErr;

    fn len_problem(&self) -> usize {
        self.prob.n
    }
    fn set_iteratives(&mut self, iteratives: &OVector<f64, D>) {
        self.record(Ev::Set(iteratives.iter().cloned().collect()));
        self.x = iteratives.clone();
    }
    fn get_iteratives(&self) -> OVector<f64, D> {
        self.x.clone()
    }
    fn evaluate(&mut self) -> Result<(), ModelError<Self, D>> {
        self.n_eval += 1;
        let k = self.n_eval;
        if k > self.fuel {
            panic!("{}", OUT_OF_FUEL);
        }
        if let Some(h) = &self.hook {
            h(k);
        }
        let x: Vec<f64> = self.x.iter().cloned().collect();
        let (mut l, mut r) = self.prob.eval(&x);
        let mem_before = self.mem.clone();
        if !self.mem.is_empty() {
            // the opaque component is only kept
            let m = self.mem.len() - self.prob.mem_opaque.is_some() as usize;
            for (i, v) in l.iter_mut().enumerate() {
                *v += self.prob.mem_gain * self.mem[i % m];
            }
            let s: f64 = x.iter().enumerate().map(|(i, v)| v * (1.0 + i as f64 * 0.1)).sum();
            for (i, v) in self.mem[..m].iter_mut().enumerate() {
                // bounded, and depending on the point, its history and the position
                *v = 0.4 * *v + 0.5 * (s * 0.3 + i as f64).sin() + 0.01 * (k % 7) as f64;
            }
        }
        let mut fault = self.faults.evals.get(&k).copied();
        if fault.is_none() {
            let beyond = match self.faults.inaccurate_beyond {
                Some(t) => x.iter().any(|v| v.abs() > t),
                None => false,
            };
            if self.faults.all_inaccurate || beyond {
                fault = Some(Fault::Inaccurate);
            }
        }
        let mut out = Outcome::Ok;
        let mut msg = String::new();
        match fault {
            None => (),
            Some(Fault::Inaccurate) => {
                out = Outcome::Inaccurate;
                msg = message("mfault-inaccurate", k);
            }
            Some(Fault::Unusable) => {
                out = Outcome::Unusable;
                msg = message("mfault-unusable", k);
                for v in l.iter_mut().chain(r.iter_mut()) {
                    *v = 1e77 + k as f64;
                }
            }
            Some(Fault::Nan) => {
                let i = k % l.len();
                l[i] = f64::NAN;
            }
            Some(Fault::Inf) => {
                let i = k % l.len();
                if k % 2 == 0 {
                    l[i] = f64::INFINITY;
                } else {
                    r[i] = f64::INFINITY;
                }
            }
            Some(Fault::Panic) => panic!("{}", USER_PANIC),
        }
        self.left = self.vec(&l);
        self.right = self.vec(&r);
        let mem_after = self.mem.clone();
        self.record(Ev::Eval {
            x,
            l,
            r,
            out,
            msg: msg.clone(),
            mem_before,
            mem_after,
        });
        match out {
            Outcome::Ok => Ok(()),
            Outcome::Inaccurate => Err(ModelError::InaccurateValuesError(MErr(msg))),
            Outcome::Unusable => Err(ModelError::UnusableValuesError(MErr(msg))),
        }
    }
    fn get_residuals(&self) -> ResidualsValues<D> {
        ResidualsValues::new(self.left.clone(), self.right.clone())
    }
    fn jacobian_provided(&self) -> bool {
        self.analytic
    }
    fn get_jacobian(&mut self) -> Result<JacobianValues<D>, ModelError<Self, D>> {
        self.n_jac += 1;
        let k = self.n_jac;
        let x: Vec<f64> = self.x.iter().cloned().collect();
        let (mut l, r) = self.prob.jac(&x);
        let mut out = Outcome::Ok;
        let mut msg = String::new();
        match self.faults.jacs.get(&k) {
            None => (),
            Some(Fault::Inaccurate) => {
                out = Outcome::Inaccurate;
                msg = message("mfault-jac-inaccurate", k);
            }
            Some(Fault::Unusable) => {
                out = Outcome::Unusable;
                msg = message("mfault-jac-unusable", k);
            }
            Some(Fault::Nan) => l.set(k % l.n, (k / 2) % l.n, f64::NAN),
            Some(Fault::Inf) => l.set(k % l.n, (k / 2) % l.n, f64::INFINITY),
            Some(Fault::Panic) => panic!("{}", USER_PANIC),
        }
        self.record(Ev::Jac {
            x,
            l: l.clone(),
            r: r.clone(),
            out,
            msg: msg.clone(),
        });
        match out {
            Outcome::Ok => Ok(JacobianValues::new(self.mat(&l), self.mat(&r))),
            Outcome::Inaccurate => Err(ModelError::InaccurateValuesError(MErr(msg))),
            Outcome::Unusable => Err(ModelError::UnusableValuesError(MErr(msg))),
        }
    }
    fn get_memory(&self) -> DVector<f64> {
        self.record(Ev::GetMem(self.mem.clone()));
        DVector::from_vec(self.mem.clone())
    }
    fn set_memory(&mut self, memory: &DVector<f64>) {
        let m: Vec<f64> = memory.iter().cloned().collect();
        self.record(Ev::SetMem(m.clone()));
        self.mem = m;
    }
}
