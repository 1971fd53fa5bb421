//! Suites reading the log files (C15).

use std::fs;

use crate::lin::Mat;
use crate::model::Ev;
use crate::prob::Family;
use crate::report::{Case, Ctx};
use crate::rng::Rng;
use crate::scen::{gen, Par, Prof, Res, RunOut, Scn, METHOD_CODES};
use crate::spec::{check, norm, norms, res_code, Item};
use crate::trace::{add_faults, dump, INACC, NUMS};

use newton_rootfinder::residuals::NormalizationMethod as NM;

#[derive(Clone, Debug)]
pub struct Table {
    pub max: f64,
    pub x: Vec<f64>,
    pub l: Vec<f64>,
    pub r: Vec<f64>,
    pub e: Vec<f64>,
}

#[derive(Clone, Debug)]
pub enum Block {
    Iter(usize, Table),
    Damp(Table),
    Refused,
    Jac(Option<Mat>, Option<Mat>),
}

#[derive(Clone, Debug, Default)]
pub struct Run {
    pub params: Vec<Vec<String>>,
    pub iters: Vec<Vec<String>>,
    pub resids: Vec<Vec<String>>,
    pub blocks: Vec<Block>,
}

fn cells(line: &str) -> Vec<String> {
    let t = line.trim().trim_start_matches('|').trim_end_matches('|');
    t.split('|').map(|s| s.trim().to_string()).collect()
}

struct Lines<'a> {
    v: Vec<&'a str>,
    k: usize,
}

impl<'a> Lines<'a> {
    fn peek(&mut self) -> Option<&'a str> {
        while self.k < self.v.len() && self.v[self.k].trim().is_empty() {
            self.k += 1;
        }
        self.v.get(self.k).copied()
    }
    fn next(&mut self) -> Option<&'a str> {
        let l = self.peek();
        self.k += 1;
        l
    }
    fn rule(&mut self, c: char) -> Result<(), String> {
        match self.next() {
            Some(l) if !l.is_empty() && l.chars().all(|d| d == c) => Ok(()),
            l => Err(format!("line of {} expected, found {:?}", c, l)),
        }
    }
    /// rows of a table, without its title line
    fn table(&mut self) -> Result<Vec<Vec<String>>, String> {
        let mut rows = Vec::new();
        let mut first = true;
        loop {
            match self.peek() {
                Some(l) if l.starts_with('+') => {
                    self.k += 1;
                }
                Some(l) if l.starts_with('|') => {
                    if !first {
                        rows.push(cells(l));
                    }
                    first = false;
                    self.k += 1;
                }
                _ => break,
            }
        }
        if first {
            return Err(format!("table expected, found {:?}", self.peek()));
        }
        Ok(rows)
    }
    fn num(s: &str) -> Result<f64, String> {
        s.trim().parse::<f64>().map_err(|_| format!("{:?} is not a number", s))
    }
    fn values(&mut self) -> Result<Table, String> {
        let l = self.next().unwrap_or("");
        let max = Self::num(l.strip_prefix("Max error:").ok_or(format!("max error expected, found {:?}", l))?)?;
        let rows = self.table()?;
        let mut t = Table { max, x: vec![], l: vec![], r: vec![], e: vec![] };
        for (k, r) in rows.iter().enumerate() {
            if r.len() != 4 {
                return Err(format!("row {:?}", r));
            }
            if r[0] != k.to_string() {
                return Err(format!("row {} is numbered {:?}", k, r[0]));
            }
            t.x.push(Self::num(&r[1])?);
            let (a, b) = r[2].split_once('=').ok_or(format!("row {:?}", r))?;
            t.l.push(Self::num(a)?);
            t.r.push(Self::num(b)?);
            t.e.push(Self::num(&r[3])?);
        }
        Ok(t)
    }
    fn matrix(&mut self) -> Result<Mat, String> {
        let l = self.next().unwrap_or("");
        if !l.trim().starts_with('┌') {
            return Err(format!("matrix expected, found {:?}", l));
        }
        let mut rows: Vec<Vec<f64>> = Vec::new();
        loop {
            let l = self.next().ok_or("unfinished matrix")?.trim();
            if l.starts_with('└') {
                break;
            }
            let inner = l.trim_start_matches('│').trim_end_matches('│');
            rows.push(inner.split_whitespace().map(Self::num).collect::<Result<_, _>>()?);
        }
        let n = rows.len();
        if rows.iter().any(|r| r.len() != n) {
            return Err("matrix not square".to_string());
        }
        let mut m = Mat::zeros(n);
        for i in 0..n {
            for j in 0..n {
                m.set(i, j, rows[i][j]);
            }
        }
        Ok(m)
    }
}

/// the informations on the run, before the configuration
fn header(s: &mut Lines) -> Result<(), String> {
    let mut expected = vec!["newton_rootfinder version:"];
    if cfg!(feature = "additional") {
        expected.extend(["OS:", "Host:", "Username:", "Rust version:", "- UTC:", "- Local:"]);
    }
    let mut seen = vec![false; expected.len()];
    while let Some(l) = s.peek() {
        if l == "Solver parameters" {
            break;
        }
        s.next();
        let l = l.trim();
        for (e, k) in expected.iter().zip(seen.iter_mut()) {
            if let Some(v) = l.strip_prefix(e) {
                if v.trim().is_empty() {
                    return Err(format!("no value in {:?}", l));
                }
                *k = true;
            }
        }
    }
    match seen.iter().position(|k| !k) {
        Some(k) => Err(format!("{:?} expected before the configuration", expected[k])),
        None => Ok(()),
    }
}

pub fn parse(content: &str) -> Result<Vec<Run>, String> {
    let mut s = Lines { v: content.lines().collect(), k: 0 };
    if s.next() != Some("Runner informations") {
        return Err("no header".to_string());
    }
    s.rule('=')?;
    header(&mut s)?;
    let mut runs: Vec<Run> = Vec::new();
    while let Some(l) = s.next() {
        if l == "Solver parameters" {
            let mut r = Run::default();
            s.rule('=')?;
            r.params = s.table()?;
            if s.next() != Some("Iteratives parameters") {
                return Err("no configuration of the iteratives".to_string());
            }
            s.rule('=')?;
            r.iters = s.table()?;
            if s.next() != Some("Residuals configuration") {
                return Err("no configuration of the residuals".to_string());
            }
            s.rule('=')?;
            r.resids = s.table()?;
            runs.push(r);
            continue;
        }
        let cur = match runs.last_mut() {
            Some(r) => r,
            None => return Err(format!("{:?} before the configuration", l)),
        };
        if l.chars().all(|c| c == '=') {
            let h = s.next().unwrap_or("");
            let k = h
                .strip_prefix("Iteration:")
                .and_then(|t| t.trim().parse::<usize>().ok())
                .ok_or(format!("iteration expected, found {:?}", h))?;
            let t = s.values()?;
            cur.blocks.push(Block::Iter(k, t));
        } else if l.starts_with("Damping activated") {
            let t = s.values()?;
            cur.blocks.push(Block::Damp(t));
        } else if l.starts_with("Iteration refused") {
            cur.blocks.push(Block::Refused);
        } else if l == "Jacobian matrix" {
            s.rule('=')?;
            let h = s.next().unwrap_or("");
            let jac = if h.starts_with("Jacobian up to date") {
                if s.next() != Some("Jacobian:") {
                    return Err("jacobian expected".to_string());
                }
                Some(s.matrix()?)
            } else if h.starts_with("Jacobian not up to date") {
                match s.next() {
                    Some(l) if l.starts_with("The update of the inverse") => (),
                    l => return Err(format!("unexpected {:?}", l)),
                }
                None
            } else {
                return Err(format!("state of the jacobian expected, found {:?}", h));
            };
            match s.next() {
                Some(l) if l.starts_with("Inverse of the jacobian") => (),
                l => return Err(format!("inverse expected, found {:?}", l)),
            }
            let inv = match s.peek() {
                Some(l) if l.starts_with("Inverse jacobian matrix not yet") => {
                    s.k += 1;
                    None
                }
                _ => Some(s.matrix()?),
            };
            cur.blocks.push(Block::Jac(jac, inv));
        } else {
            return Err(format!("unexpected line {:?}", l));
        }
    }
    Ok(runs)
}

fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
fn sames(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(*x, *y))
}

fn numcell(c: &mut Case, what: &str, cell: Option<&String>, want: f64) {
    match cell.and_then(|s| s.parse::<f64>().ok()) {
        Some(v) if same(v, want) => (),
        _ => c.fail(format!("{} is {:?} in the log instead of {:e}", what, cell, want)),
    }
    c.count("configuration_values", 1);
}

fn norm_name(m: NM) -> &'static str {
    match m {
        NM::Abs => "Absolute",
        NM::Rel => "Relative",
        NM::Adapt => "Adaptative",
    }
}

fn config(s: &Scn, r: &Run, c: &mut Case) {
    let n = s.n;
    if r.params.len() != 1 || r.iters.len() != n || r.resids.len() != n {
        c.fail(format!(
            "{} rows of parameters, {} of iteratives, {} of residuals for {} unknowns",
            r.params.len(),
            r.iters.len(),
            r.resids.len(),
            n
        ));
        return;
    }
    let p = &r.params[0];
    numcell(c, "problem size", p.first(), n as f64);
    numcell(c, "max iteration", p.get(1), s.max_iter as f64);
    if p.get(1).and_then(|v| v.parse::<usize>().ok()) != Some(s.max_iter) {
        c.fail(format!("max iteration {} logged as {:?}", s.max_iter, p.get(1)));
    }
    numcell(c, "tolerance", p.get(2), s.tol);
    if p.get(3).map(|v| v.as_str()) != Some(if s.damping { "true" } else { "false" }) {
        c.fail(format!("damping {} logged as {:?}", s.damping, p.get(3)));
    }
    let name = match s.method {
        0 => "Newton-Raphson",
        1 => "Frozen Jacobian",
        2 | 3 => "Broyden First",
        4 | 5 => "Broyden Second",
        6 | 7 => "Greenstadt First",
        _ => "Greenstadt Second",
    };
    if !p.get(4).map_or(false, |v| v.contains(name)) {
        c.fail(format!("method {} logged as {:?}", METHOD_CODES[s.method], p.get(4)));
    }
    for j in 0..n {
        let q: &Par = &s.params[j];
        let row = &r.iters[j];
        numcell(c, "number of the iterative", row.first(), j as f64);
        numcell(c, "max_step_abs", row.get(1), q.max_abs);
        numcell(c, "max_step_rel", row.get(2), q.max_rel);
        numcell(c, "min_value", row.get(3), q.min);
        numcell(c, "max_value", row.get(4), q.max);
        if s.fd_params || !s.analytic {
            let want = if q.sum { "Sum" } else { "Max" };
            if row.get(5).map(|v| v.as_str()) != Some(want) {
                c.fail(format!("perturbation of {} logged as {:?}", j, row.get(5)));
            }
            numcell(c, "dx_abs", row.get(6), q.dx_abs);
            numcell(c, "dx_rel", row.get(7), q.dx_rel);
        } else if row.len() != 5 {
            c.fail(format!("row of the iterative {}: {:?}", j, row));
        }
        let row = &r.resids[j];
        numcell(c, "number of the residual", row.first(), j as f64);
        for (k, m) in [(1, s.stop[j]), (2, s.upd[j])] {
            if !row.get(k).map_or(false, |v| v.starts_with(norm_name(m))) {
                c.fail(format!("normalization of {} logged as {:?}, it is {:?}", j, row.get(k), m));
            }
        }
    }
}

fn table(s: &Scn, what: &str, t: &Table, x: &[f64], l: &[f64], r: &[f64], c: &mut Case) {
    c.count("logged_tables", 1);
    if !sames(&t.x, x) {
        c.fail(format!("{}: unknowns {:?} in the log, {:?} evaluated", what, t.x, x));
    } else if !sames(&t.l, l) || !sames(&t.r, r) {
        c.fail(format!("{}: members {:?} / {:?} in the log, {:?} / {:?} evaluated", what, t.l, t.r, l, r));
    } else {
        for i in 0..s.n {
            let e = norm(l[i], r[i], s.stop[i]).abs();
            let ok = same(e, t.e[i]) || (e - t.e[i]).abs() <= 1e-13 * e || !e.is_finite();
            if !ok {
                c.fail(format!("{}: stopping residual {} is {:e} in the log instead of {:e}", what, i, t.e[i], e));
            }
        }
        if t.e.iter().all(|v| !v.is_nan()) {
            let m = t.e.iter().fold(0.0f64, |a, b| a.max(*b));
            if m != t.max {
                c.fail(format!("{}: max error {:e} in the log, the largest residual is {:e}", what, t.max, m));
            }
        }
    }
}

fn ev(e: &Ev) -> Option<(&[f64], &[f64], &[f64])> {
    match e {
        Ev::Eval { x, l, r, .. } => Some((x, l, r)),
        _ => None,
    }
}

/// The log of one resolution against its trace
pub fn check_run(s: &Scn, out: &RunOut, r: &Run, c: &mut Case) {
    config(s, r, c);
    let n = s.n;
    // ---- whatever happens: the tables are evaluations of the trace, in order
    let mut pos = 0;
    let mut iter = 0;
    let mut kept: Option<usize> = None;
    let mut mats: Option<(&Option<Mat>, &Mat)> = None;
    for (b, blk) in r.blocks.iter().enumerate() {
        let last = b + 1 == r.blocks.len();
        match blk {
            Block::Iter(..) | Block::Damp(_) => {
                let t = match blk {
                    Block::Iter(k, t) => {
                        if *k != iter {
                            c.fail(format!("iteration {} logged when {} is expected", k, iter));
                            return;
                        }
                        if *k > 0 && mats.is_none() {
                            c.fail(format!("iteration {} without the matrices of its step", k));
                        }
                        iter += 1;
                        t
                    }
                    Block::Damp(t) => {
                        if !matches!(r.blocks.get(b.wrapping_sub(1)), Some(Block::Iter(..))) {
                            c.fail("damping without the iteration it belongs to".to_string());
                        }
                        t
                    }
                    _ => unreachable!(),
                };
                let same_as = |k: &usize| {
                    ev(&out.trace[*k]).map_or(false, |(x, l, q)| sames(&t.x, x) && sames(&t.l, l) && sames(&t.r, q))
                };
                let first = match (pos..out.trace.len()).find(same_as) {
                    Some(k) => k,
                    None => {
                        c.fail(format!("block {} of the log is no evaluation of the model: {:?}", b, t));
                        return;
                    }
                };
                let mut k = first;
                if let (Block::Iter(..), Some((_, h)), Some(base)) = (blk, mats, kept) {
                    // the matrices of the log are those of the step; the same point may be
                    // evaluated several times (a column of finite differences, then the step)
                    let mut told = None;
                    for q in (first..out.trace.len()).filter(same_as).take(4) {
                        let prev = (0..q).rev().find(|q| ev(&out.trace[*q]).is_some()).unwrap_or(base);
                        let mut one = Case::default();
                        step(s, out, h, [base, prev], q, iter - 1, &mut one);
                        if one.violations.is_empty() {
                            for (name, v) in &one.counters {
                                c.count(name, *v);
                            }
                            k = q;
                            told = None;
                            break;
                        }
                        told.get_or_insert(one.violations.remove(0));
                    }
                    if let Some(v) = told {
                        c.fail(v);
                    }
                }
                if let (Some((x, l, q)), what) = (ev(&out.trace[k]), format!("block {}", b)) {
                    table(s, &what, t, x, l, q, c);
                }
                if let Block::Iter(..) = blk {
                    mats = None;
                }
                kept = Some(k);
                pos = k + 1;
            }
            Block::Refused => {
                c.count("logged_refusals", 1);
                if !matches!(r.blocks.get(b.wrapping_sub(1)), Some(Block::Iter(..))) {
                    c.fail("refusal without the iteration it belongs to".to_string());
                }
            }
            Block::Jac(j, h) => {
                c.count("logged_matrices", 1);
                match h {
                    Some(h) => {
                        if let Some(j) = j {
                            inverse_of(j, h, c);
                        }
                        mats = Some((j, h));
                    }
                    None => {
                        if !last {
                            c.fail("step logged without its inverse matrix".to_string());
                        }
                    }
                }
            }
        }
    }
    if matches!(out.res, Res::Ok | Res::NonConv | Res::Final) {
        let lastev = out.trace.iter().rposition(|e| matches!(e, Ev::Eval { .. }));
        if kept.is_none() || kept != lastev {
            // the same values may have been evaluated before
            let same_values = match (kept, lastev) {
                (Some(a), Some(b)) => match (ev(&out.trace[a]), ev(&out.trace[b])) {
                    (Some(p), Some(q)) => sames(p.0, q.0) && sames(p.1, q.1) && sames(p.2, q.2),
                    _ => false,
                },
                _ => false,
            };
            if !same_values {
                c.fail("the last evaluation is not the last one of the log".to_string());
            }
        }
    }
    // ---- the sequence prescribed by the trace
    let mut rep = check(s, out, true);
    if !rep.devs.is_empty() {
        let other = check(s, out, false);
        if other.devs.is_empty() {
            rep = other;
        }
    }
    if !rep.devs.is_empty() {
        c.count("runs_out_of_specification", 1);
        return;
    }
    let mut b = 0;
    for (q, it) in rep.items.iter().enumerate() {
        let last_item = q + 1 == rep.items.len();
        match (it, r.blocks.get(b)) {
            (Item::Iter(k, idx), Some(Block::Iter(k2, t))) => {
                if k != k2 {
                    c.fail(format!("iteration {} logged as {}", k, k2));
                }
                let (x, l, r) = ev(&out.trace[*idx]).unwrap();
                table(s, &format!("iteration {}", k), t, x, l, r, c);
                c.count("logged_iterations", 1);
            }
            (Item::Damp(idx), Some(Block::Damp(t))) => {
                let (x, l, r) = ev(&out.trace[*idx]).unwrap();
                table(s, "damping", t, x, l, r, c);
                c.count("logged_dampings", 1);
            }
            (Item::Refused, Some(Block::Refused)) => (),
            (Item::Mats(want, _), Some(Block::Jac(j, h))) => {
                if h.is_none() {
                    c.fail(format!("block {}: the inverse used for the step is not logged", b));
                } else if want.is_some() != j.is_some() {
                    c.fail(format!(
                        "block {}: the log says that the jacobian is {}, the step used {}",
                        b,
                        if j.is_some() { "up to date" } else { "not up to date" },
                        if want.is_some() { "it" } else { "an update of the inverse" }
                    ));
                }
                if let (Some(w), Some(j)) = (want, j) {
                    for i in 0..n {
                        for k in 0..n {
                            let m = w[0].at(i, k);
                            let spread = w.iter().map(|v| (v.at(i, k) - m).abs()).fold(0.0, f64::max);
                            let row = (0..n).map(|q| w[0].at(i, q).abs()).fold(0.0, f64::max);
                            if !((j.at(i, k) - m).abs() <= 1e-6 * row + 1000.0 * spread) {
                                c.fail(format!("block {}: jacobian ({}, {}) is {:e} in the log, {:e} expected", b, i, k, j.at(i, k), m));
                            }
                        }
                    }
                    c.count("logged_jacobians_compared", 1);
                }
            }
            (it, blk) => {
                let _ = last_item;
                c.fail(format!("block {} of the log is {} where {} happened", b, blk.map_or("missing", name), item_name(it)));
                return;
            }
        }
        b += 1;
    }
    if rep.inconclusive.is_none() {
        c.count("logs_fully_compared", 1);
        // nothing else than the matrices of a step that could not be done
        let extra = &r.blocks[b.min(r.blocks.len())..];
        let fine = match extra {
            [] => true,
            [Block::Jac(..)] => matches!(out.res, Res::JacInv | Res::JacModel(..) | Res::UserPanic),
            _ => false,
        };
        if !fine {
            c.fail(format!("the log goes on after the end of the resolution ({} with {:?})", extra.iter().map(name).collect::<Vec<_>>().join(", "), out.res));
        }
    }
}

fn name(b: &Block) -> &'static str {
    match b {
        Block::Iter(..) => "an iteration",
        Block::Damp(_) => "a damping",
        Block::Refused => "a refusal",
        Block::Jac(..) => "a jacobian",
    }
}
fn item_name(b: &Item) -> &'static str {
    match b {
        Item::Iter(..) => "an iteration",
        Item::Damp(_) => "a damping",
        Item::Refused => "a refusal",
        Item::Mats(..) => "a step with its matrices",
    }
}

fn inverse_of(j: &Mat, h: &Mat, c: &mut Case) {
    let n = j.n;
    if !j.finite() || !h.finite() {
        return;
    }
    let k = j.norm_inf() * h.norm_inf();
    if !(k < 1e8) {
        return;
    }
    c.count("logged_inverses_checked", 1);
    for i in 0..n {
        for q in 0..n {
            let v: f64 = (0..n).map(|b| j.at(i, b) * h.at(b, q)).sum();
            let w = if i == q { 1.0 } else { 0.0 };
            if !((v - w).abs() <= 1e-12 * n as f64 * k + 1e-12) {
                c.fail(format!("the inverse of the log is not the inverse of its jacobian: product ({}, {}) is {:e}", i, q, v));
                return;
            }
        }
    }
}

fn step(s: &Scn, out: &RunOut, h: &Mat, bases: [usize; 2], p: usize, iter: usize, c: &mut Case) {
    let n = s.n;
    let px = match ev(&out.trace[p]) {
        Some(e) => e.0,
        None => return,
    };
    let k = h.cond();
    if !(k < 1e8) || !h.finite() {
        return;
    }
    let mut why = String::new();
    for b in bases {
        let (x, l, r) = ev(&out.trace[b]).unwrap();
        let f = norms(l, r, &s.upd);
        if f.iter().any(|v| !v.is_finite()) || x.iter().any(|v| !v.is_finite() || v.abs() > 1e100) {
            return;
        }
        let mut ok = true;
        for j in 0..n {
            let raw: f64 = (0..n).map(|i| -h.at(j, i) * f[i]).sum();
            let mag: f64 = (0..n).map(|i| (h.at(j, i) * f[i]).abs()).sum();
            let tol = (1e-12 + 1e-13 * k) * mag;
            if !raw.is_finite() {
                return;
            }
            let lo = s.params[j].limited(x[j], raw - tol);
            let hi = s.params[j].limited(x[j], raw + tol);
            let slack = 1e-15 * x[j].abs().max(px[j].abs());
            if !(px[j] >= lo - slack && px[j] <= hi + slack) {
                ok = false;
                why = format!("unknown {}: from {:e}, the logged inverse leads to {:e}, the iterate is {:e}", j, x[j], x[j] + raw, px[j]);
                break;
            }
        }
        if ok {
            c.count("steps_recomputed_from_the_log", 1);
            return;
        }
    }
    c.fail(format!("iteration {}: {}", iter, why));
}

fn prof(rng: &mut Rng) -> Prof {
    let mut p = Prof { long: 0.0, ..Prof::default() };
    if rng.chance(0.01) {
        // hundreds of iterations in the log
        return Prof { long: 1.0, nmax: 3, big_n: 0.0, families: vec![(Family::NoRoot, 0.7), (Family::Atan, 0.3)], ..p };
    }
    if rng.chance(0.4) {
        p.families = vec![(Family::Atan, 0.8), (Family::Wild, 0.2)];
        p.damping = 0.9;
    }
    p
}

fn fail_details(c: &mut Case, s: &Scn, out: &RunOut, text: &str) {
    if !c.violations.is_empty() && c.details.is_empty() {
        c.sample = s.describe();
        let t: String = text.chars().take(20000).collect();
        c.details = format!("{:#?}\n{}\n--- log\n{}", s, dump(out), t);
    }
}

/// One resolution with its log
pub fn log_case(ctx: &Ctx, k: u64, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    let pr = prof(rng);
    let mut s = gen(rng, &pr);
    if rng.chance(0.2) {
        add_faults(rng, &mut s, &NUMS);
    }
    c.sample = s.describe();
    let mut plain = s.run();
    if plain.res != Res::NonConv && rng.chance(0.1) {
        // a budget that is not reached
        s.max_iter = *rng.pick(&[u32::MAX as usize, u32::MAX as usize + 2, 1 << 40, (1 << 53) + 1, usize::MAX]);
        plain = s.run();
        c.count("logs_of_budgets_beyond_32_bits", 1);
    }
    let path = format!("{}/log-{}.txt", ctx.scratch, k);
    // an older file at the same place
    if rng.chance(0.3) {
        let _ = fs::write(&path, "older content\n".repeat(rng.range(1, 50)));
    }
    s.log = Some(path.clone());
    let out = s.run();
    let text = fs::read_to_string(&path).unwrap_or_default();
    let _ = fs::remove_file(&path);
    c.evaluations += 1;
    c.count("model_evaluations", out.evals() as u64);
    c.count("log_bytes", text.len() as u64);
    c.count("runs_with_and_without_log", 1);
    if !plain.same(&out) {
        c.fail(format!("the log changes the resolution: {}", plain.first_diff(&out)));
    }
    match parse(&text) {
        Ok(runs) => {
            let started = !matches!(out.res, Res::Init(_)) && out.evals() > 0;
            if runs.len() != 1 {
                if started || !runs.is_empty() {
                    c.fail(format!("{} resolutions in the log of one", runs.len()));
                }
            } else {
                check_run(&s, &out, &runs[0], &mut c);
            }
        }
        Err(e) => c.fail(format!("log not understood: {}", e)),
    }
    c.nontrivial = out.evals() > 1;
    c.mix(s.method as u64);
    c.mix(s.n as u64);
    c.mix(s.analytic as u64 + 2 * s.damping as u64 + 4 * s.stat as u64 + 8 * (s.fd_params as u64));
    c.mix(res_code(&out.res));
    c.mix(out.trace.len() as u64);
    fail_details(&mut c, &s, &out, &text);
    c
}

/// Logs of many unknowns, and logs of many iterations
pub fn log_big(ctx: &Ctx, k: u64, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    let mut s = if k % 50 == 7 {
        let pr = Prof { long: 1.0, nmax: 1, big_n: 0.0, memory: 0.0, damping: 0.0, families: vec![(Family::NoRoot, 1.0)], ..Prof::default() };
        let mut s = gen(rng, &pr);
        s.tol = 0.0;
        s.max_iter = rng.range(65_700, 67_000);
        s.method = *rng.pick(&[0, 1, 2]);
        s.analytic = true;
        s
    } else if rng.chance(0.3) {
        // a matrix of more than a hundred rows
        let pr = Prof { big_n: 0.0, nmax: 2, memory: 0.0, methods: vec![0, 1], damping: 0.0, ..Prof::default() };
        let mut s = gen(rng, &pr);
        let n = *rng.pick(&[90, 99, 100, 101, 120, 128, 129, 200, 255, 257]);
        let mut p = (*s.prob).clone();
        p.n = n;
        p.family = "diagonal";
        p.units = None;
        p.left = (0..n).map(|i| vec![crate::prob::Term::Lin(rng.logmag(-1.0, 1.0), i)]).collect();
        p.right = (0..n).map(|_| vec![crate::prob::Term::Const(rng.logmag(-1.0, 1.0))]).collect();
        p.root = None;
        s.prob = std::sync::Arc::new(p);
        s.n = n;
        s.stat = false;
        s.analytic = true;
        s.guess = (0..n).map(|_| rng.logmag(-1.0, 1.0)).collect();
        s.params = vec![crate::scen::Par::free(); n];
        s.stop = (0..n).map(|_| *rng.pick(&[NM::Abs, NM::Rel, NM::Adapt])).collect();
        s.upd = vec![NM::Abs; n];
        s.faults = Default::default();
        s.max_iter = rng.range(1, 2);
        s
    } else {
        crate::trace::sized(rng, 1400).scn
    };
    c.sample = s.describe();
    let path = format!("{}/big-{}.txt", ctx.scratch, k);
    s.log = Some(path.clone());
    let out = s.run();
    let text = fs::read_to_string(&path).unwrap_or_default();
    let _ = fs::remove_file(&path);
    c.count("model_evaluations", out.evals() as u64);
    c.count("log_bytes", text.len() as u64);
    match parse(&text) {
        Ok(runs) => {
            if runs.len() != 1 {
                c.fail(format!("{} resolutions in the log of one", runs.len()));
            } else {
                check_run(&s, &out, &runs[0], &mut c);
                c.count("large_logs", 1);
            }
        }
        Err(e) => c.fail(format!("log not understood: {}", e)),
    }
    if s.max_iter > 65_000 && out.evals() > 65_600 {
        c.count("logs_beyond_16_bits", 1);
    }
    c.nontrivial = true;
    c.mix(s.n as u64);
    c.mix(out.evals() as u64);
    fail_details(&mut c, &s, &out, &text);
    c
}

/// The solver is used several times: the log tells each resolution in turn
pub fn log_reuse(ctx: &Ctx, k: u64, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    let pr = prof(rng);
    let mut s = gen(rng, &pr);
    s.fd_params = true;
    c.sample = s.describe();
    let path = format!("{}/again-{}.txt", ctx.scratch, k);
    s.log = Some(path.clone());
    let mut other = s.clone();
    if rng.chance(0.6) {
        add_faults(rng, &mut other, &INACC);
        other.faults.evals.insert(1 + rng.below(4), *rng.pick(&NUMS));
    }
    let outs = s.run_models(&[&other, &s, &other]);
    let text = fs::read_to_string(&path).unwrap_or_default();
    let _ = fs::remove_file(&path);
    match parse(&text) {
        Ok(runs) => {
            let wanted: Vec<(&Scn, &RunOut)> = [(&other, &outs[0]), (&s, &outs[1]), (&other, &outs[2])]
                .into_iter()
                .filter(|(_, o)| !matches!(o.res, Res::Init(_)) && o.evals() > 0)
                .collect();
            if runs.len() != wanted.len() {
                c.fail(format!("{} resolutions in the log of {}", runs.len(), wanted.len()));
            } else {
                for ((sc, o), r) in wanted.iter().zip(&runs) {
                    check_run(sc, o, r, &mut c);
                    c.count("logged_repetitions", 1);
                }
            }
        }
        Err(e) => c.fail(format!("log not understood: {}", e)),
    }
    c.nontrivial = outs.iter().any(|o| o.evals() > 1);
    c.mix(s.method as u64);
    c.mix(s.n as u64);
    c.mix(outs[1].trace.len() as u64);
    c.mix(outs[0].trace.len() as u64);
    fail_details(&mut c, &s, &outs[1], &text);
    c
}

/// Several solvers at the same time, each with its own file
pub fn log_files(ctx: &Ctx, k: u64, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    let dir = format!("{}/files-{}", ctx.scratch, k);
    fs::create_dir_all(&dir).unwrap();
    let mut scns: Vec<Scn> = (0..4)
        .map(|_| {
            let pr = prof(rng);
            let mut s = gen(rng, &pr);
            s.max_iter = s.max_iter.min(12);
            s
        })
        .collect();
    if rng.chance(0.3) {
        scns[1] = scns[0].clone();
    }
    let mut alone = Vec::new();
    for (q, s) in scns.iter_mut().enumerate() {
        let path = format!("{}/alone-{}.txt", dir, q);
        s.log = Some(path.clone());
        s.run();
        alone.push(fs::read_to_string(&path).unwrap_or_default());
        let _ = fs::remove_file(&path);
    }
    // one solver without any log
    for (q, s) in scns.iter_mut().enumerate() {
        s.log = if q == 3 { None } else { Some(format!("{}/log {}.txt", dir, q)) };
    }
    let together = rng.chance(0.5);
    if together {
        std::thread::scope(|sc| {
            for s in &scns {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || {
                        s.run();
                    })
                    .unwrap();
            }
        });
    } else {
        // one inside the other: a model resolving another problem at each of its evaluations
        let outer = scns[0].clone();
        let mut outer = outer;
        outer.stat = false;
        let inner = scns[1].clone();
        outer.run_prep(&move |_, m| {
            let i2 = inner.clone();
            m.hook = Some(Box::new(move |_| {
                i2.run();
            }));
        });
        scns[2].run();
        scns[3].run();
    }
    let mut names: Vec<String> = fs::read_dir(&dir)
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().to_string()).collect())
        .unwrap_or_default();
    names.sort();
    if names != ["log 0.txt", "log 1.txt", "log 2.txt"] {
        c.fail(format!("files {:?} written by three solvers with a log", names));
    }
    for q in 0..3 {
        let text = fs::read_to_string(format!("{}/log {}.txt", dir, q)).unwrap_or_default();
        c.count("files_compared", 1);
        c.count("log_bytes", text.len() as u64);
        // static and dynamic vectors may differ by rounding errors
        let skip = !together && q == 0 && scns[0].stat;
        // the header may tell the time of the simulation
        let body = |t: &str| t.find("Solver parameters").unwrap_or(0);
        let (was, is) = (&alone[q][body(&alone[q])..], &text[body(&text)..]);
        if is != was && !skip {
            let line = is.lines().zip(was.lines()).position(|(a, b)| a != b);
            c.fail(format!("the log of solver {} differs from the one written when alone (line {:?})", q, line));
            if c.details.is_empty() {
                c.details = format!("{:#?}\n--- alone\n{}\n--- {}\n{}", scns[q], alone[q], if together { "threads" } else { "nested" }, text);
            }
        }
        c.mix(text.len() as u64);
    }
    let _ = fs::remove_dir_all(&dir);
    c.sample = format!("{}: {}", if together { "threads" } else { "nested" }, scns[0].describe());
    c.nontrivial = true;
    c
}
