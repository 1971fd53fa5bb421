//! The same problem declared in other units, with other signs, or in another order.

use std::sync::Arc;

use newton_rootfinder::residuals::NormalizationMethod as NM;

use crate::model::{Ev, Fault};
use crate::prob::{Family, Problem};
use crate::report::{Case, Ctx};
use crate::rng::Rng;
use crate::scen::{gen, Prof, Res, RunOut, Scn, METHOD_CODES};
use crate::spec::{check, res_code};
use crate::trace::{compare_renamed, dump};

fn prof() -> Prof {
    Prof {
        families: vec![
            (Family::Affine, 0.15),
            (Family::Mild, 0.4),
            (Family::Wild, 0.2),
            (Family::Atan, 0.2),
            (Family::NoRoot, 0.03),
            (Family::Singular, 0.02),
        ],
        memory: 0.0,
        units: 0.03,
        long: 0.02,
        ..Prof::default()
    }
}

/// `scn` with the unknown j multiplied by ux[j] (a signed power of two, all of the same
/// magnitude), the members of the equations multiplied by uf
fn rescaled(scn: &Scn, ux: &[f64], uf: f64) -> Scn {
    let mut s = scn.clone();
    let mut p = (*s.prob).clone();
    p.units = Some((ux.to_vec(), uf));
    p.root = None;
    s.prob = Arc::new(p);
    for j in 0..s.n {
        let (u, a) = (ux[j], ux[j].abs());
        s.guess[j] *= u;
        let q = &mut s.params[j];
        q.max_abs *= a;
        q.dx_abs *= a;
        let (lo, hi) = (q.min * u, q.max * u);
        q.min = lo.min(hi);
        q.max = lo.max(hi);
    }
    if s.stop.iter().all(|m| *m == NM::Abs) {
        s.tol *= uf;
    }
    s
}

fn all(v: &[NM], m: NM) -> bool {
    v.iter().all(|k| *k == m)
}

fn close_to_the_limits_of_floats(v: &[f64]) -> bool {
    v.iter().any(|x| x.abs() > 1e60 || (*x != 0.0 && x.abs() < 1e-60))
}

fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

fn kind(r: &Res) -> u64 {
    res_code(r)
}

fn significant(o: &RunOut) -> Vec<&Ev> {
    o.trace.iter().filter(|e| matches!(e, Ev::Eval { .. } | Ev::Jac { .. })).collect()
}

/// Other units and signs: exactly the same resolution
pub fn units(_ctx: &Ctx, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    let mut scn = gen(rng, &prof());
    if rng.chance(0.4) {
        // one normalization for all, so that the equations may change unit
        let s = *rng.pick(&[NM::Abs, NM::Abs, NM::Rel]);
        let u = *rng.pick(&[NM::Abs, NM::Abs, NM::Rel]);
        scn.stop = vec![s; scn.n];
        scn.upd = vec![u; scn.n];
    }
    if rng.chance(0.15) {
        for _ in 0..rng.range(1, 4) {
            scn.faults.evals.insert(1 + rng.below(3 * (scn.n + 2)), Fault::Inaccurate);
        }
    }
    let n = scn.n;
    let equations = [NM::Abs, NM::Rel].iter().any(|m| all(&scn.stop, *m)) && [NM::Abs, NM::Rel].iter().any(|m| all(&scn.upd, *m));
    let exponent = |rng: &mut Rng| -> i32 {
        let e = if rng.chance(0.8) { rng.range(1, 24) } else { rng.range(25, 45) } as i32;
        if rng.chance(0.5) {
            -e
        } else {
            e
        }
    };
    let uf = if equations && rng.chance(0.7) { 2f64.powi(exponent(rng)) } else { 1.0 };
    let mut ux = vec![if uf == 1.0 || rng.chance(0.6) { 2f64.powi(exponent(rng)) } else { 1.0 }; n];
    // forward differences have an orientation, the jacobian of the model has not
    let reversed = scn.analytic && rng.chance(0.4);
    if reversed {
        for u in ux.iter_mut() {
            *u *= rng.sign();
        }
    }
    let mut other = rescaled(&scn, &ux, uf);
    let mut exchanged = vec![false; n];
    if rng.chance(0.5) {
        let mut p = (*other.prob).clone();
        for i in 0..n {
            if rng.chance(0.5) {
                std::mem::swap(&mut p.left[i], &mut p.right[i]);
                exchanged[i] = true;
            }
        }
        other.prob = Arc::new(p);
    }
    c.sample = format!("{} units of the unknowns {:?} of the equations {:e} exchanged {:?}", scn.describe(), ux, uf, exchanged);
    let a = scn.run();
    let b = other.run();
    c.evaluations += 2;
    let (ea, eb) = (significant(&a), significant(&b));
    let mut compared = 0u64;
    let mut ended = false;
    for k in 0..ea.len().max(eb.len()) {
        let (x, y) = match (ea.get(k), eb.get(k)) {
            (Some(p), Some(q)) => (*p, *q),
            (p, q) => {
                let text = |e: Option<&&Ev>| e.map_or("the end".to_string(), |e| format!("{:?}", e));
                c.fail(format!("event {}: {} but {} in the other units ({:?} / {:?})", k, text(p), text(q), a.res, b.res));
                ended = true;
                break;
            }
        };
        match (x, y) {
            (Ev::Eval { x: xa, l: la, r: ra, .. }, Ev::Eval { x: xb, l: lb, r: rb, .. }) => {
                for j in 0..n {
                    if !same(xa[j] * ux[j], xb[j]) {
                        c.fail(format!(
                            "evaluation {}: unknown {} at {:e}, and {:e} in the other units (expected {:e})",
                            k,
                            j,
                            xa[j],
                            xb[j],
                            xa[j] * ux[j]
                        ));
                        ended = true;
                    }
                }
                if ended {
                    break;
                }
                // the sign of a zero, and values whose products are not representable, are not judged
                if close_to_the_limits_of_floats(xa) || close_to_the_limits_of_floats(la) || close_to_the_limits_of_floats(ra) {
                    c.count("extreme_values_end", 1);
                    ended = true;
                    break;
                }
                for i in 0..n {
                    let (p, q) = if exchanged[i] { (rb[i], lb[i]) } else { (lb[i], rb[i]) };
                    if !same(la[i] * uf, p) || !same(ra[i] * uf, q) {
                        // only the sign of a zero can make the members differ
                        ended = true;
                    }
                }
                if ended {
                    c.count("signed_zero_end", 1);
                    break;
                }
                c.count("compared_evaluations", 1);
            }
            (Ev::Jac { x: xa, l, r, .. }, Ev::Jac { x: xb, .. }) => {
                if xa.iter().zip(xb).zip(&ux).any(|((p, q), u)| !same(p * u, *q)) {
                    c.fail(format!("jacobian {}: at {:?}, and {:?} in the other units", k, xa, xb));
                    ended = true;
                    break;
                }
                if close_to_the_limits_of_floats(&l.a) || close_to_the_limits_of_floats(&r.a) {
                    c.count("extreme_values_end", 1);
                    ended = true;
                    break;
                }
                c.count("compared_jacobians", 1);
            }
            _ => {
                c.fail(format!("event {}: {:?} but {:?} in the other units", k, x, y));
                ended = true;
                break;
            }
        }
        compared += 1;
    }
    if !ended {
        c.count("whole_runs", 1);
        if kind(&a.res) != kind(&b.res) {
            c.fail(format!("result {:?} but {:?} in the other units", a.res, b.res));
        }
    }
    c.count("unknowns_in_other_units", (ux[0].abs() != 1.0) as u64);
    c.count("equations_in_other_units", (uf != 1.0) as u64);
    c.count("axes_reversed", ux.iter().filter(|u| **u < 0.0).count() as u64);
    c.count("members_exchanged", exchanged.iter().filter(|e| **e).count() as u64);
    c.nontrivial = compared > 2 + if scn.analytic { 0 } else { n as u64 };
    shape(&mut c, &scn, &a, compared);
    if !c.violations.is_empty() {
        c.details = format!("{:#?}\n--- as declared\n{}\n--- in other units\n{:#?}\n{}", scn, dump(&a), other, dump(&b));
    }
    c
}

fn shape(c: &mut Case, scn: &Scn, a: &RunOut, compared: u64) {
    c.mix(scn.method as u64);
    c.mix(scn.n as u64);
    c.mix(scn.analytic as u64 + 2 * scn.damping as u64 + 4 * scn.stat as u64);
    c.mix(compared);
    c.mix(kind(&a.res));
}

fn permutation(rng: &mut Rng, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        v.swap(i, rng.below(i + 1));
    }
    v
}

/// The unknowns and the equations in another order: the same resolution up to rounding
pub fn order(_ctx: &Ctx, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    let mut scn = gen(
        rng,
        &Prof {
            analytic: 1.0,
            far: 0.15,
            ..prof()
        },
    );
    scn.n = scn.prob.n;
    let n = scn.n;
    let (cols, rows) = (permutation(rng, n), permutation(rng, n));
    let mut other = scn.clone();
    let mut p = (*scn.prob).clone();
    for j in 0..n {
        other.guess[cols[j]] = scn.guess[j];
        other.params[cols[j]] = scn.params[j];
    }
    for i in 0..n {
        p.left[rows[i]] = scn.prob.left[i].iter().map(|t| t.renamed(&cols)).collect();
        p.right[rows[i]] = scn.prob.right[i].iter().map(|t| t.renamed(&cols)).collect();
        other.stop[rows[i]] = scn.stop[i];
        other.upd[rows[i]] = scn.upd[i];
    }
    p.root = None;
    other.prob = Arc::new(p);
    c.sample = format!("{} unknowns in the order {:?} equations {:?}", scn.describe(), cols, rows);
    let a = scn.run();
    let b = other.run();
    c.evaluations += 2;
    let (_, compared) = compare_renamed(&mut c, &scn, &a, &other, &b, "the first order", "the other order", Some(&cols));
    c.nontrivial = compared > 3 && n > 1;
    c.count("reordered_runs", 1);
    shape(&mut c, &scn, &a, compared);
    if !c.violations.is_empty() {
        c.details = format!("{:#?}\n--- {}\n{}\n--- other order\n{:#?}\n{}", scn, METHOD_CODES[scn.method], dump(&a), other, dump(&b));
    }
    c
}

/// values of the unknowns at the evaluations of the iterations
fn points(o: &RunOut) -> Vec<&Vec<f64>> {
    o.trace
        .iter()
        .filter_map(|e| match e {
            Ev::Eval { x, .. } => Some(x),
            _ => None,
        })
        .collect()
}

/// Independent problems gathered in one: each is resolved as it is alone, by the methods
/// that do not share anything between the equations
pub fn blocks(_ctx: &Ctx, rng: &mut Rng) -> Case {
    let mut c = Case::default();
    let nb = if rng.chance(0.06) { rng.range(6, 24) } else { rng.range(2, 5) };
    let method = rng.below(2);
    let tol = 10f64.powf(rng.uniform(-11.0, -4.0));
    let max_iter = rng.range(1, 30);
    let mut alone: Vec<Scn> = Vec::new();
    for _ in 0..nb {
        let mut s = gen(
            rng,
            &Prof {
                analytic: 1.0,
                damping: 0.0,
                methods: vec![method],
                stat: 0.0,
                long: 0.0,
                units: 0.0,
                big_n: 0.02,
                far: 0.1,
                ..prof()
            },
        );
        s.n = s.prob.n;
        s.tol = tol;
        s.max_iter = max_iter;
        s.faults = Default::default();
        s.before.clear();
        s.log = None;
        alone.push(s);
    }
    let mut joined = alone[0].clone();
    let n: usize = alone.iter().map(|s| s.n).sum();
    // where the unknowns and the equations of the blocks are put
    let mixed = rng.chance(0.5);
    let place: Vec<usize> = if mixed { permutation(rng, n) } else { (0..n).collect() };
    let rows: Vec<usize> = if mixed && rng.chance(0.5) { permutation(rng, n) } else { place.clone() };
    let mut p = Problem {
        n,
        family: "blocks",
        left: vec![vec![]; n],
        right: vec![vec![]; n],
        root: None,
        ..(*joined.prob).clone()
    };
    joined.n = n;
    joined.guess = vec![0.0; n];
    joined.stop = vec![NM::Abs; n];
    joined.upd = vec![NM::Abs; n];
    joined.params = vec![alone[0].params[0].clone(); n];
    let mut first = 0;
    for s in &alone {
        let cols = &place[first..first + s.n];
        for k in 0..s.n {
            let (i, j) = (rows[first + k], cols[k]);
            joined.guess[j] = s.guess[k];
            joined.params[j] = s.params[k].clone();
            joined.stop[i] = s.stop[k];
            joined.upd[i] = s.upd[k];
            p.left[i] = s.prob.left[k].iter().map(|t| t.renamed(cols)).collect();
            p.right[i] = s.prob.right[k].iter().map(|t| t.renamed(cols)).collect();
        }
        first += s.n;
    }
    joined.prob = Arc::new(p);
    c.sample = format!("{} in {} independent problems, mixed {}", joined.describe(), nb, mixed);
    let together = joined.run();
    c.evaluations += 1;
    let pt = points(&together);
    // nothing is expected once a problem leaves the range where the products are exact
    let mut reach = pt.iter().position(|x| x.iter().any(|v| !(v.abs() < 1e60))).unwrap_or(pt.len());
    let mut runs = Vec::new();
    for s in &alone {
        let a = s.run();
        c.evaluations += 1;
        let rep = check(s, &a, true);
        // beyond, the updates are too ill-conditioned
        let known = match rep.inconclusive {
            None => points(&a).len(),
            Some(_) => significant(&a).iter().take(rep.reach).filter(|e| matches!(e, Ev::Eval { .. })).count(),
        };
        runs.push((a, known));
    }
    if together.res == Res::JacInv {
        // all the problems would still be running alone
        if runs.iter().all(|(_, known)| *known > pt.len()) && reach == pt.len() {
            c.fail(format!("no problem has a singular jacobian, but {:?} when they are gathered", together.res));
        }
        reach = reach.min(pt.len());
    } else if !matches!(together.res, Res::Ok | Res::NonConv) {
        reach = reach.min(pt.len().saturating_sub(1));
    }
    let mut compared = 0u64;
    let mut ended = 0u64;
    let mut first = 0;
    for (b, (s, (a, known))) in alone.iter().zip(&runs).enumerate() {
        let pa = points(a);
        let near: Vec<RunOut> = (0..4)
            .map(|q| {
                let mut t = s.clone();
                let mut p = (*t.prob).clone();
                let mut rng = Rng::new(q, 5, 5);
                for row in p.left.iter_mut().chain(p.right.iter_mut()) {
                    for term in row.iter_mut() {
                        *term = term.scaled(1.0 + rng.sign() * rng.uniform(1e-15, 4e-15));
                    }
                }
                t.prob = Arc::new(p);
                t.run()
            })
            .collect();
        let pn: Vec<_> = near.iter().map(points).collect();
        let mut scale: f64 = 1e-3;
        'points: for k in 0..pa.len().min(*known) {
            if pn.iter().any(|p| p.len() <= k) {
                break;
            }
            if k >= reach {
                if k >= pt.len() && matches!(together.res, Res::Ok | Res::NonConv) && k + 1 < pa.len() {
                    // alone, that problem was still far from its solution
                    let far = a.trace.iter().filter_map(|e| match e {
                        Ev::Eval { l, r, .. } => Some((0..s.n).map(|i| crate::spec::norm(l[i], r[i], s.stop[i]).abs()).fold(0.0, f64::max)),
                        _ => None,
                    });
                    if let Some(e) = far.skip(k - 1).next() {
                        if e > 2.0 * tol {
                            c.fail(format!("{:?} after {} evaluations, but the problem {} alone has an error of {:e} there", together.res, pt.len(), b, e));
                        }
                    }
                }
                break;
            }
            scale = pa[k].iter().map(|v| v.abs()).fold(scale, f64::max);
            for j in 0..s.n {
                let (xa, xt) = (pa[k][j], pt[k][place[first + j]]);
                let spread = pn.iter().map(|p| (p[k][j] - xa).abs()).fold(0.0, f64::max);
                let tol = 2000.0 * spread + 1e-9 * scale;
                if !(tol < 1e-2 * scale) || scale > 1e5 {
                    break 'points;
                }
                if !((xa - xt).abs() <= tol) {
                    c.fail(format!(
                        "evaluation {}: unknown {} of the problem {} at {:e} alone but {:e} gathered with others (tolerance {:.1e})",
                        k, j, b, xa, xt, tol
                    ));
                    break 'points;
                }
            }
            compared += (k > 0) as u64;
            ended += (k + 1 == pa.len()) as u64;
        }
        first += s.n;
    }
    c.count("problems_gathered", nb as u64);
    c.count("evaluations_compared_in_gathered_problems", compared);
    c.count("gathered_problems_followed_to_their_end", ended);
    c.nontrivial = compared > nb as u64;
    shape(&mut c, &joined, &together, compared.min(40));
    if !c.violations.is_empty() {
        c.details = format!("{:#?}\n--- gathered\n{}", joined, dump(&together));
        for (a, _) in &runs {
            c.details += &format!("\n--- alone\n{}", dump(a));
        }
    }
    c
}
