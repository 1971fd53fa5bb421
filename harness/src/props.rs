//! The properties and the suites deciding them.

use crate::model::Fault;
use crate::prob::Family::{self, *};
use crate::report::{suite, Property, Suite};
use crate::scen::Prof;
use crate::trace::*;
use crate::{envsuite, fnsuites, logsuite, runsuites, sanitize, symsuite, textsuite, xmlsuite};

pub fn all_ids() -> Vec<&'static str> {
    vec![
        "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
        "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28",
    ]
}

const FLOATS: &str = "IEEE-754 binary64 arithmetic; another order of the floating point operations is tolerated (an ensemble of matrices perturbed at the rounding level gives the tolerance)";
const BOUNDARY: &str = "the model is a stand-in recording its calls (values given and returned); its numbers are trusted, the internal state of the solver is never read";
const WALK: &str = "a walk ends without a verdict (counted as inconclusive) where the matrices become so ill conditioned that rounding errors decide what follows";
const UPDATES: &str = "random parameters within documented domains (strictly positive steps, ordered bounds), sizes 1 to 20";

fn trace(name: &'static str, quick: u64, thorough: u64, prof: Prof, faults: f64, kinds: &'static [Fault]) -> Suite {
    suite(name, quick, thorough, move |ctx, _k, rng| trace_case(ctx, rng, &prof, faults, kinds))
}
fn boundary(quick: u64, thorough: u64) -> Suite {
    suite("boundary", quick, thorough, |ctx, _k, rng| boundary_case(ctx, rng))
}
const ALL_FAULTS: [Fault; 4] = [Fault::Inaccurate, Fault::Unusable, Fault::Nan, Fault::Inf];

fn fams(v: &[(Family, f64)]) -> Vec<(Family, f64)> {
    v.to_vec()
}

pub fn property(id: &str) -> Option<Property> {
    let d = Prof::default;
    let p = match id {
        "C01" => Property {
            id: "C01",
            rule: "random problems, methods, normalizations, limits, damping and injected errors or undefined values; tolerances equal to (or one ulp below) an error met in the run; non-trivial: at least one iteration was followed",
            level: "exploration",
            assumptions: vec![BOUNDARY, FLOATS, WALK, "the stopping test is only judged as undecided when a residual is within 4 ulp-scale units of the tolerance in the Rel and Adapt normalizations"],
            required: vec!["verdicts", "iterations", "boundary_runs", "verdicts_on_sizes"],
            suites: vec![
                trace("trace", 30000, 900000, Prof { limits: 0.2, ..d() }, 0.4, &NUMS),
                trace("stiff", 10000, 300000, Prof { families: fams(&[(NoRoot, 0.3), (Wild, 0.3), (Hostile, 0.2), (Singular, 0.1), (Constant, 0.1)]), far: 0.6, ..d() }, 0.3, &NUMS),
                boundary(4000, 100000),
                suite("sizes", 1000, 30000, |ctx, _k, rng| sizes_case(ctx, rng)),
            ],
        },
        "C02" => Property {
            id: "C02",
            rule: "random resolutions, mostly with finite differences, memory and inaccurate evaluations; the writes made to the model after its last evaluation and the values held at the end are compared; non-trivial: at least one iteration",
            level: "exploration",
            assumptions: vec![BOUNDARY],
            required: vec!["verdicts", "fd_jacobians", "memory_checks", "damped"],
            suites: vec![
                trace("trace", 30000, 900000, Prof { analytic: 0.3, memory: 0.4, ..d() }, 0.3, &INACC),
                trace("damped", 10000, 300000, Prof { analytic: 0.5, memory: 0.4, damping: 1.0, families: fams(&[(Atan, 0.6), (Wild, 0.3), (NoRoot, 0.1)]), far: 0.7, ..d() }, 0.3, &INACC),
                boundary(2000, 60000),
            ],
        },
        "C03" => Property {
            id: "C03",
            rule: "random resolutions followed call by call, budgets from 0 to 320, some beyond 32 bits; non-trivial: at least one iteration",
            level: "exploration",
            assumptions: vec![BOUNDARY, FLOATS, WALK],
            required: vec!["verdicts", "complete_walks", "analytic_jacobians", "fd_jacobians", "damped", "boundary_runs", "large_budgets", "marathons"],
            suites: vec![
                trace("trace", 30000, 900000, d(), 0.2, &NUMS),
                trace("long", 2000, 60000, Prof { long: 1.0, families: fams(&[(Atan, 0.3), (NoRoot, 0.4), (Wild, 0.2), (Mild, 0.1)]), ..d() }, 0.2, &NUMS),
                boundary(3000, 100000),
                suite("budgets", 1500, 40000, |ctx, _k, rng| budget_case(ctx, rng)),
                suite("marathon", 30, 2000, |ctx, _k, rng| runsuites::marathon(ctx, rng)),
                suite("sizes", 500, 10000, |ctx, _k, rng| sizes_case(ctx, rng)),
            ],
        },
        "C04" => Property {
            id: "C04",
            rule: "random problems of 1 to 20 unknowns, non symmetric shuffled matrices, distinct stopping and update normalizations; each proposed point is compared to the Newton step recomputed from the values given by the model; non-trivial: at least one iteration",
            level: "exploration",
            assumptions: vec![BOUNDARY, FLOATS, WALK, "known finding F9: with finite differences the step starts from the point of the last column (signature fd-base-is-last-column)"],
            required: vec!["steps_analytic", "steps_fd", "steps_stationary"],
            suites: vec![
                trace("trace", 30000, 900000, Prof { stat: 0.4, methods: vec![0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9], ..d() }, 0.0, &NUMS),
                trace("analytic", 15000, 500000, Prof { analytic: 1.0, methods: vec![0, 0, 1], norms: 0.8, limits: 0.2, ..d() }, 0.0, &NUMS),
                trace("large", 1000, 30000, Prof { big_n: 1.0, methods: vec![0, 0, 1, 2, 5], long: 0.0, ..d() }, 0.0, &NUMS),
                trace("inaccurate", 5000, 200000, Prof { methods: vec![0, 0, 1, 2], ..d() }, 1.0, &INACC),
            ],
        },
        "C05" => Property {
            id: "C05",
            rule: "random resolutions with finite differences of any step (1e-8 to 0.3, Max and Sum), and the jacobian of a recorded column sweep called directly; non-trivial: at least one iteration or one complete sweep",
            level: "exploration",
            assumptions: vec![BOUNDARY, FLOATS, WALK, "the order of the columns is free"],
            required: vec!["fd_jacobians", "fd_columns", "inaccurate_columns", "columns"],
            suites: vec![
                trace("trace", 20000, 800000, Prof { analytic: 0.0, big_dx: 0.5, limits: 0.2, ..d() }, 0.3, &INACC),
                trace("newton", 10000, 300000, Prof { analytic: 0.0, big_dx: 1.0, methods: vec![0], limits: 0.0, norms: 0.7, ..d() }, 0.2, &INACC),
                suite("direct", 20000, 800000, |ctx, _k, rng| fnsuites::fd_direct(ctx, rng)),
                suite("perturbations", 20000, 800000, |ctx, _k, rng| fnsuites::perturbations(ctx, rng)),
            ],
        },
        "C06" => Property {
            id: "C06",
            rule: "random resolutions with an analytical jacobian and normalized residuals; the derivative formulas against dual numbers and differences for all signs of the members; non-trivial: a normalized derivative was compared",
            level: "exploration",
            assumptions: vec![BOUNDARY, FLOATS, WALK, "where left + right is zero, Rel and Adapt have no derivative: any value is accepted there"],
            required: vec!["analytic_jacobians", "steps_analytic"],
            suites: vec![
                trace("trace", 25000, 900000, Prof { analytic: 1.0, norms: 1.0, limits: 0.1, methods: vec![0, 0, 0, 1, 2, 3, 4, 6, 8], ..d() }, 0.1, &INACC),
                suite("derivatives", 40000, 1500000, |ctx, _k, rng| fnsuites::normalization_derivatives(ctx, rng)),
                suite("matrices", 20000, 800000, |ctx, _k, rng| fnsuites::jacobian_normalize(ctx, rng)),
                suite("numeric", 20000, 800000, |ctx, _k, rng| fnsuites::analytic_vs_numeric(ctx, rng)),
            ],
        },
        "C07" => Property {
            id: "C07",
            rule: "random resolutions with the eight updating methods, the approximation being carried by the monitor from the recorded values; the update functions called with random matrices; non-trivial: at least one iteration or one well conditioned update",
            level: "exploration",
            assumptions: vec![BOUNDARY, FLOATS, WALK, "known finding F9: with finite differences s and y of the first update start from the point of the last column (signature fd-base-is-last-column)"],
            required: vec!["quasi_newton_updates", "steps_updated"],
            suites: vec![
                trace("trace", 25000, 900000, Prof { methods: (2..10).collect(), families: fams(&[(Mild, 0.5), (Wild, 0.2), (Atan, 0.3)]), ..d() }, 0.05, &INACC),
                trace("analytic", 15000, 500000, Prof { methods: (2..10).collect(), analytic: 1.0, norms: 0.7, limits: 0.3, families: fams(&[(Mild, 0.5), (Wild, 0.2), (Atan, 0.3)]), ..d() }, 0.0, &INACC),
                suite("formulas", 20000, 800000, |ctx, _k, rng| fnsuites::update_formulas(ctx, rng)),
            ],
        },
        "C08" => Property {
            id: "C08",
            rule: "the same resolution by a method and its inverse counterpart, and random matrices updated both ways; non-trivial: at least one iteration following an update was compared, or one well conditioned update",
            level: "exploration",
            assumptions: vec![BOUNDARY, "what depends on rounding errors (checked by running the model perturbed at the rounding level) is not judged", UPDATES],
            required: vec!["compared_evaluations"],
            suites: vec![
                suite("pairs", 12000, 300000, |ctx, _k, rng| pair_case(ctx, rng)),
                suite("formulas", 20000, 800000, |ctx, _k, rng| fnsuites::update_formulas(ctx, rng)),
            ],
        },
        "C09" => Property {
            id: "C09",
            rule: "random resolutions by the ten methods, on problems where the damping refuses iterations; the jacobian requests (or column sweeps) of each iteration are compared to those prescribed; non-trivial: at least one iteration",
            level: "exploration",
            assumptions: vec![BOUNDARY, FLOATS, WALK],
            required: vec!["analytic_jacobians", "fd_jacobians", "quasi_newton_updates", "jacobian_after_refusal", "steps_stationary"],
            suites: vec![
                trace("trace", 25000, 900000, Prof { damping: 0.6, families: fams(&[(Atan, 0.4), (Mild, 0.3), (Wild, 0.3)]), ..d() }, 0.1, &INACC),
                trace("refusals", 12000, 400000, Prof { damping: 1.0, methods: (1..10).collect(), far: 0.8, families: fams(&[(Atan, 0.5), (Wild, 0.4), (NoRoot, 0.1)]), ..d() }, 0.1, &INACC),
                suite("plateau", 1000, 20000, |ctx, _k, rng| runsuites::plateau(ctx, rng)),
            ],
        },
        "C10" => Property {
            id: "C10",
            rule: "random resolutions with the damping, on problems where the error increases; non-trivial: at least one iteration",
            level: "exploration",
            assumptions: vec![BOUNDARY, FLOATS, WALK, "known finding F9: with finite differences the previous iterate is replaced by the point of the last column (signature fd-base-is-last-column)"],
            required: vec!["damping_decisions", "damped", "refused", "damping_not_needed", "jacobian_after_refusal"],
            suites: vec![
                trace("trace", 25000, 900000, Prof { damping: 1.0, families: fams(&[(Atan, 0.5), (Mild, 0.2), (Wild, 0.2), (NoRoot, 0.1)]), far: 0.6, ..d() }, 0.2, &NUMS),
                trace("undamped", 8000, 300000, Prof { damping: 0.0, families: fams(&[(Atan, 0.5), (Wild, 0.4), (NoRoot, 0.1)]), far: 0.6, ..d() }, 0.1, &INACC),
                trace("analytic", 10000, 400000, Prof { damping: 1.0, analytic: 1.0, families: fams(&[(Atan, 0.5), (Wild, 0.4), (NoRoot, 0.1)]), far: 0.8, ..d() }, 0.1, &INACC),
                trace("infinite", 4000, 100000, Prof { damping: 1.0, norms: 0.1, analytic: 0.7, ..d() }, 1.0, &[Fault::Inf, Fault::Inf, Fault::Inaccurate]),
            ],
        },
        "C11" => Property {
            id: "C11",
            rule: "random resolutions with bounds and step limits, and the limitation functions called on random steps; non-trivial: at least one iteration or one limited step",
            level: "exploration",
            assumptions: vec![BOUNDARY, FLOATS, WALK, "the initial guess and the points of the finite differences may be outside the bounds", "known finding F9: with finite differences the move is limited from the point of the last column (signature fd-base-is-last-column)"],
            required: vec!["limit_checks", "limits_active"],
            suites: vec![
                trace("trace", 25000, 900000, Prof { limits: 1.0, ..d() }, 0.1, &NUMS),
                trace("analytic", 15000, 500000, Prof { limits: 1.0, analytic: 1.0, far: 0.6, ..d() }, 0.1, &NUMS),
                suite("limitations", 40000, 1500000, |ctx, _k, rng| fnsuites::limitations(ctx, rng)),
            ],
        },
        "C12" => Property {
            id: "C12",
            rule: "every kind of error at every model call of random resolutions, then combinations; the inaccurate ones compared to the clean run; non-trivial: at least one iteration in the clean run",
            level: "fault_enumeration",
            assumptions: vec![BOUNDARY, FLOATS, WALK],
            required: vec!["faults_injected", "fault_combinations", "transparency_checks", "inaccurate_columns", "midpoint_errors", "inaccurate_midpoints", "proposal_errors", "init_errors", "column_errors", "jacobian_errors"],
            suites: vec![
                suite("enumeration", 1200, 40000, |ctx, _k, rng| fault_enumeration(ctx, rng, &ALL_FAULTS)),
                trace("trace", 15000, 500000, Prof { damping: 0.6, ..d() }, 0.9, &ERRS),
            ],
        },
        "C13" => Property {
            id: "C13",
            rule: "models giving undefined, infinite, huge, tiny, constant or discontinuous values, singular jacobians, errors; non-trivial: at least one iteration",
            level: "exploration",
            assumptions: vec![BOUNDARY, WALK, "an analytical jacobian is given with parameters made for it: the combination the library documents as unimplemented is left out"],
            required: vec!["runs_with_log", "singular_jacobians", "singular_approximations", "inverses_beyond_the_range", "marathons", "result:jacobian_not_invertible", "iterations", "result:nonconvergence"],
            suites: vec![
                trace("hostile", 25000, 900000, Prof { families: fams(&[(Hostile, 0.4), (Singular, 0.2), (NoRoot, 0.15), (Wild, 0.15), (Constant, 0.1)]), far: 0.5, ..d() }, 0.5, &NUMS),
                trace("trace", 10000, 400000, d(), 0.5, &ALL_FAULTS),
                trace("singular", 8000, 300000, Prof { families: fams(&[(Singular, 1.0)]), ..d() }, 0.1, &INACC),
                suite("plateau", 2000, 40000, |ctx, _k, rng| runsuites::plateau(ctx, rng)),
                suite("overflow", 2000, 40000, |ctx, _k, rng| runsuites::overflow(ctx, rng)),
                suite("marathon", 30, 2000, |ctx, _k, rng| runsuites::marathon(ctx, rng)),
            ],
        },
        "C14" => Property {
            id: "C14",
            rule: "the same resolution alone, again with the same solver, between others, from inside an evaluation, in several threads and in another process; non-trivial: at least one iteration",
            level: "exploration",
            assumptions: vec![BOUNDARY, "the schedules are those the machine yields (barriers and yields inside the evaluations)"],
            required: vec![],
            suites: vec![
                suite("reuse", 8000, 250000, |ctx, _k, rng| runsuites::reuse(ctx, rng)),
                suite("interleaved", 5000, 150000, |ctx, _k, rng| runsuites::interleaved(ctx, rng)),
                suite("nested", 5000, 150000, |ctx, _k, rng| runsuites::nested(ctx, rng)),
                Suite { serial: true, ..suite("concurrent", 60, 1500, |ctx, _k, rng| runsuites::concurrent(ctx, rng)) },
                suite("processes", 40, 800, |ctx, k, rng| runsuites::processes(ctx, k, rng)),
            ],
        },
        "C15" => Property {
            id: "C15",
            rule: "resolutions with and without a log, whose content is parsed and compared to the recorded values; non-trivial: at least one iteration logged",
            level: "exploration",
            assumptions: vec![BOUNDARY, "the layout of the log is that of the reference logs of the repository; both variants of an updating method have the same name in it"],
            required: vec!["logged_iterations", "logged_dampings", "logged_refusals", "logged_matrices", "logs_fully_compared", "steps_recomputed_from_the_log", "configuration_values", "files_compared", "runs_with_and_without_log", "logged_repetitions", "large_logs"],
            suites: vec![
                suite("logs", 10000, 300000, |ctx, k, rng| logsuite::log_case(ctx, k, rng)),
                suite("repetitions", 1500, 50000, |ctx, k, rng| logsuite::log_reuse(ctx, k, rng)),
                suite("files", 400, 12000, |ctx, k, rng| logsuite::log_files(ctx, k, rng)),
                suite("big", 50, 1000, |ctx, k, rng| logsuite::log_big(ctx, k, rng)),
            ],
        },
        "C16" => Property {
            id: "C16",
            rule: "random valid configurations written as XML with random inheritance, order and spacing, read back and compared value by value, then used; non-trivial: at least one value inherited or overridden",
            level: "exploration",
            assumptions: vec!["the values are compared after their decimal round trip (shortest representation)"],
            required: vec!["files_read", "values_compared", "inherited_values", "own_values", "resolutions_compared"],
            suites: vec![
                suite("read", 15000, 400000, |ctx, k, rng| xmlsuite::xml_read(ctx, k, rng)),
                suite("run", 6000, 150000, |ctx, k, rng| xmlsuite::xml_run(ctx, k, rng)),
            ],
        },
        "C17" => Property {
            id: "C17",
            rule: "every value of a valid configuration corrupted in turn (not positive, undefined, unordered, missing, misspelled, duplicated, wrong sizes), programmatically and in XML, next to accepted neighbours; non-trivial: a corruption was submitted",
            level: "exploration",
            assumptions: vec!["rejected means a panic while building the configuration or the solver, or reading the file"],
            required: vec!["corruptions", "rejected", "invalid", "accepted", "mismatches"],
            suites: vec![
                suite("xml", 15000, 400000, |ctx, k, rng| xmlsuite::xml_corrupted(ctx, k, rng)),
                suite("constructors", 10000, 300000, |ctx, _k, rng| xmlsuite::constructors(ctx, rng)),
                suite("mismatches", 5000, 150000, |ctx, _k, rng| xmlsuite::mismatches(ctx, rng)),
            ],
        },
        "C18" => Property {
            id: "C18",
            rule: "the same random problem described in several ways and resolved; non-trivial: at least one iteration",
            level: "exploration",
            assumptions: vec![BOUNDARY, "static and dynamic sizes are compared up to rounding (nalgebra unrolls them differently)"],
            required: vec!["compared_evaluations", "adapter_operations"],
            suites: vec![
                suite("descriptions", 10000, 300000, |ctx, _k, rng| runsuites::descriptions(ctx, rng)),
                suite("sizes", 8000, 250000, |ctx, _k, rng| runsuites::static_dynamic(ctx, rng)),
                suite("adapters", 10000, 300000, |ctx, _k, rng| runsuites::adapters(ctx, rng)),
            ],
        },
        "C19" => Property {
            id: "C19",
            rule: "random and special members (zeros, subnormal, huge, opposite, equal), every normalization, random lists of normalizations; non-trivial: every case",
            level: "exploration",
            assumptions: vec!["values are compared to 4 ulp-scale units, exact for Abs and for the sign and zero properties"],
            required: vec!["undefined_members", ],
            suites: vec![
                suite("values", 80000, 3000000, |ctx, _k, rng| fnsuites::normalization_values(ctx, rng)),
                suite("configurations", 40000, 1500000, |ctx, _k, rng| fnsuites::residuals_config(ctx, rng)),
                trace("trace", 8000, 300000, Prof { norms: 1.0, ..d() }, 0.1, &INACC),
            ],
        },
        "C20" => Property {
            id: "C20",
            rule: "well conditioned affine systems (with and without limits) and mildly nonlinear ones; the number of iterations is compared to the bound; non-trivial: at least one iteration",
            level: "exploration",
            assumptions: vec!["bounded progress: a number of iterations, never a duration", "the bounds hold with a margin on 1e6 such problems of the unchanged tree"],
            required: vec![],
            suites: vec![
                suite("affine", 12000, 400000, |ctx, _k, rng| runsuites::affine(ctx, rng)),
                suite("affine-limited", 8000, 300000, |ctx, _k, rng| runsuites::affine_limited(ctx, rng)),
                suite("mild", 12000, 400000, |ctx, _k, rng| runsuites::mild(ctx, rng)),
            ],
        },
        "C21" => Property {
            id: "C21",
            rule: "random one dimensional functions followed evaluation by evaluation; each literature problem at random points against differences, at its root, and solved; non-trivial: at least one iteration or comparison",
            level: "exploration",
            assumptions: vec!["derivatives are compared to central differences with an error estimate"],
            required: vec![],
            suites: vec![
                suite("one-dimensional", 100000, 3000000, |ctx, _k, rng| fnsuites::one_dimensional(ctx, rng)),
                suite("literature", 8000, 200000, |ctx, k, rng| fnsuites::literature(ctx, k, rng)),
            ],
        },
        "C22" => Property {
            id: "C22",
            rule: "the workloads of the other properties in processes instrumented with AddressSanitizer (leaks included), MemorySanitizer and ThreadSanitizer, and a smaller one interpreted by Miri; one evaluation is one resolution or function case; non-trivial: a process that answered",
            level: "exploration",
            assumptions: vec!["a tool sees the executions it instruments only; the standard library is instrumented for the memory and thread sanitizers", "a tool that cannot be built or started gives no answer (counted), never an alarm"],
            required: vec!["instrumented_processes"],
            suites: vec![suite("tools", 16, 100, |ctx, k, _rng| {
                // the first ones take a build
                let miri = if ctx.thorough { 24 } else { 4 };
                let size = if ctx.thorough { 900 } else { 30 };
                match k {
                    0 => sanitize::instrumented(ctx, "msan", k, size),
                    1 => sanitize::instrumented(ctx, "tsan", k, size),
                    3 => sanitize::instrumented(ctx, "asan", k, size),
                    k => sanitize::instrumented(ctx, "miri", k, miri),
                }
            })],
        },
        "C23" => Property {
            id: "C23",
            rule: "resolutions of models with memory, the memory found at each evaluation being recorded; non-trivial: at least one iteration",
            level: "exploration",
            assumptions: vec![BOUNDARY],
            required: vec!["memory_checks", "fd_jacobians", "analytic_jacobians"],
            suites: vec![
                trace("trace", 25000, 900000, Prof { memory: 1.0, analytic: 0.25, ..d() }, 0.2, &INACC),
                trace("errors", 8000, 300000, Prof { memory: 1.0, analytic: 0.25, damping: 0.8, families: fams(&[(Atan, 0.5), (Wild, 0.5)]), ..d() }, 0.5, &ALL_FAULTS),
            ],
        },
        "C24" => Property {
            id: "C24",
            rule: "resolutions in which the unknowns are implementations of the trait Iterative of the monitor (relaxation, saturation, kept signs, grids, frozen, multiplicative, asymmetric, faster steps; positive, negative, changing and constant perturbations), mixed with those of the library, every answer being recorded; non-trivial: at least one iteration",
            level: "exploration",
            assumptions: vec![BOUNDARY, FLOATS, WALK],
            required: vec!["proposed_components", "limitations_asked", "perturbations_asked", "fd_columns", "steps_checked", "runs_with_log"],
            suites: vec![suite("policies", 15000, 600000, |ctx, _k, rng| policies_case(ctx, rng))],
        },
        "C25" => Property {
            id: "C25",
            rule: "pairs of resolutions of one generated problem: in other units (powers of two) of the unknowns, of the equations, with axes of unknowns reversed and members of equations exchanged (exact comparison of every call), and with the unknowns and equations declared in another order (comparison up to rounding); 2 to 24 independent problems gathered in one against each resolved alone; non-trivial: at least one compared step",
            level: "exploration",
            assumptions: vec![BOUNDARY, FLOATS, WALK],
            required: vec!["compared_evaluations", "compared_jacobians", "whole_runs", "unknowns_in_other_units", "equations_in_other_units", "axes_reversed", "members_exchanged", "reordered_runs", "evaluations_compared_in_gathered_problems", "gathered_problems_followed_to_their_end"],
            suites: vec![
                suite("units", 50000, 3000000, |ctx, _k, rng| symsuite::units(ctx, rng)),
                suite("order", 8000, 400000, |ctx, _k, rng| symsuite::order(ctx, rng)),
                suite("blocks", 4000, 300000, |ctx, _k, rng| symsuite::blocks(ctx, rng)),
            ],
        },
        "C26" => Property {
            id: "C26",
            rule: "histories of 3 to 25 operations on one jacobian store (exact and approximated matrices, inverses, singular ones, evaluations from models that fail or not, invalidations), its observable state being compared to a reference after each; non-trivial: all",
            level: "exploration",
            assumptions: vec!["inverses are judged for condition numbers below 1e8"],
            required: vec!["states_compared", "inverses_checked", "singular_matrices", "invertible_matrices", "given_inverses", "evaluations_from_a_model", "failed_evaluations"],
            suites: vec![suite("store", 20000, 1000000, |ctx, _k, rng| envsuite::store(ctx, rng))],
        },
        "C27" => Property {
            id: "C27",
            rule: "resolutions in processes whose streams, files, threads, descriptors, environment are observed, and resolutions whose allocations are counted; non-trivial: at least a thousand evaluations compared to a short run, or a process observed",
            level: "exploration",
            assumptions: vec!["the bytes are those asked to the allocator by the thread of the resolution"],
            required: vec!["long_and_short_runs_compared", "repeated_resolutions", "solvers_dropped", "uses_in_processes_of_their_own", "requested_logs", "configurations_read", "files_found"],
            suites: vec![
                suite("memory", 300, 20000, |ctx, _k, rng| envsuite::memory(ctx, rng)),
                suite("effects", 60, 3000, |ctx, k, rng| envsuite::effects(ctx, k, rng)),
            ],
        },
        "C28" => Property {
            id: "C28",
            rule: "generated configurations (hostile numbers, up to 130 unknowns), values, stores and errors: what the getters give back, what their texts read back as, equality with copies and with objects differing by one value; non-trivial: all",
            level: "exploration",
            assumptions: vec!["the texts are read as tables of cells between vertical bars and numbers; the matrices printed are compared to the digits printed"],
            required: vec!["texts", "texts_of_the_store", "texts_of_errors", "equalities", "objects_differing_by_one_value", "pairs_of_methods"],
            suites: vec![
                suite("objects", 40000, 4000000, |ctx, _k, rng| textsuite::objects(ctx, rng)),
                suite("errors", 8000, 800000, |ctx, _k, rng| textsuite::errors(ctx, rng)),
            ],
        },
        // workload of the instrumented processes, whose verdicts are not used
        "SAN" => Property {
            id: "SAN",
            rule: "",
            level: "exploration",
            assumptions: vec![],
            required: vec![],
            suites: vec![
                trace("trace", 6000, 6000, d(), 0.3, &NUMS),
                suite("faults", 100, 100, |ctx, _k, rng| fault_enumeration(ctx, rng, &ALL_FAULTS)),
                Suite { serial: true, ..suite("concurrent", 10, 10, |ctx, _k, rng| runsuites::concurrent(ctx, rng)) },
                suite("reuse", 600, 600, |ctx, _k, rng| runsuites::reuse(ctx, rng)),
                suite("interleaved", 600, 600, |ctx, _k, rng| runsuites::interleaved(ctx, rng)),
                suite("nested", 600, 600, |ctx, _k, rng| runsuites::nested(ctx, rng)),
                suite("descriptions", 600, 600, |ctx, _k, rng| runsuites::descriptions(ctx, rng)),
                suite("sizes", 600, 600, |ctx, _k, rng| runsuites::static_dynamic(ctx, rng)),
                suite("adapters", 600, 600, |ctx, _k, rng| runsuites::adapters(ctx, rng)),
                suite("values", 2000, 2000, |ctx, _k, rng| fnsuites::normalization_values(ctx, rng)),
                suite("residuals", 2000, 2000, |ctx, _k, rng| fnsuites::residuals_config(ctx, rng)),
                suite("derivatives", 2000, 2000, |ctx, _k, rng| fnsuites::normalization_derivatives(ctx, rng)),
                suite("matrices", 2000, 2000, |ctx, _k, rng| fnsuites::jacobian_normalize(ctx, rng)),
                suite("numeric", 2000, 2000, |ctx, _k, rng| fnsuites::analytic_vs_numeric(ctx, rng)),
                suite("direct", 2000, 2000, |ctx, _k, rng| fnsuites::fd_direct(ctx, rng)),
                suite("perturbations", 2000, 2000, |ctx, _k, rng| fnsuites::perturbations(ctx, rng)),
                suite("limitations", 2000, 2000, |ctx, _k, rng| fnsuites::limitations(ctx, rng)),
                suite("formulas", 2000, 2000, |ctx, _k, rng| fnsuites::update_formulas(ctx, rng)),
                suite("one-dimensional", 2000, 2000, |ctx, _k, rng| fnsuites::one_dimensional(ctx, rng)),
                suite("literature", 200, 200, |ctx, k, rng| fnsuites::literature(ctx, k, rng)),
                suite("logs", 1000, 1000, |ctx, k, rng| logsuite::log_case(ctx, k, rng)),
                suite("repetitions", 200, 200, |ctx, k, rng| logsuite::log_reuse(ctx, k, rng)),
                suite("files", 50, 50, |ctx, k, rng| logsuite::log_files(ctx, k, rng)),
                suite("read", 1000, 1000, |ctx, k, rng| xmlsuite::xml_read(ctx, k, rng)),
                suite("run", 600, 600, |ctx, k, rng| xmlsuite::xml_run(ctx, k, rng)),
                suite("corrupted", 600, 600, |ctx, k, rng| xmlsuite::xml_corrupted(ctx, k, rng)),
                suite("constructors", 300, 300, |ctx, _k, rng| xmlsuite::constructors(ctx, rng)),
                suite("mismatches", 300, 300, |ctx, _k, rng| xmlsuite::mismatches(ctx, rng)),
                suite("objects", 300, 300, |ctx, _k, rng| textsuite::objects(ctx, rng)),
                suite("errors", 300, 300, |ctx, _k, rng| textsuite::errors(ctx, rng)),
            ],
        },
        // development: every deviation of the trace specification
        "ALL" => Property {
            id: "ALL",
            rule: "",
            level: "exploration",
            assumptions: vec![],
            required: vec![],
            suites: vec![
                trace("trace", 3000, 60000, d(), 0.3, &NUMS),
                suite("faults", 300, 60000, |ctx, _k, rng| fault_enumeration(ctx, rng, &ALL_FAULTS)),
                boundary(800, 16000),
                suite("pairs", 800, 16000, |ctx, _k, rng| pair_case(ctx, rng)),
            ],
        },
        _ => return None,
    };
    Some(p)
}
