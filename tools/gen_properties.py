#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the properties' texts)."""
import json, os
S='src/solver_n_dimensional/'
RF=S+'solver/rootfinder.rs'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech],'observe_at':observe,'hook_needed':hook}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})

p('C01','A verdict of success or non-convergence is always true of the final point',
 'A resolution reports success if and only if, at the point where it stops, every stopping residual (absolute value, in the configured stopping normalization of that equation) is a number not greater than the tolerance and the last evaluation of the model raised no error; an undefined (NaN) residual never counts as satisfied. If the residuals satisfy the tolerance but that last evaluation was inaccurate, the final-evaluation error is reported instead. Non-convergence is reported only when the whole iteration budget has been used and some stopping residual still exceeds the tolerance (or is undefined).',
 ['inputs','configurations','fault_sequences'],'every model, method, normalization, tolerance (0 and huge included), budget, damping flag and sequence of model outcomes',
 'The tests compare a few converged roots with literature values; none has a component that is NaN, a tolerance hit exactly, an equation that is not the worst one, or an inaccurate evaluation at the first, a middle or the last point.',
 [RF,S+'residuals/config.rs',S+'errors.rs'],
 [('loop condition and exit status of the resolution',RF+': solve'),('stopping residuals',S+'residuals/config.rs: evaluate_stopping_residuals')],
 ['result of solve','every evaluate() of the instrumented model and the residuals it exposes'],
 [('validity of the last evaluation','decides success against final-evaluation error',RF)])

p('C02','After a resolution the model is in its evaluated final state',
 'When a resolution ends with success, non-convergence or a final-evaluation error, the unknowns held by the model are exactly those of its last evaluation, and nothing (unknowns, residuals, memory) was written to the model after that evaluation, so that any latent output can be read without evaluating again. That last evaluation is at the point the verdict is about, never at a finite-difference perturbation.',
 ['inputs','configurations','histories'],'every resolution that ends with one of the three verdicts, in both jacobian modes, with and without damping, over repeated resolutions on the same model',
 'Tests read back the unknowns to compare them with a root at 1e-6 and cannot tell an unevaluated or perturbed state (5e-8 away) from the evaluated one.',
 [RF,S+'model/model_definition.rs'],
 [('proposal is set, evaluated and kept',RF+': update_model, damping')],
 ['set_iteratives/evaluate/set_memory calls on the instrumented model, state of the model after solve'])

p('C03','Iteration budget respected and no model evaluation is wasted',
 'A resolution starts by one evaluation at the initial guess, stops at the first iterate whose stopping residuals satisfy the tolerance, and performs at most max_iter iterations. Each iteration costs exactly one evaluation of the model for the proposed point, one more only if the step is damped, n more only if a finite-difference jacobian of the n unknowns is built in that iteration; an analytical jacobian is requested at most once per iteration, at the current iterate and only when the method needs a new jacobian.',
 ['inputs','configurations','fault_sequences'],'every model, method, damping flag, jacobian mode, tolerance and budget (0, 1 and hundreds of iterations included)',
 'No test counts evaluations; budgets of 0 or 1, budgets exhausted exactly at convergence and long runs are not sampled.',
 [RF,S+'solver/jacobian/jacobian_finite_diff.rs',S+'solver/jacobian/jacobian_analytic.rs'],
 [('iteration counter and loop',RF+': solve'),('exact jacobian only when flagged',RF+': evaluate_jacobian_quasi_newton_step')],
 ['order and number of evaluate and get_jacobian calls'],
 [('iter','iterations done in this resolution',RF)])

p('C04','Every proposed iterate is the limited Newton step of the configured method',
 'With an exact jacobian, each proposed iterate is the step-limited x - J^-1 F(x), where x is the current iterate, F its signed residuals in the update normalization (which may differ from the stopping one), and J the jacobian of that same F with respect to the unknowns. This holds for every problem size, static or dynamic, analytical or finite-difference jacobian, and every equation and unknown on its own row and column.',
 ['inputs','configurations','histories'],'every model, iterate, mix of normalizations and step limits, as long as J is numerically invertible (a condition number beyond about 1e10 is inconclusive)',
 'Tests check that a dozen systems converge, mostly with right-hand sides equal to zero and absolute normalization: a wrong step that still converges (scaled, transposed on symmetric cases, using the wrong normalization) is not seen.',
 [RF,S+'solver/jacobian/',S+'residuals/config.rs',S+'iteratives/iteratives_base.rs'],
 [('raw step from the inverse of the jacobian, then step limitation',RF+': compute_next_from_inv_jac')],
 ['points at which the model is evaluated, residuals and jacobian values it returned'])

p('C05','Finite-difference jacobians perturb each unknown once by its configured dx',
 'A finite-difference jacobian evaluates the model exactly once per unknown, each time at the reference point with only that unknown moved by its own dx, where dx = max(dx_abs, dx_rel|x|) or dx_abs + dx_rel|x| according to its perturbation method; column j is the forward difference of the update-normalized residuals divided by that dx, whatever the order of the columns. Inaccurate evaluations in a column are tolerated.',
 ['inputs','configurations'],'every model, reference point (zero, negative, huge and tiny coordinates), size, perturbation parameters mixed between unknowns, and normalization',
 'The tests compare a few jacobians with analytical ones at 1e-6: a perturbation of the wrong size, sign or coordinate, or a wrong method on one unknown, stays below that.',
 [S+'solver/jacobian/jacobian_finite_diff.rs',S+'iteratives/iterative_var_fd.rs',S+'iteratives/iteratives_base.rs'],
 [('forward difference columns',S+'solver/jacobian/jacobian_finite_diff.rs: compute_jacobian_from_finite_difference'),('dx',S+'iteratives/iterative_var_fd.rs: compute_perturbation')],
 ['perturbed evaluations of the model','returned matrix','next proposed iterate'])

p('C06','Analytical jacobians are normalized as the derivative of the residuals',
 'When the model provides the jacobians of the left and right members, the jacobian used by the solver is the exact derivative of the update-normalized residual of each equation (Abs, Rel or Adapt, each equation its own), for any signs of left, right and their sum. It therefore agrees with a numerical differentiation of the normalized residuals wherever they are differentiable.',
 ['inputs','configurations'],'all left and right values with left + right not zero, all derivative values, all mixes of normalizations',
 'Only a couple of positive sample values are tested; the sign of left + right, non-zero derivatives of the right member and mixes of normalizations are not.',
 [S+'residuals/mod.rs',S+'residuals/values.rs',S+'solver/jacobian/jacobian_analytic.rs'],
 [('deriv_normalization',S+'residuals/mod.rs'),('row-wise normalization of the jacobians',S+'residuals/values.rs: normalize')],
 ['return value of the normalization functions','proposed iterates with an analytical jacobian and Rel/Adapt update methods'])

p('C07','Quasi-Newton updates satisfy the secant equation and the documented formula',
 'In the iterations of a quasi-Newton method that do not use an exact jacobian, the approximation J (or its inverse H) is the rank-one update of the previous one by the configured formula (Broyden 1/2, Greenstadt 1/2), with s the difference of the last two iterates and y the difference of their signed update-normalized residuals; hence J s = y and H y = s. The proposed iterate is then the step-limited x - J^-1 F(x) with that approximation.',
 ['inputs','configurations','histories'],'every history of iterates (damped, limited at a bound, refused), sign of residuals, normalizations, and the eight updating methods',
 'Tests only look at the final root of a few systems: a wrong update slows convergence down without changing the root, and the update functions are not tested against the secant equation on histories with negative residuals.',
 [RF,S+'solver/resolution_method.rs',S+'solver/jacobian/jacobian_approximation.rs',S+'solver/jacobian/jacobian_inverse_approximation.rs'],
 [('update formulas',S+'solver/resolution_method.rs'),('s, y and F kept from the last update',RF+': update_model')],
 ['proposed iterates', 'matrices displayed in the log', 'return values of the update functions'],
 [('s, y','last iterate and residual differences',RF)])

p('C08','Jacobian and inverse-jacobian variants of a method give the same iterates',
 'For each of the four updating methods, updating the jacobian and inverting it, or updating the inverse directly, are the same algorithm: from the same guess on the same problem the two variants make the same evaluations at the same points up to rounding, as long as the matrices stay well conditioned. Each update function applied to a matrix and its counterpart applied to the inverse give mutually inverse results.',
 ['inputs','configurations'],'all problems, guesses, step limits, damping flag and normalizations; pairs of matrices and vectors with a non-vanishing denominator',
 'The tests run the variants separately against the root and never against each other.',
 [S+'solver/resolution_method.rs',S+'solver/jacobian/',RF],
 [('Sherman-Morrison pairs of formulas',S+'solver/resolution_method.rs')],
 ['evaluation points of both variants','return values of the update functions'])

p('C09','The jacobian is evaluated exactly when the method prescribes it',
 'Newton-Raphson evaluates a new jacobian at every iteration; the stationary method evaluates it at the first iteration only and reuses it unchanged for all the following ones; the updating quasi-Newton methods evaluate it at the first iteration and at the iteration that follows one refused by the damping policy, and approximate it in all others.',
 ['inputs','configurations','histories'],'every sequence of accepted, damped and refused iterations, of any length, in both jacobian modes, over repeated resolutions',
 'Nothing in the tests observes when a jacobian is computed.',
 [RF,S+'solver/jacobian/jacobian_struct.rs',S+'solver/resolution_method.rs'],
 [('flag asking for an exact jacobian at the next iteration',S+'solver/jacobian/jacobian_struct.rs')],
 ['get_jacobian calls and finite-difference evaluation patterns per iteration'],
 [('compute_jacobian_at_next_iteration','exact jacobian requested',S+'solver/jacobian/jacobian_struct.rs')])

p('C10','Damping acts only when the error increases, by halving the step once',
 'Without damping enabled, proposals are always kept. With damping enabled, a proposal that does not increase the largest stopping residual is kept as is; one that increases it is replaced by the midpoint between the previous iterate and the proposal (one more evaluation) if the jacobian of that step was not an approximation, and is kept, with an exact jacobian at the next iteration, if the step came from an updated approximation.',
 ['inputs','configurations','histories'],'all histories and problems; an error exactly equal to the previous one is left unspecified',
 'The tests enable damping on a few converging systems and check the root, not which points were evaluated.',
 [RF,S+'solver/parameters.rs'],
 [('damping policy',RF+': damping'),('documentation of the policy',S+'solver/parameters.rs')],
 ['evaluation points after an increase of the error'])

p('C11','Iterates never leave their bounds nor exceed the step limits',
 'Every proposed iterate lies, component by component, inside its own [min_value, max_value], and moves from the previous iterate by at most min(max_step_abs, max_step_rel*|x|) unless bringing it back inside the bounds requires more. A component whose raw Newton step violates no limit is not altered, and a limited one keeps the direction of its raw step.',
 ['inputs','configurations','histories'],'all values of the four parameters mixed between unknowns (infinite ones included), all current values and raw steps that are numbers (zero, negative, huge), guesses outside of the bounds',
 'The documentation examples and one parametrized test sample a handful of values on one side.',
 [S+'iteratives/iterative_var.rs',S+'iteratives/iterative_var_fd.rs',S+'iteratives/iteratives_base.rs',RF],
 [('step_limitation',S+'iteratives/iterative_var.rs')],
 ['evaluation points of the proposals','return value of the step limitation'])

p('C12','Model errors end or continue the resolution according to their kind and phase',
 'An unusable evaluation ends the resolution at once, with the initial-evaluation error if it was the first one, the jacobian error if it was a finite-difference column, and the evaluation error if it was a proposed or damped point; an error of the analytical jacobian, of either kind, ends it with the jacobian error. An inaccurate evaluation never ends it: the run continues exactly as if no error had been raised, except that success turns into the final-evaluation error if the last evaluation is inaccurate. The error reported carries the message of the error the model raised.',
 ['fault_sequences','configurations'],'every position and kind (and pairs of positions) of errors raised by the model, in every method, jacobian mode and with damping',
 'The tests inject one always-inaccurate model and no unusable evaluation at chosen phases.',
 [RF,S+'errors.rs',S+'model/error.rs',S+'solver/jacobian/jacobian_finite_diff.rs',S+'solver/jacobian/jacobian_analytic.rs'],
 [('classification of the outcomes',RF+': solve, update_model, damping'),('error types',S+'errors.rs')],
 ['result and message of solve against the fault injected, trace with and without inaccurate faults'])

p('C13','No model can make a resolution panic; a singular jacobian is a typed error',
 'For any model that honours its dimensions, whatever numbers it returns (NaN, infinities, huge, tiny, constant, discontinuous) and errors it raises, a resolution terminates within its iteration budget with a result of its documented error type and never panics. A jacobian that cannot be inverted (a zero row or column, undefined entries, an inverse beyond the range of the numbers) is reported as the jacobian error, never used for a step.',
 ['inputs','fault_sequences','configurations'],'all models, faults, methods, damping, normalizations, limits and logs; only panics of the solver itself count',
 'One singular jacobian is tested; hostile values, null steps at a bound with quasi-Newton updates, and errors combined with damping are not.',
 [RF,S+'solver/jacobian/jacobian_struct.rs',S+'errors.rs'],
 [('inversion reported as a result',S+'solver/jacobian/jacobian_struct.rs'),('typed errors',S+'errors.rs')],
 ['panics caught at the boundary of solve, result, number of evaluations'])

p('C14','Resolutions are deterministic, repeatable and isolated from each other',
 'The sequence of model calls and the result of a resolution depend only on its own parameters, guess and model: they are bit for bit the same when the same solver object is used again (after a success, a failure or a model error), when other resolutions ran before or run concurrently in other threads, and when the model itself runs another resolution inside its evaluation.',
 ['histories','schedules','inputs'],'all sequences of resolutions on one solver object, interleavings of several solvers, and thread schedules',
 'Every test builds a fresh solver and runs it once.',
 [RF,S+'solver/jacobian/jacobian_struct.rs'],
 [('state of the solver reset at the start of a resolution',RF+': solve')],
 ['complete traces of the instrumented models, compared bit for bit'])

p('C15','The log tells exactly what happened and does not change the resolution',
 'With the log activated, the file contains the configuration and, for the initial point and each iteration in order, the iteration number, the exact unknowns, left and right members and stopping residuals evaluated there and their maximum, each damped point, each refused iteration, and for each iteration the jacobian and inverse matrices used for its step. Activating it changes neither the model calls nor the result, and each solver writes to its own file only.',
 ['inputs','configurations','histories'],'all runs: any number of iterations and unknowns, all methods, damping, errors, several resolutions and several solvers logging',
 'One reference log of one undamped Newton run is compared.',
 [S+'solver/log.rs',RF,S+'solver/jacobian/jacobian_struct.rs',S+'solver/parameters.rs',S+'iteratives/iteratives_base.rs',S+'residuals/config.rs'],
 [('log writer',S+'solver/log.rs')],
 ['content of the log file against the trace of the same run, traces with and without log'])

p('C16','XML configurations are read faithfully with inheritance of defaults',
 'Reading a valid XML configuration yields exactly the parameters written in it, for any valid numbers, number of unknowns and order or spacing of attributes: solver attributes (damping absent means false), the method named by its code, and for each unknown and equation its own attribute if present and otherwise that of the enclosing node, attribute by attribute. Configuring a solver from XML or programmatically with the same values gives identical resolutions.',
 ['inputs','configurations'],'all combinations of present and absent attributes, all ten methods, all perturbation and normalization names, both readers',
 'Three-unknown files with a few overridden attributes are tested.',
 [S+'xml_parser/'],
 [('attribute-wise defaults',S+'xml_parser/node_iterative_fd.rs, node_iterative_jac.rs, node_residual.rs'),('method codes',S+'xml_parser/node_solver.rs')],
 ['parsed structures against the generated ones'])

p('C17','Invalid configurations are rejected instead of being used',
 'Building a configuration panics for any step limit or perturbation that is not strictly positive or not a number, for bounds that are not numbers or not strictly ordered, and for any mismatch between the problem size and the lengths of the guess, the unknowns, the two residual method lists, or the members of residuals and jacobians (non square ones included); every valid configuration is accepted. The XML readers reject the same values as well as values that do not parse, missing or misspelled node names and required attributes, and unknowns or equations whose identifiers or count are wrong.',
 ['inputs','configurations'],'all parameter values (NaN, zero, negative zero, negative, infinities), lengths, and single corruptions of a valid XML file',
 'A few hand-picked invalid values are tested, one argument each.',
 [S+'iteratives/iterative_var.rs',S+'iteratives/iterative_var_fd.rs',S+'residuals/values.rs',S+'residuals/config.rs',RF,S+'xml_parser/'],
 [('constructors validate',S+'iteratives/iterative_var.rs: new; iterative_var_fd.rs: new, extend; '+RF+': new')],
 ['panic or value returned by the constructors and readers'])

p('C18','All ways of describing the same problem give the same resolution',
 'A problem described as a function, a closure (with its jacobian or not) or a hand-written model, with statically or dynamically sized vectors, and with default or explicitly written default parameters, is resolved through the same evaluations (bit for bit, up to rounding between static and dynamic sizes) to the same result. The adapters evaluate exactly the user function at the given unknowns, keep a constant right member (zero unless the user changes it) and report its jacobian unchanged.',
 ['inputs','configurations'],'all problems, guesses, methods, sizes 1 to 10 (static) and all pairs of descriptions',
 'Static and dynamic models, functions and closures are tested on separate examples.',
 [S+'model/model_from_func.rs',S+'model/model_from_closure.rs',S+'solver/default.rs',S+'iteratives/default.rs','src/solver_n_dimensional/util_nalgebra.rs'],
 [('adapters',S+'model/'),('default_with_guess',S+'solver/default.rs')],
 ['calls received by the user functions, results and final states'])

p('C19','Residual normalizations have their documented meaning for all values',
 'Abs is left - right, Rel is (left - right)/(|left + right|/2) and Adapt is (left - right)/(1 + |left + right|/2); a residual is zero whenever left equals right (0 = 0 included), changes sign when left and right are exchanged, and has the sign of left - right. Stopping residuals are absolute values and update residuals are signed, each equation with its own method and its own position.',
 ['inputs','configurations'],'all finite left and right values of any sign and magnitude for which the documented expressions do not overflow, all mixes and lengths of methods',
 'Two sample pairs per method are tested.',
 [S+'residuals/mod.rs',S+'residuals/config.rs'],
 [('normalization',S+'residuals/mod.rs'),('vector versions',S+'residuals/config.rs')],
 ['return values of the normalization functions'])

p('C20','Well-conditioned problems are solved within the expected number of iterations',
 'On a well-conditioned affine system with absolute normalization and no limits every method reaches the solution in one iteration with an analytical jacobian (at most a few with finite differences), and with step limits in the number of iterations the limits impose. On mildly nonlinear well-conditioned systems started close to the root, all ten methods converge to that root within 25 iterations, Newton-Raphson within 8, with or without damping.',
 ['inputs','configurations'],'all affine and mildly nonlinear systems generated with condition number bounded and an initial error bounded; any size 1 to 100',
 'A dozen literature systems are tested with generous budgets (50-60 iterations), which hides slow convergence.',
 [RF,S+'solver/resolution_method.rs',S+'solver/jacobian/'],
 [('the whole algorithm',RF)],
 ['number of iterations, final error to the known root'])

p('C21','The companion crate: 1-D solvers and literature problems are consistent',
 'The one-dimensional solvers stop at the first guess whose absolute residual is not greater than the tolerance or after max_iter iterations, each iteration being exactly one Newton step with the given derivative or a forward difference of step dx. Each literature test problem has a jacobian equal to the derivative of its function everywhere, and its documented solution is a root.',
 ['inputs'],'all guesses, tolerances, budgets and steps; all points of the test problems',
 'The reference functions are the oracle of the other tests and are themselves checked at two points only.',
 ['util/src/solver_one_dimensional.rs','util/src/test_cases/broyden1965.rs','util/src/test_cases/polynom.rs'],
 [('1-D iterations','util/src/solver_one_dimensional.rs'),('functions, jacobians and solutions','util/src/test_cases/')],
 ['calls received by the function, returned guess; numerical differentiation of the functions'])

p('C22','No undefined behaviour or data race in any resolution',
 'Resolutions with every method, jacobian mode, static and dynamic sizes, several threads, errors and panicking models execute without undefined behaviour, out-of-bounds or uninitialized access, leak or data race.',
 ['inputs','schedules','fault_sequences'],'all executions; observed on a workload interpreted by Miri and a larger one under the address, memory and thread sanitizers',
 'The tests run without any sanitizer and in one thread per solver.',
 [RF,S+'solver/jacobian/',S+'util_nalgebra.rs'],
 [('safe Rust on top of nalgebra','src/')],
 ['reports of the sanitizers and of the interpreter'])

p('C23','Finite-difference columns all start from the memory of the reference point',
 'For a model with memory, every perturbed evaluation of a finite-difference jacobian starts from the memory the model had at the reference point, and so does the evaluation of the proposed point that follows the jacobian, so that neither the jacobian nor the next point depends on the order of the columns. Models evaluated without a finite-difference jacobian never get their memory overwritten.',
 ['inputs','histories','configurations'],'all models with memory (any length, including none), sizes, methods, damped and refused iterations',
 'No test has a model with memory.',
 [S+'solver/jacobian/jacobian_finite_diff.rs',S+'model/model_definition.rs'],
 [('memory captured once, restored after each column',S+'solver/jacobian/jacobian_finite_diff.rs: compute_jacobian_from_finite_difference')],
 ['memory held by the model at each evaluation, get_memory/set_memory calls'])

p('C24','User-defined step limits and perturbations are used as they answer',
 'The configuration of an unknown may be any implementation of the public trait, not only the two provided, and may differ between the unknowns. Whatever it answers, each proposed component is exactly the value that the step limitation of its own unknown returned for the raw step of that component (never clipped, rescaled or replaced by the solver), and each finite-difference column moves its unknown by exactly the perturbation, positive or negative, that the unknown returned at the current value. Perturbations are never asked when the model provides its jacobian, so that unknowns without any work there, and the log displays each unknown by its own description.',
 ['inputs','configurations'],'all limitation and perturbation policies (any answer), methods, sizes, jacobian modes, damping',
 'The tests use the two provided implementations only.',
 [S+'iteratives/iteratives_base.rs',RF,S+'solver/jacobian/jacobian_finite_diff.rs'],
 [('the trait Iterative and its slice',S+'iteratives/iteratives_base.rs: Iterative, Iteratives')],
 ['questions asked to the unknowns and their answers, points of the evaluations'])

p('C25','Units, signs, order and independent equations have no effect on a resolution',
 'A resolution knows no absolute scale of its own. When all the unknowns are measured in another unit (a power of two; with their guess, bounds, absolute step limit and absolute perturbation), or the members of all the equations in another unit (with the tolerance, if the stopping residuals are absolute; Abs and Rel normalizations), every point at which the model is evaluated is multiplied by exactly that unit and nothing else changes: same evaluations, same verdict. Exchanging the left and right members of an equation changes no evaluated point at all, and reversing the axis of an unknown whose jacobian is given (with its bounds) reverses its values exactly. Declaring the unknowns and the equations in another order, with their parameters, permutes the iterates and changes them by rounding errors only. Gathering independent problems in one resolution by Newton-Raphson or the stationary Newton method, without damping and with jacobians given, changes the iterates of each by rounding errors only, as long as it would be running alone.',
 ['inputs','configurations'],'all problems, methods, normalizations, limits, sizes, jacobian modes, damping, within the range of the floating point numbers',
 'A test solves one problem in one formulation; a hidden absolute threshold or a privileged row only shows when two formulations are compared.',
 [RF,S+'solver/resolution_method.rs',S+'solver/jacobian/jacobian_struct.rs',S+'residuals/mod.rs',S+'iteratives/iterative_var.rs'],
 [('homogeneous formulas of the step and of the updates',S+'solver/resolution_method.rs'),('normalizations and their derivatives',S+'residuals/mod.rs: normalization, deriv_normalization')],
 ['every evaluated point, its members and the verdict, in two formulations of one problem'])
p('C26','The jacobian held is always coherent with its inverse and its flags',
 'After any history of operations on the public jacobian store (JacobianMatrix), whatever the size and the matrices: if it holds a matrix, it is the last one accepted, and the inverse held is the inverse of that matrix; a singular matrix is refused, every well-conditioned one is accepted whatever its scale, and after a refusal neither a matrix nor an inverse is held; giving an inverse replaces the inverse and forgets the matrix; an invalidation forgets both; after an evaluation from a model that failed, the store holds either what it held or nothing. A new jacobian is asked for exactly from the creation, or from a forced computation, until the next matrix is accepted; the jacobian is said approximated exactly when the last update accepted was one.',
 ['inputs','histories'],'all histories of operations, matrices (singular ones included), sizes static and dynamic, models whose evaluation fails',
 'The resolutions only use a few of the histories, and end as soon as a matrix is refused.',
 [S+'solver/jacobian/jacobian_struct.rs',S+'solver/jacobian/jacobian_analytic.rs',S+'solver/jacobian/jacobian_finite_diff.rs'],
 [('matrix, inverse and flags updated together',S+'solver/jacobian/jacobian_struct.rs: JacobianMatrix')],
 ['matrix, inverse and flags of the store after each operation'])

p('C27','A resolution has no other effect than on the model and on the requested log',
 'Whatever the problem, method and outcome, using the library (building a solver, resolving, reading a configuration, the companion crate) prints nothing on the standard streams, creates, modifies and removes no file other than the log that was requested, changes neither the environment nor the working directory, and leaves no thread and no open file behind. The memory used by a resolution without a log does not depend on its number of iterations, that held by a solver does not grow with the number of its resolutions, and it is given back with the solver.',
 ['inputs','histories','configurations'],'all problems, methods, outcomes, numbers of iterations and of resolutions, existing files at the place of the log',
 'No test looks at the streams, the files or the memory.',
 [RF,S+'solver/log.rs',S+'solver/jacobian/jacobian_struct.rs',S+'xml_parser/util.rs','util/src/solver_one_dimensional.rs'],
 [('the log is the only output',S+'solver/log.rs: SolverLog'),('state of a resolution of constant size',RF+': RootFinder')],
 ['bytes on the standard streams, listing of the working directory, threads, descriptors, environment of processes; bytes asked to the allocator'])
p('C28','Configurations, values and errors are exactly what they were made of, and say so',
 'For every configuration, value and error that can be built: the getters give back, bit for bit, what the constructors were given, and the default ones are the documented defaults for any size; a copy is equal to its original, and two parameters, configurations or methods are equal only if all they hold is equal; their texts (Display), on which logs and reports rest, show every value, in the order of the unknowns and equations, with all the digits needed to read it back exactly, and two methods, parameters or configurations that differ never have the same text; the text of the jacobian store shows the matrix and the inverse it holds, or says they are missing; the text of an error (Display and Debug) tells its kind and phase from every other one and contains the message of the user model whole.',
 ['inputs','configurations'],'all numbers (infinite, subnormal, with 17 digits), sizes, methods, histories of the store, and messages of the user (empty, long, with braces, several lines, not ASCII)',
 'The tests print a few round numbers of configurations of one to three unknowns.',
 [S+'iteratives/iterative_var.rs',S+'iteratives/iterative_var_fd.rs',S+'iteratives/iteratives_base.rs',S+'residuals/config.rs',S+'residuals/values.rs',S+'solver/parameters.rs',S+'solver/resolution_method.rs',S+'solver/jacobian/jacobian_struct.rs',S+'errors.rs',S+'model/error.rs'],
 [('texts of the configurations',S+'iteratives/iteratives_base.rs: Display for Iteratives'),('texts of the methods',S+'solver/resolution_method.rs: Display for QuasiNewtonMethod'),('texts of the errors',S+'errors.rs: Display for SolverError')],
 ['values given back by the getters, verdicts of the equality, and texts, read back'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
