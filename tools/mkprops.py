"""writes properties.jsonl (kept as code so that it stays valid JSON)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'mechanism': [{'name': n, 'where': w} for n, w in mech],
            'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
            'observe_at': list(observe),
            'hook_needed': None,
        },
    })


MIN = 'fides/minimize.py'
STEPS = 'fides/steps.py'
SB = 'fides/stepback.py'
TR = 'fides/trust_region.py'
SUB = 'fides/subproblem.py'
HA = 'fides/hessian_approximation.py'
LOG = 'fides/logging.py'

prop('C01', 'Bounds are never violated',
     'For a start inside bounds whose lower entries lie below the upper ones, every point at which the objective is evaluated, and the point that is returned, is finite and satisfies the bounds exactly, whatever the objective answers. '
     'The first evaluation is at the given start (moved at most a few rounding units off a bound); a start outside the bounds (or with NaN entries) is refused with an error before the objective is called, and no run that began inside ever ends with the out-of-bounds exit flag.',
     ['inputs', 'configurations', 'fault_sequences', 'histories'],
     'all problems, bounds (box, one-sided, mixed, tight, none), starts on or next to bounds, subspace solvers, step-back strategies, Hessian schemes, and all sequences of good, bad and failed replies',
     'Tests run a handful of smooth problems from a few starts with one well-behaved objective and only look at the final point.',
     [MIN, STEPS, SB, TR],
     [('step is scaled back by theta before the closest bound', STEPS + ':Step.step_back'),
      ('evaluation point is clipped to the bounds', MIN + ':Optimizer.minimize'),
      ('feasibility check', MIN + ':Optimizer.check_in_bounds')],
     observe=['arguments of the objective function', 'return value of Optimizer.minimize', 'Optimizer.exitflag'])

prop('C02', 'The iterate is one real evaluation and only ever goes downhill',
     'At every moment the optimizer is observed (inside the objective, and after the run, also when it was aborted), its current point, function value and gradient (and Hessian, when the user supplies it) belong to one and the same evaluation of this run; the returned tuple is that iterate. '
     'The iterate moves only to an evaluation with a strictly smaller finite function value and a positive trust-region ratio, always moves when that ratio is positive, and a rejected, malformed, failed or non-finite evaluation leaves it unchanged.',
     ['inputs', 'configurations', 'fault_sequences', 'crash_points', 'histories'],
     'all runs under all reply sequences including exceptions, interrupts, malformed and non-finite replies at any evaluation',
     'Tests look at end results of successful runs; no test observes the iterate between evaluations, after aborts, or under reply faults.',
     [MIN],
     [('accept / reject', MIN + ':Optimizer.update_tr_radius'),
      ('move of the iterate', MIN + ':Optimizer.update')],
     [('x, fval, grad, hess', 'current iterate', MIN + ':Optimizer')],
     ['Optimizer.x/fval/grad/hess', 'return value of Optimizer.minimize'])

prop('C03', 'The reported best point is the best evaluation of the run',
     'At every evaluation and after every run, however it ended, the reported best point, value and gradient are those of the first evaluation of this run that attains the smallest finite function value seen so far, whether or not that step was accepted. '
     'The best value is never larger than the value of the current iterate and evaluations of earlier runs never count.',
     ['inputs', 'fault_sequences', 'histories', 'crash_points'],
     'all reply sequences (bumps, non-finite values, aborts) and all sequences of runs on one optimizer',
     'Tests only compare the final best value with the final value for clean single runs.',
     [MIN], [('track_minimum', MIN + ':Optimizer.track_minimum'), ('reset at run start', MIN + ':Optimizer._reset')],
     [('x_min, fval_min, grad_min', 'best evaluation so far', MIN + ':Optimizer')],
     ['Optimizer.x_min/fval_min/grad_min'])

prop('C04', 'Trust-region radius and ratio follow the documented rule',
     'Every step has a length in scaled coordinates of at most the radius it was computed with, and the reported ratio is actual (corrected for the bound-induced curvature) over predicted decrease of the quadratic model at the iterate. '
     'After each evaluation the radius is multiplied by gamma2 (but not raised above 1e100) exactly when the ratio reaches eta and the step used at least 0.9 of the radius, becomes the smaller of gamma1 times itself and a quarter of the step length exactly when the ratio is at most mu or the value is not finite, and is unchanged otherwise; a run starts at the configured initial radius.',
     ['inputs', 'configurations', 'fault_sequences', 'histories'],
     'all problems, option values, Hessian schemes and reply sequences, every iteration of every run',
     'Tests check single calls of the subproblem solvers; no test recomputes ratio and radius along whole runs or under faulty replies.',
     [MIN, TR, STEPS, SUB],
     [('radius update', MIN + ':Optimizer.update_tr_radius'), ('norm constraint of the subproblem', SUB + ':solve_nd_trust_region_subproblem'),
      ('affine scaling', MIN + ':Optimizer.get_affine_scaling')],
     [('delta', 'radius for the next step', MIN + ':Optimizer'), ('delta_iter', 'radius used for the current step', MIN + ':Optimizer'),
      ('tr_ratio', 'ratio of the last step', MIN + ':Optimizer')],
     ['Optimizer.delta/delta_iter/tr_ratio'])

prop('C05', 'Exit flags tell the truth',
     'When a run returns, its exit flag names a criterion that really held at that moment (function difference, scaled step length, gradient norm of the returned iterate, iteration budget, time budget, radius below machine precision) and the converged attribute is true exactly for the three convergence flags. '
     'A run never continues past an evaluation after which a convergence criterion held, never reports a budget or radius flag when a convergence criterion held, and a run that ended with an exception never shows a convergence flag or one left over from an earlier run.',
     ['inputs', 'configurations', 'fault_sequences', 'histories'],
     'all tolerance settings, problems, reply fault sequences (in particular faults on the last evaluation) and run histories',
     'Tests assert one flag for a few clean runs; rejected or failed last evaluations, simultaneous criteria and reused optimizers are not covered.',
     [MIN], [('convergence criteria', MIN + ':Optimizer.check_convergence'), ('continuation criteria', MIN + ':Optimizer.check_continue'),
             ('reset', MIN + ':Optimizer._reset')],
     [('exitflag, converged', 'outcome of the run', MIN + ':Optimizer')], ['Optimizer.exitflag', 'Optimizer.converged'])

prop('C06', 'Every run ends within its iteration budget',
     'A run performs at most maxiter iterations and exactly one objective evaluation per iteration plus one at the start, and the reported iteration count says so. '
     'Whatever the objective answers, the work between two evaluations is finite, and a run whose radius has fallen below machine precision stops.',
     ['inputs', 'configurations', 'fault_sequences', 'histories'],
     'all problems (ill-conditioned, indefinite, arbitrary replies), subspace solvers, step-back strategies, Hessian schemes, reply faults',
     'Tests use well-conditioned problems with generous budgets; non-termination inside a step computation needs specific matrices and fault histories.',
     [MIN, STEPS, SB, SUB], [('iteration budget', MIN + ':Optimizer.check_continue'), ('bounded conjugate gradient iterations', STEPS + ':TRStepSteihaug.conj_grad'),
                             ('bounded root finding', SUB + ':solve_nd_trust_region_subproblem'), ('bounded reflections / truncations', SB)],
     observe=['number of objective calls', 'Optimizer.iteration'])

prop('C07', 'The time budget is honoured, by elapsed time only',
     'After each evaluation the run stops with the time flag exactly when the time left of maxtime is smaller than the average time per iteration so far (no other criterion having ended it first), so it overruns maxtime by less than its last evaluation; with an infinite budget it never stops for time. '
     'Only time that elapsed during this run counts: each run on a reused optimizer gets a fresh budget and forward or backward jumps of the wall clock change nothing.',
     ['schedules', 'fault_sequences', 'histories', 'configurations'],
     'all sequences of evaluation latencies, stalls and wall-clock jumps, all budgets, repeated runs on one optimizer',
     'Tests cannot control the clock; one test sets a tiny maxtime and checks the flag.',
     [MIN], [('budget check', MIN + ':Optimizer.check_continue'), ('start of the clock', MIN + ':Optimizer._reset')],
     [('starttime', 'start of the run on a monotonic clock', MIN + ':Optimizer')], ['Optimizer.exitflag', 'objective call times'])

prop('C08', 'Non-finite replies are contained',
     'A non-finite function value at any evaluation after the first is treated as a rejected step that strictly shrinks the radius and the run goes on (or stops for an ordinary reason), whatever derivatives came with it; a non-finite initial reply, or a finite value with non-finite derivatives, ends the run with a RuntimeError and the not-finite flag. '
     'No run that received only finite well-formed replies dies with an error, and nothing non-finite ever becomes part of the iterate, the best point, the Hessian approximation or the returned result.',
     ['fault_sequences', 'inputs', 'histories'],
     'NaN / +inf / -inf in value, gradient, Hessian or residuals at any evaluation, alone or in bursts, for all configurations',
     'Tests make the initial evaluation non-finite or run one problem with a NaN region; positions, bursts and combinations are not explored.',
     [MIN, HA], [('finite checks', MIN + ':Optimizer.check_finite'), ('rejection of non-finite values', MIN + ':Optimizer.update_tr_radius'),
                 ('undefined updates are skipped', HA + ':broyden_class_update')],
     observe=['exception type', 'Optimizer.exitflag', 'Optimizer.delta', 'return value'])

prop('C09', 'A run does not depend on what the optimizer did before',
     'A run on an optimizer (and Hessian approximation object) that already performed any sequence of runs, including runs that failed, were interrupted at an arbitrary point or used other options, evaluates exactly the same points and produces exactly the same results, flags and statistics as the same run on freshly built objects. '
     'Results returned by earlier runs are not modified by later runs.',
     ['histories', 'crash_points', 'fault_sequences'],
     'all sequences of earlier runs x abort kinds x interruption at every executed line, all Hessian schemes',
     'Tests build a new optimizer per run, except for one two-run test without failures.',
     [MIN, HA], [('reset', MIN + ':Optimizer._reset'), ('re-initialisation of the approximation', HA + ':HessianApproximation._init_mat')],
     observe=['objective call arguments', 'return values', 'Optimizer attributes and history'])

prop('C10', 'Optimizers in different threads do not influence each other',
     'When several optimizers with their own Hessian objects run concurrently in different threads of one process, under any interleaving and also when they share bounds, start, options or are started from inside another run\'s objective function, each evaluates exactly the points and returns exactly the results it would alone, and none deadlocks. '
     'A failure or interrupt in one of them does not affect the others.',
     ['schedules', 'fault_sequences', 'configurations'],
     'all interleavings at line and bytecode granularity of two to four optimizers, with failing neighbours and nested runs',
     'There is no multi-threaded test, although the package documents multi-threaded use; a test could only sample a few uncontrolled interleavings.',
     [MIN, LOG, HA, STEPS], [('per-run logger', LOG + ':create_logger'), ('no shared mutable state', MIN + ':Optimizer')],
     observe=['objective call arguments per thread', 'return values per thread'])

prop('C11', 'Observing a run does not change it',
     'Verbosity level, the run identifier, recording a history, and the state of the log stream and of the history file (slow, broken pipe, cannot be opened, disk full) have no influence on the points evaluated, the iterates, the flag or the result values. '
     'A broken log stream never makes a run fail.',
     ['fault_sequences', 'configurations', 'inputs'],
     'all runs x verbosity levels x history on/off x log-stream and disk faults',
     'Tests never compare two runs that differ only in observation and never break the log stream or the disk.',
     [MIN, LOG, TR], [('logging', LOG + ':create_logger'), ('history', MIN + ':Optimizer.track_history')],
     observe=['objective call arguments', 'return values', 'Optimizer attributes'])

prop('C12', 'The history file records each completed run exactly once, faithfully',
     'After any sequence or interleaving of runs that share a history file, it holds exactly one group for every run that completed with recording enabled, under its identifier (the given one, otherwise a distinct generated one), and none for runs that raised during optimization; earlier groups are never altered. '
     'Every series has one entry per iteration of that run in order, and each entry (value, ratio, radius used, gradient norm of the iterate, step norm, acceptance, eigenvalue and condition statistics, iterations since the last radius change) equals what the run really did.',
     ['schedules', 'histories', 'fault_sequences', 'inputs'],
     'all sequences and thread interleavings of runs with reply faults, aborts, repeated identifiers and several optimizers per file',
     'One test checks that the groups and keys exist after clean sequential runs; values, aborts, repeated identifiers and concurrency are not covered.',
     [MIN], [('collection', MIN + ':Optimizer.track_history'), ('append', MIN + ':Optimizer.minimize')],
     [('history', 'per-run statistics', MIN + ':Optimizer')], ['HDF5 history file', 'Optimizer.history'])

prop('C13', 'Recorded histories survive failures and crashes',
     'A history group that a run wrote before its minimize call returned stays readable and unchanged when a later run on the same file fails, is interrupted, cannot open the file, or the process is killed at any time outside of the short moment in which that later run appends its own group. '
     'A run whose history could not be written completely reports it by raising an error instead of returning, and runs after the fault is gone record their history again.',
     ['crash_points', 'fault_sequences', 'histories'],
     'process crash at every evaluation and every disk operation, I/O errors, full disk and short writes at every disk operation, open errors, interrupts at every line of the append',
     'No test injects a disk error or a crash.',
     [MIN], [('append mode', MIN + ':Optimizer.minimize'), ('context manager closes the file', MIN + ':Optimizer.minimize')],
     observe=['bytes of the history file after each fault', 'exception raised by minimize'])

prop('C14', 'Each run logs its own records once, at its own level',
     'For every run, alone or concurrent with or nested in others, exactly the records at or above that optimizer\'s verbosity reach the log stream, each exactly once, in order, and independent of the levels and number of other runs, earlier or concurrent. '
     'At INFO level this contains exactly one line for the start and one per iteration, carrying the iteration number, and the reason for stopping.',
     ['schedules', 'histories', 'configurations'],
     'all interleavings of optimizers with different verbosity, reruns, nested runs',
     'Tests do not read log output except for one smoke test; duplicate or lost records need a racing or repeated logger creation.',
     [LOG, MIN], [('logger per run', LOG + ':create_logger'), ('step log', MIN + ':Optimizer.log_step')],
     observe=['text written to the log stream per thread'])

prop('C15', 'Failures of the objective surface unchanged, malformed replies are refused',
     'Any exception the objective raises, at any evaluation and of any type including interrupts, reaches the caller of minimize as the same object, and so does whatever strikes between two lines of the optimizer itself (an interrupt, a failing allocation, an exception of a signal handler); the optimizer can be used again right away. '
     'Any reply made of numbers and arrays that is not a tuple of the required length with a scalar value, a gradient vector of matching length and a square Hessian of matching size is refused with a ValueError at the evaluation that returned it, before anything is derived from it.',
     ['fault_sequences', 'crash_points', 'configurations'],
     'every exception kind and every malformation at every evaluation, for all reply formats (gradient only, Hessian, residuals)',
     'Tests check malformed replies at the first evaluation only and never raise from the objective.',
     [MIN], [('reply arity', MIN + ':FunEvaluator.__call__'), ('reply shapes', MIN + ':Funout.checkdims')],
     observe=['exception object seen by the caller', 'evaluation count'])

prop('C16', 'Quasi-Newton approximations are updated once per accepted step, correctly',
     'During a run with an iterative approximation (BFGS, DFP, Broyden class, SR1, good and bad Broyden) every accepted step applies exactly one update with the true step and the true change of gradient following the textbook formula of that scheme, so that the secant condition, symmetry and (for the Broyden class with positive curvature) positive definiteness hold where the formula promises them; undefined or curvature-violating updates leave it unchanged. '
     'The step model uses exactly that matrix, a run starts from the given initial matrix or the identity, and rejected or failed evaluations never touch it.',
     ['histories', 'fault_sequences', 'inputs'],
     'all sequences of accepted, rejected and failed steps on all problems for all schemes and initial matrices',
     'Tests compare single updates on fixed vectors; whether the run feeds the right step and gradient difference at the right time is not tested.',
     [HA, MIN], [('update formulas', HA), ('dispatch', MIN + ':Optimizer.update')],
     [('approximation', 'current matrix', HA + ':HessianApproximation')], ['HessianApproximation.get_mat', 'Optimizer.hess'])

prop('C17', 'Hybrid and structured schemes switch and update as documented',
     'HybridFixed and HybridFraction use the user Hessian until their documented trigger (radius unchanged for the configured number of iterations; fraction of iterations whose ratio lay strictly between mu and eta, once more than 25 iterations were made) fires at an accepted step and from the next accepted step on, irreversibly for the rest of the run, the inner approximation, which is updated at every accepted step from the start. '
     'The least-squares schemes (FX, SSM, TSSM, GNSBFGS) compute, at every accepted step, the matrix given by their published update from the residuals, Jacobians and step of that iteration.',
     ['histories', 'fault_sequences', 'inputs'],
     'all sequences of accepted, rejected and failed steps and radius changes, all thresholds, inner schemes and least-squares problems',
     'Tests only check that these schemes converge on two problems; the switch condition depends on the history of radius updates, which no test controls.',
     [HA, MIN], [('switching', HA + ':HybridFixed / HybridFraction / FX'), ('structured updates', HA + ':SSM / TSSM / GNSBFGS'),
                 ('counters', MIN + ':Optimizer.update_tr_radius'), ('dispatch', MIN + ':Optimizer.update')],
     observe=['HessianApproximation.get_mat after each accepted step', 'Optimizer.hess'])

prop('C18', 'Once failures stop, runs reach the optimum',
     'On well-conditioned strictly convex quadratic and linear least-squares problems with bounds, started inside the bounds, every configuration with a sound approximation reaches the constrained optimum (to a relative accuracy set by the tolerances) within a few hundred iterations, also when a finite number of evaluations failed, returned a value that was too large (with a fatol and frtol of zero) or was slow before. '
     'A run that was aborted can be continued by starting again from its last or best point, and then reaches the same optimum. '
     '(With truncated conjugate gradients and a single reflection, which may crawl along a bound, only most of the possible decrease has to be made.)',
     ['fault_sequences', 'inputs', 'configurations', 'histories'],
     'finite fault sequences placed anywhere in the run, restart from saved points, all subspace solvers, step-back strategies and sound Hessian schemes',
     'Tests check convergence on clean runs of a few problems; recovery after failed evaluations and restarts is not tested.',
     [MIN, TR, STEPS, SB, SUB, HA], [('radius shrink and regrowth', MIN + ':Optimizer.update_tr_radius'), ('step selection', TR + ':trust_region')],
     observe=['return value', 'Optimizer.x_min/fval_min'])

prop('C19', 'Every step is at least as good as its guarantee, throughout the run',
     'With the full subspace solver and no bound in the way the step attains the global minimum of the quadratic model within the trust region; the two-dimensional and conjugate-gradient solvers attain at least the decrease of the best gradient step (for the former where the model is positive definite, otherwise that of the most negative curvature direction). '
     'When the unconstrained step would hit a bound in more than one dimension, the step taken is at least as good as that step cut back, and as the gradient step cut back.',
     ['inputs', 'fault_sequences', 'histories', 'configurations'],
     'every iteration of every run on all problems, scalings, Hessian approximations and radii reached through reply faults',
     'Tests check the subproblem solver on fixed small matrices; the matrices, scalings and radii that occur along real runs (after failures, near bounds, with indefinite or non-symmetric approximations) are not covered.',
     [TR, STEPS, SB, SUB], [('subproblem solution', SUB), ('selection of the best proposal', TR + ':trust_region')],
     observe=['difference of successive evaluation points', 'Optimizer.x/grad/hess/delta_iter'])

prop('C20', 'No array is shared with the caller or the objective',
     'Arrays and options passed to the optimizer and the arrays the objective returns are never modified, and arrays handed to the objective never change after the call. '
     'The run and its results are the same when the objective overwrites or keeps its argument, reuses the arrays it returned, or when the caller changes bounds, start or initial Hessian arrays after handing them over.',
     ['schedules', 'fault_sequences', 'inputs'],
     'all runs x objective aliasing behaviours (scribble, keep, buffer reuse) x caller mutation at any evaluation',
     'Tests use objectives that return fresh arrays and never modify their inputs.',
     [MIN, HA], [('copies at the boundary', MIN + ':FunEvaluator.__call__'), ('copies of inputs', MIN + ':Optimizer.__init__ / minimize')],
     observe=['objective arguments', 'caller arrays', 'return values'])

prop('C21', 'The subproblem solver is globally optimal for every matrix',
     'For every symmetric matrix, gradient and radius the n-dimensional trust-region subproblem solver returns a point inside the radius whose model value is the global minimum up to rounding.',
     ['inputs'], 'all symmetric matrices, gradients and radii, independent of any run',
     'Tests use fixed small matrices.', [SUB], [('eigenvalue based root finding', SUB + ':solve_nd_trust_region_subproblem')],
     observe=['return value of solve_nd_trust_region_subproblem'])

prop('C22', 'Invalid options are refused at construction',
     'Every unknown option name, and every option value of a wrong type or outside its documented range, is refused with an error when the optimizer is constructed, and every documented value is accepted.',
     ['inputs', 'configurations'], 'all option names and values',
     'Tests try a few values per option.', ['fides/constants.py', MIN], [('validation', 'fides/constants.py:validate_options')],
     observe=['exception raised by the constructor'])

prop('C23', 'Stopping criteria only stop a run, they never steer it',
     'Two runs that differ only in their stopping criteria (iteration and time budget, function, step and gradient tolerances) evaluate the same points and go through the same iterates, radii and approximations until one of them stops; the one that stops first returns the iterate that the other one had at that moment. '
     'A run whose criteria are all at least as loose (same time budget) never takes longer, and a failure that ends one run ends the other one as well if it gets there.',
     ['inputs', 'configurations', 'fault_sequences', 'histories'],
     'all runs under all fault plans x all pairs of settings of the stopping criteria',
     'Tests run each problem with one setting of the criteria and never compare runs that differ in them.',
     [MIN], [('criteria after each iteration', MIN + ':Optimizer.check_convergence'), ('budgets before each iteration', MIN + ':Optimizer.check_continue')],
     observe=['points passed to the objective', 'Optimizer.x/fval/grad/hess/delta at each of them', 'return value'])

prop('C24', 'A run that was stopped can be resumed where it stopped',
     'With a user Hessian, an iterative approximation (BFGS, DFP, Broyden class, SR1, good and bad Broyden) or FX, everything that steers a run is visible: a new optimizer that is given the last iterate as start, the last radius as initial radius and the last approximation as initial matrix of a run that was stopped by its iteration budget, by an exception of the objective or by an interrupt, evaluates the points which the run would have evaluated had it not been stopped, and ends where it would have ended '
     '(up to rounding, as long as the iterate was not moved off a bound after its evaluation; the step length criterion does not apply to a first iteration).',
     ['crash_points', 'fault_sequences', 'histories', 'configurations'],
     'all runs with rejected and failing evaluations, stopped at any evaluation',
     'Tests never stop a run to continue it.',
     [MIN, TR, HA], [('state carried from one iteration to the next', MIN + ':Optimizer.update'), ('initial matrix', HA + ':HessianApproximation._init_mat')],
     observe=['points passed to the objective', 'Optimizer.x/delta/hess after the stop'])

prop('C25', 'Results do not depend on how the numbers are represented',
     'Two optimizers that are given the same problem in different spellings run alike: they evaluate the same points, go through the same iterates, radii and approximations, record the same statistics and end with the same results, flag or type of exception (up to rounding). '
     'Spellings are: bounds, start, initial matrix and the arrays the objective returns as integers or floating-point numbers of any precision that holds them exactly, in either byte order, in row- or column-major, strided, reversed or read-only arrays or array subclasses; the function value as Python or numpy scalar of any such type; the start as list or tuple; options by name or by enum member, with integer or numpy values, left out or given their documented default; the history path as string or Path. '
     'A choice of subspace solver or step-back strategy that does not exist is refused at construction in both spellings of the option name.',
     ['inputs', 'configurations', 'fault_sequences', 'histories'],
     'all runs under all fault plans x all spellings of their inputs',
     'Tests use double precision arrays and one spelling of the options almost everywhere and never compare spellings.',
     [MIN, HA, 'fides/constants.py'], [('replies of the objective', MIN + ':FunEvaluator.__call__'), ('bounds and options', MIN + ':Optimizer.__init__'), ('initial matrix', HA + ':HessianApproximation._init_mat'), ('option values', MIN + ':Optimizer.get_option')],
     observe=['points passed to the objective', 'Optimizer.x/fval/grad/hess/delta at each of them', 'return value', 'Optimizer.history', 'exceptions'])

prop('C26', 'The printed progress table and messages are true',
     'At INFO level the line of each iteration states, to the printed digits, what happened in it: the value held afterwards, the difference to the value before, the trust-region ratio, the radius that was used, the gradient norm at the point the step started from, the length of the whole step, and whether it was accepted; the first line states value, gradient norm and radius of the start. This includes failed and rejected evaluations and later runs of one optimizer. '
     'The reason given for stopping is that of the exit flag, with the values that were compared; errors about non-finite replies name the iteration and the entries.',
     ['inputs', 'configurations', 'fault_sequences', 'histories'],
     'all runs with failing and rejected evaluations, at all verbosity levels that print the table',
     'No test reads the log.',
     [MIN], [('table line', MIN + ':Optimizer.log_step'), ('first line', MIN + ':Optimizer.log_step_initial'), ('reason for stopping', MIN + ':Optimizer.check_convergence'), ('errors', MIN + ':Optimizer.check_finite')],
     observe=['text written to the log stream', 'text of exceptions'])

prop('C27', 'Results do not depend on coordinates, units or offsets',
     'A problem written in other coordinates is solved alike: with its variables (and bounds, start, initial matrix) in another order or mirrored, its residuals in another order or with other signs, a constant added to the function value (relative tolerances zero), '
     'the function value (user Hessian or a given initial matrix, not truncated CG) or, without bounds or with two bounds for each variable, also the variables and the initial radius (in the units of scaled steps) in units that differ by a power of two, and absolute tolerances in the same units, a run proposes the same steps, accepts the same ones, changes the radius alike, stops at the same iteration with the same flag and returns the same points in those coordinates, up to what rounding can decide.',
     ['inputs', 'configurations', 'fault_sequences', 'histories'],
     'all runs under all fault plans x all permutations, reflections, offsets and power-of-two units',
     'Tests never solve one problem in two coordinate systems.',
     [MIN, TR, STEPS, SB, SUB, HA], [('scaling by distance to bounds', MIN + ':Optimizer.get_affine_scaling'), ('choice of steps', TR + ':trust_region'), ('reflection and truncation', SB)],
     observe=['points passed to the objective', 'Optimizer.x/fval/delta at each of them', 'return value', 'exit flag'])

prop('C28', 'Runs leave the process as they found it',
     'Constructing optimizers and running them, however the runs end (result, failing or aborting objective, failing disk, broken log stream, interrupt outside the statements that put something back), changes nothing that belongs to everybody in the process, and the objective is called in the very surroundings the caller chose: '
     'numpy error handling and print options, the random generators, warning filters and warning display, the root logger, the loggers of others and the settings of the logging module, exception and signal handlers, standard streams, recursion limit, trace functions, threads, environment, working directory, import path, garbage collector. '
     'Files are closed when a run ends without a disk error, and nothing but the history file is left on disk. Each run registers a logger of its own; apart from it nothing is kept: once the caller drops optimizer, Hessian approximation, objective and results, they are gone.',
     ['inputs', 'configurations', 'fault_sequences', 'histories'],
     'all runs under all fault plans x all settings of the surrounding process',
     'Tests never look at what the process is like during and after a run, and run with the default settings.',
     [MIN, 'fides/logging.py'], [('calls of the objective', MIN + ':FunEvaluator.__call__'), ('history file', MIN + ':Optimizer.minimize'), ('logger per run', 'fides/logging.py:create_logger')],
     observe=['process-wide settings in every call of the objective, before and after every run', 'open files', 'lifetime of objects'])

prop('C29', 'Copies and pickles are as good as the original',
     'An optimizer or Hessian approximation can be deep-copied and pickled (if the objective can) before its first run, between runs and inside a call of the objective. The copy is equal to the original at that moment, settings and results included; runs of the copy evaluate the same points and end with the same results and statistics as the original would; and whatever is done to the copy (runs with other options, bounds or objectives) does not change what the original does, and vice versa.',
     ['inputs', 'configurations', 'fault_sequences', 'histories', 'crash_points'],
     'all histories of runs under all fault plans x all moments and ways of copying',
     'Tests never copy or pickle an optimizer or a Hessian approximation.',
     [MIN, HA], [('state of an optimizer', MIN + ':Optimizer.__init__'), ('start of a run', MIN + ':Optimizer._reset'), ('state of an approximation', HA + ':HessianApproximation')],
     observe=['points passed to the objective', 'attributes of optimizer and copy', 'return value', 'Optimizer.history'])

prop('C30', 'Settings that mean the same give the same run',
     'Runs with settings of the same meaning evaluate the same points, go through the same iterates, radii and approximations, and end with the same results, flag or type of exception (up to rounding), under the same failures: '
     'BFGS and DFP and the members of the Broyden class with phi 0 and 1 (also as inner scheme); arguments of Hessian schemes left out or given their documented defaults; no initial matrix or the identity; the initial matrix by "hess" or by value; a user Hessian and a hybrid scheme that never switches; a least-squares problem given by value, gradient and Gauss-Newton Hessian or by residuals with an FX scheme that never switches; residuals with entries that are always zero; any step-back strategy in one variable or without bounds, and any subspace solver in one variable (where the gradient does not vanish); any latency of the objective when there is no time budget; extra arguments of the objective or none.',
     ['inputs', 'configurations', 'fault_sequences', 'histories'],
     'all runs under all fault plans x all pairs of settings of the same meaning',
     'Tests run settings separately and never compare the points evaluated.',
     [MIN, HA, TR], [('schemes and their defaults', HA), ('initial matrix', MIN + ':Optimizer.minimize'), ('least squares', MIN + ':FunEvaluator.__call__'), ('step-back', TR + ':trust_region')],
     observe=['points passed to the objective', 'Optimizer.x/fval/grad/hess/delta at each of them', 'return value', 'Optimizer.history', 'exceptions'])

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
