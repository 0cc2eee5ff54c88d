#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    assert len(title) <= 80, title
    P.append(d)
PIE='package/inference/pie/'
GR='package/inference/grid/'
UT='package/inference/utils/'
NOASSERT='The existing PIE tests run one scripted session and mostly print; '

prop('C01','Every parameter is in exactly one status list, in order of entry',
 'After any sequence of fix, assign, vary, linear/log step, range and listener-free status operations on an inference object, every parameter that has been used appears exactly once in exactly one of the fixed, stepping and varying lists, in the list that matches the last successful status-changing operation on it. Within a list, parameters are ordered by when they last entered that status, and repeating a status operation on a parameter already in that status keeps its place. Parameters of one inference object never appear in, or change, the lists of another object of the same class.',
 ['histories','configurations'],'All finite histories of status operations (successful and rejected) over 1-4 parameters and 1-3 inference objects.',
 NOASSERT+'they follow one history of status changes over two parameters, never re-issue a status or leave and re-enter a list.',
 [PIE+'inference_base.py',PIE+'param.py',PIE+'realparam.py'],
 [('status-change callback maintaining the three lists',PIE+'inference_base.py:_on_param_status_change'),('status setter broadcasting to listeners',PIE+'param.py:ScalarParamHandler._set_status')],
 [('fixed/stepping/varying lists','partition of parameters by status, ordered','inference object')],
 ['fixed_params','varying_params','stepping_params','<param>.status'])
prop('C02','Values obey the allowed range and rejected operations change nothing',
 'A fix, assignment, varying start value, set-value or step grid is accepted if and only if every value it installs lies in the range in force for that parameter (both ends included; reversed range arguments are normalised), and an accepted one installs exactly that value. An operation that is rejected (out of range, wrong status, missing range, scale or start, malformed range, invalid log grid, stepping past the end) raises and leaves the value, range, status, step grid and lists of every parameter as they were, apart from the documented reset of a traversal that has run past its last grid point.',
 ['histories','inputs'],'All histories of parameter operations with values below, at, between and above the bounds, positional-pair and sequence ranges, and every status.',
 NOASSERT+'no test drives an operation into its error path and then inspects the parameter.',
 [PIE+'realparam.py',PIE+'param.py',PIE+'inference_base.py'],
 [('range checks in set_value/fix/vary/linstep/logstep',PIE+'realparam.py:RealParamHandler'),('range normalisation',PIE+'realparam.py:RealParamHandler.range')],
 [('value, lo, hi, delta, status','state of a parameter','parameter handler')],['<param> value','<param>.lo/.hi/.delta/.status'])
prop('C03','Grid stepping visits every grid point once, one step at a time',
 'From a reset, repeatedly stepping an inference with stepping parameters visits every combination of step indices exactly once, starting at all-zero, each move changing exactly one parameter by one step (first-declared parameter fastest, reversing direction at its ends), and then raises the stop signal and returns every stepping parameter to its first step. At step index i of n a parameter holds lo + i(hi-lo)/(n-1) for linear steps or lo(hi/lo)^(i/(n-1)) for logarithmic steps, exactly lo and hi at the two ends, whether the index was reached going up or down. Declaring, adjusting or releasing a stepping parameter restarts the traversal at all-zero, in the forward direction, for all stepping parameters.',
 ['histories','inputs'],'All step shapes (1-4 stepping parameters, 2+ steps each, ascending/descending/negative ranges, linear and log) and all interleavings of stepping with status changes and resets.',
 NOASSERT+'they traverse one 2-D grid and never check indices, values or the state after the end.',
 [PIE+'inference_base.py',PIE+'realparam.py'],
 [('zig-zag traversal',PIE+'inference_base.py:Inference.next_step'),('per-parameter step arithmetic',PIE+'realparam.py:next_step/prev_step/first_step/last_step'),('reset',PIE+'inference_base.py:Inference.reset_steps')],
 [('step index and direction per stepping parameter','position in the traversal','inference object / parameter handler')],['step_nums()','step_shape()','<param> value'])
prop('C04','Grid results hold the score or profile optimum of their own grid point',
 'Evaluating an inference with stepping parameters returns a grid whose shape and axes describe the stepping parameters in order and whose entry at each index is the score of the model with the stepping parameters at that index (and all fixed parameters unchanged), or the optimum over the varying parameters there if some vary. With varying parameters the reported best value and best index are the extreme entry of the returned grid in the direction of the fit statistic and, if requested, the companion grid holds the optimising parameter values for each index, i.e. scoring the model there reproduces the entry. Afterwards the stepping parameters are back at their first step and every entry has been filled.',
 ['inputs','configurations'],'All step shapes and types, mixes of fixed/stepping/varying parameters, data sets, and the three inference methods (chi-square, maximum likelihood, Bayesian).',
 'The existing test runs two grids and prints the shape; no entry is compared with the score of its grid point.',
 [PIE+'inference_base.py',PIE+'containers.py',PIE+'chisqr.py',PIE+'maxlike.py',PIE+'bayes.py',PIE+'gaussian.py'],
 [('grid loop',PIE+'inference_base.py:Inference.do_grid'),('result containers',PIE+'containers.py:ScalarGrid, VectorGrid')],None,['fit()/do_grid() return values'])
prop('C05','Model hooks always see current parameter values before they are used',
 'Every change of a parameter value calls the model change hook after the new value is readable through the model, naming the parameter that changed; every evaluation of predictions (score, fit, grid, simulation) calls the model use hook before the first model evaluation and after the last parameter change, so a model that rebuilds derived state in the use hook never computes with stale state. This holds for each inference object separately: hooks of one object are never triggered by operations on another. Additional listeners registered on a parameter are notified of every later change exactly as long as they are registered.',
 ['histories','configurations'],'All histories of parameter changes, evaluations, fits, grids and simulations, with vectorised and scalar models and 1-3 predictors.',
 NOASSERT+'the hooks in the test models only print.',
 [PIE+'signalmodel.py',PIE+'param.py',PIE+'gaussian.py'],
 [('value-change broadcast',PIE+'param.py:ScalarParamHandler._set_value'),('use hook before predictions',PIE+'gaussian.py:SampledGaussianHandler.get_prdxns'),('buffers',PIE+'signalmodel.py:_on_param_value_change/_on_use')],None,['user overrides on_param_change/on_use/signal/signals'])
prop('C06','Simulating in one inference never alters the original or others data',
 'Simulating data through one inference object (whole set, single datum, additional data, or with replaced locations/uncertainties) changes only that object: the original data given to the predictor, the arrays the caller passed in, and every other object of the class keep their values, and later scores of those objects are unchanged. After simulation the object has consistent data: as many values as locations and uncertainties, matching the reported count, with each value being the prediction at its own location plus noise of its own uncertainty. Data given as three arrays, as one table or as a list of rows are equivalent.',
 ['histories','inputs'],'All histories of simulation and scoring operations over 1-3 objects of one class and several predictors, scalar and vector locations.',
 'The existing tests simulate once in one object and check nothing.',
 [PIE+'gaussian.py',PIE+'predictor.py'],
 [('copy-on-change of data',PIE+'gaussian.py:localize_data/changing_data'),('per-object handler',PIE+'predictor.py:Predictor.__get__')],
 [('locns/vals/sigmas/ndata','working data of one object','predictor handler')],['<predictor>.locns/.vals/.sigmas/.ndata','score()'])
prop('C07','Inferences discover exactly the declared parameters and predictors',
 'For every way of composing a model class, a predictor-set class and an inference method, an inference object reports exactly the parameters declared in its model followed by those declared in its predictor set, each once, in declaration order, and likewise its predictors; a name declared in both is rejected. Defining further classes (including subclasses that add parameters) never changes what previously defined classes report. The reported default values and documentation are those of the declaration.',
 ['programs'],'All class definitions with 0-6 parameters and 1-3 predictors, any declaration order, spacing and interleaving with other class attributes and methods, subclassing included.',
 'The tests define two fixed models with two parameters each.',
 [PIE+'autoname.py',PIE+'param.py',PIE+'predictor.py',PIE+'inference_base.py'],
 [('descriptor naming',PIE+'autoname.py:metaAutoName'),('name lists',PIE+'param.py:Param._report_name, predictor.py:Predictor._report_name'),('ordering',PIE+'inference_base.py:Inference.__init__')],None,['inference.params','inference.predictors','get_params()'])
prop('C08','Parameter snapshots are faithful, frozen, and restorable',
 'A snapshot of the parameters lists every parameter with its value, name and documentation at the time it was taken and is never changed by later operations on the inference. Restoring a snapshot gives every parameter its recorded value while keeping each parameter fixed or varying as it is now; if any parameter is stepping, or a recorded value is not allowed, restoring raises and changes nothing. Snapshot, arbitrary changes of value, restore therefore reproduces the values and the score exactly.',
 ['histories'],'All histories of parameter operations interleaved with taking and restoring snapshots on 1-2 objects.',
 'The tests take one snapshot and print it.',
 [PIE+'inference_base.py',PIE+'containers.py',PIE+'realparam.py'],
 [('snapshot',PIE+'inference_base.py:get_params, containers.py:ParamValues.store'),('restore',PIE+'inference_base.py:set_params')],None,['get_params()','set_params()'])
prop('C09','Overwriting a file never loses either of its last two versions',
 'Opening or saving a named file for writing through the backup facilities turns an existing version into the first backup and an existing first backup into the second, discarding only what was the second backup, and touches no other file. If the process dies or a file operation fails at any point, the version and the first backup that existed before the call are each still present in full under one of the three names. The opened file starts empty, in the requested mode or as the given opener opened it with its arguments, for any file name and directory and any history of saves.',
 ['histories','crash_points','fault_sequences'],'All pre-existing subsets of the three generations, all histories of up to many saves, and a crash or I/O failure at every file operation.',
 'One self-test run saves twice in a fresh directory and inspects nothing.',
 [UT+'ioutils.py',UT+'rng.py'],
 [('rename order in backup',UT+'ioutils.py:backup'),('safe_open',UT+'ioutils.py:safe_open'),('stores saving through it',UT+'ioutils.py:ArrayStore.save, AttrStore.save')],
 [('name, name%, name%%','current version and two backups','file system')],['directory contents'])
prop('C10','Persistent stores keep every attribute across save and reopen',
 'A reopened store offers exactly the names that were in the archive it was opened from or assigned before the save, each with the last value assigned (a reassigned value supersedes the archived one, untouched archived values survive unchanged even if never accessed). This holds for any interleaving of opening, reading, assigning, saving to the same or another name and listing, with or without the file suffix in the name; nothing assigned reaches the file before a save, and one store object never affects another. Values that cannot be stored are rejected and missing names raise an attribute error.',
 ['histories'],'All histories of store operations on up to three files and three live store objects, for the array store and the general store.',
 'One self-test writes, reopens and prints; superseding, untouched attributes and contents are unchecked.',
 [UT+'ioutils.py'],
 [('lazy load/merge',UT+'ioutils.py:ArrayStore, AttrStore')],
 [('archived, pulled and new attributes','contents of a store','store object')],['store attributes','contents()','file contents'])
prop('C11','Restoring a saved random state reproduces the random stream exactly',
 'After saving the random state and later restoring it, the generator produces exactly the same stream of uniform, normal and integer draws as it did after the save, whatever was drawn before the save or in between, and saving does not itself disturb the stream. Each save moves the previous state file to the first numbered backup and that one to the second, so that the last three states can be restored by name. Restoring when no state file exists leaves the stream undisturbed and creates one from which it can be reproduced.',
 ['histories'],'All histories of draws (including an odd number of normal draws), saves, restores of any generation.',
 'No test covers the random state.',
 [UT+'rng.py'],[('save/restore',UT+'rng.py:save_rng, restore_rng')],[('state file generations','saved RNG states','file system')],['numpy.random draws'])
prop('C12','The list of maxima is always the top entries seen, best first',
 'After any sequence of updates a bounded list of labelled maxima holds exactly the largest values seen, at most the configured number, in non-increasing order with each value paired with its own label, earlier arrivals first among equal values. With a dynamic range configured (or imposed later) entries further below the largest value than the logarithm of that range are dropped, and only those.',
 ['histories','inputs'],'All update sequences with ties and any order, every list bound including none, with and without a dynamic range.',
 'The grid tests print a maxima list for one function.',
 [GR+'grid1d.py'],[('bisection insert, trimming',GR+'grid1d.py:LabeledMaxList.update'),('range limiting',GR+'grid1d.py:LabeledMaxList.limitRange')],[('list','labelled maxima','list object')],['indexing, len()'])
prop('C13','Refined intervals always tile the base and never lose resolution',
 'After any sequence of refinements the interval list starts at the lower and ends at the upper base boundary, consecutive intervals meet exactly, no interval is empty, and sampling is nowhere coarser than before the refinement or than the base. A refinement leaves its whole range (cut to the base) sampled at least as densely as requested; a range much narrower than the existing step is widened by up to one existing step at each side and gets at least the requested number of points. Sampling away from the range is unchanged, a refinement inside one interval and coarser than it leaves all sampling unchanged, and a range outside the base is rejected without effect. The point count, the interval containing a location and the interval and offset of a point number are consistent with the intervals.',
 ['histories','inputs'],'All sequences of refinement ranges (nested, overlapping, spanning several intervals, touching boundaries, outside), base sizes, orientation, linear and (between positive bounds) logarithmic spacing.',
 'The test runs one fixed sequence of updates and prints the list.',
 [GR+'grid1d.py'],[('interval surgery',GR+'grid1d.py:RefinedIntervalList1D.update, merge'),('lookup',GR+'grid1d.py:locate, nlocate')],[('interval list, point counts','tiling of the base','interval list')],['ilist','npts','locate','nlocate'])
prop('C14','Refined grid points, values and integrals are mutually consistent',
 'A self-refining grid enumerates exactly its reported number of points with strictly increasing abscissas from the lower to the upper bound, each value being the function at that abscissa and each width the distance to the next point, before and after refinement. Its trapezoid integral, log-trapezoid integral and moments equal the trapezoid rule over exactly those points, for linear and logarithmic spacing and for each component of vector-valued functions. The recorded peaks are exactly the local maxima of the tabulated values (a rise followed by a fall or a flat step, or a fall or rise at an end) admitted by the list of maxima, with the parameters of the Gaussian through the peak and its neighbours. Refinement leaves no gap wider than the base step, samples the requested range around each recorded peak at the requested density, and a linear function keeps its exact integral. Reading points, integrals or moments changes nothing, a second evaluation replaces the first completely, and a subgrid is exactly that part of the grid. Asking for a point beyond the end, a component of a scalar function, or values before the evaluation raises an error.',
 ['inputs','histories'],'All grids (bounds, size, spacing, ranking), table, Gaussian-mixture and linear functions with any peak structure, scalar or vector-valued,, and refinement parameters.',
 'Tests print integrals for a few functions.',
 [GR+'grid1d.py'],[('evaluation',GR+'grid1d.py:BasicGrid1D.stepfunc/vecfunc/point'),('quadrature',GR+'grid1d.py:trapzd/logtrapzd/logtrapzd_mom'),('refinement',GR+'grid1d.py:Grid1D.refine')],None,['len()','point()','trapzd()'])
prop('C15','HPD regions contain the requested probability and grow with it',
 'For any density on a 1-D or 2-D grid with linear or logarithmic steps (of p(log x) on logarithmic ones) the reported normalisation equals the trapezoid integral, the fraction above a level is that of the linearly interpolated density, and the critical level of a probability is one at which that fraction is the requested probability within the tolerance on the level (or jumps across it at a plateau). The boundaries are exactly the places where the density crosses that level, located by linear interpolation of its logarithm, in order and with no crossing omitted; more crossings than can be reported raise an error. A larger probability gives a lower or equal critical level. Levels do not depend on adding a constant to the log density, zero density is allowed, the versions taking a table and a function agree on the same grid, and every result is recorded in the history lists of the object. The helpers relating probability, number of standard deviations and relative density of an n-dimensional normal are mutually consistent.',
 ['inputs'],'All densities (multi-modal, flat, monotone, peaks at the ends) on small grids, all probability levels.',
 'Tests print HPD bounds for a few standard densities.',
 [GR+'hpd.py',GR+'hpdgrid.py',GR+'_gridquad.f'],[('level search',GR+'hpd.py, hpdgrid.py'),('quadrature above a threshold',GR+'_gridquad.f')],None,['bounds','critical levels','norm'])
prop('C16','Step generators yield exactly n points from first to last value',
 'A linear or logarithmic stepper yields exactly n values, the first exactly the lower and the last exactly the upper argument, with equal differences (equal ratios for logarithmic steps), strictly monotone in the direction of the arguments; the enumerating variants yield the same values paired with 0..n-1. Generators are independent of each other when interleaved.',
 ['inputs','schedules'],'All n >= 2, ascending and descending arguments, all interleavings of several live generators.',
 'The steppers have no test.',
 [UT+'numutils.py'],[('steppers',UT+'numutils.py:lin_stepper, log_stepper, enum variants')],None,['generator values'])
prop('C17','Log-domain running sums equal the log of the true sum and moments',
 'After any sequence of additions (given as logs) and zero entries, in any order, the running log-summer reports the number of entries, and the log of the sum, of the mean and, if enabled, of the sum of squares and standard deviation of the entered values, to floating accuracy, regardless of their magnitude; a summer started (without second moment) from a previous count and log sum continues it. With no nonzero entry it refuses to report.',
 ['histories','inputs'],'All addition orders and magnitudes, including widely different ones and zeros.',
 'The log summer has no test.',
 [UT+'numutils.py'],[('accumulation',UT+'numutils.py:LogSummer')],[('n, logSum, sigSum','running sums','summer object')],['status()'])
prop('C18','Bracketing returns a true sign change or reports failure',
 'The zero bracketing search, given any function and initial interval, either returns an interval that contains the initial one and at whose ends the function has opposite signs, or raises after the allowed number of expansions; it never raises while a sign change is in hand, and never returns without one. Supplied initial values and extra arguments give the same result as evaluating the function, and a null interval is rejected.',
 ['inputs'],'All sign/magnitude patterns of function values over the expansion sequence, every limit on the number of tries.',
 'The bracketing search has no test.',
 [UT+'numutils.py'],[('expansion loop',UT+'numutils.py:zbracket')],None,['return value / exception'])
prop('C19','Minimisers return a point they evaluated that is never worse than start',
 'Minimum bracketing returns three ordered points with true function values whose middle is no higher than both ends; one-dimensional, line and multi-dimensional minimisation return a point and exactly the function value there, never above the value at the starting point, and for the one-dimensional search within the bracket. Exceeding the iteration limit raises an error instead of returning a wrong answer, and the starting point, directions and bracket are not modified. Whenever a search reports success on a convex quadratic the minimum is located within tolerance.',
 ['inputs'],'All functions with a minimum (smooth, non-smooth, multi-modal, stair-like), starting points and directions.',
 'Self tests run on one function and print.',
 [UT+'nrmin.py'],[('bracketing',UT+'nrmin.py:MinBracket'),('Brent',UT+'nrmin.py:brent'),('Powell',UT+'nrmin.py:linmin, powell')],None,['return values','function evaluations'])
prop('C20','On/off count inferences are exact and independent of query history',
 'For every on/off count data set the derived quantities (odds coefficients, signal marginal density, signal likelihood relative to the advertised offset, and signal-count probabilities) equal their closed-form definitions, the signal-count probabilities are non-negative and sum to one, and vector evaluation equals pointwise evaluation. The answers do not depend on which queries were made before, in what order, nor on modifying returned arrays, and objects for different data never influence each other.',
 ['inputs','histories'],'All small count pairs and exposure pairs, and all orders and repetitions of queries on 1-2 objects.',
 'Tests/examples evaluate a few data sets and print or plot.',
 ['package/inference/count/onoff.py','package/inference/count/_cbmlike.f'],[('lazily cached coefficients',  'package/inference/count/onoff.py')],[('cached coefficients','lazily computed','analysis object')],['siglml, sigll, pnsig, ...'])
prop('C21','Curvature tools are exact for quadratics and leave inputs untouched',
 'For every log likelihood the step finder returns, for each parameter, a nonzero step whose sole application changes the log likelihood from its maximum by the requested amount within the requested tolerance, or raises; the information matrix estimate is symmetric and equals the exact second-derivative matrix for quadratic log likelihoods. The caller arrays are never modified, whether the call succeeds or fails, and every function evaluation receives a vector that differs from the mode only in the coordinates being stepped.',
 ['inputs','fault_sequences'],'All quadratic and quartic log likelihoods in 1-4 dimensions, all starting guesses, and likelihoods that make the search fail or raise.',
 'One test computes one matrix and prints.',
 ['package/inference/deriv/obsinfo.py','package/inference/deriv/_obsinfo.f'],[('step search','package/inference/deriv/_obsinfo.f'),('wrapper','package/inference/deriv/obsinfo.py')],None,['return values','likelihood calls'])
prop('C22','Cubature rules are exact to their degree on every rectangle',
 'Every two-dimensional cubature rule (square, rectangle, plane with exp(-r^2) weight, and normal density with any location and scale) integrates every monomial up to its stated degree exactly (to rounding), so that the integrals over the pieces of any subdivision of a rectangle add up to that of the whole. The integral of a function is a sum with positive weights over exactly the advertised number of distinct points, each evaluated once; points of the square and rectangle rules lie strictly inside (the degree 1 rule: on the corners). Using a rule, or rules side by side, never changes the rule tables or later results.',
 ['inputs'],'All rules, all monomials up to the degree of each rule, all rectangles and rectangle subdivisions.',
 'Tests integrate a few test functions.',
 ['package/inference/integrate/cub2d.py','package/inference/integrate/_cub2d_auto.py'],[('rule tables','package/inference/integrate/_cub2d_auto.py'),('mapping','package/inference/integrate/cub2d.py')],None,['nodes, weights, quad results'])
prop('C23','Adaptive integration respects region, budget and reports every failure',
 'Adaptive integration evaluates the integrand only inside the given region and within the evaluation budget (the vector integrator never exceeds maxpts; the scalar one stops subdividing at maxfac times its minimum, so that it may finish the subdivision it is in), reports the number of evaluations it actually made, and returns a result only if it claims the requested accuracy; otherwise, or for an invalid request, it raises, and an exception of the integrand is passed on. The vector integrator applies its rule to the region and then to pairs of halves of boxes in hand, so its boxes always tile the region. For polynomials of degree up to 6 the result is exact to rounding, for smooth functions the parts add up to the whole within the tolerance, and no call leaves state that changes the result of a later call.',
 ['inputs','histories'],'All low-degree polynomial integrands, regions in 2-4 dimensions, tolerances and budgets, and sequences of calls.',
 'No reliable test covers it.',
 ['package/inference/integrate/adapt.py','package/inference/integrate/adapt_vec.py','package/inference/integrate/adapt_py.f','package/inference/integrate/dcuhre_py.f'],[('wrapper checks','package/inference/integrate/adapt.py')],None,['return values, exceptions, integrand calls'])
prop('C24','A fit never worsens the score and leaves the model at its optimum',
 'Optimising the varying parameters returns parameter values within their ranges (in declaration-of-varying order) together with the score of the model at exactly those values, which is at least as good as the score before the fit in the direction of the fit statistic, and leaves the inference set to those values with fixed parameters, statuses and ranges unchanged. With the bounds mapped away no evaluation ever leaves the allowed ranges. For models linear in the parameters the returned score agrees with that of the exact least-squares solution within tolerance when the solution is far from the bounds.',
 ['inputs','configurations','histories'],'All linear data sets and starting points, any subset of varying parameters, mapped and unmapped bounds, repeated fits, the three methods.',
 'The tests fit two models from one starting point and print the result.',
 [PIE+'inference_base.py',UT+'nrmin.py'],[('optimiser driver',PIE+'inference_base.py:Inference.optimize, _score'),('Powell',UT+'nrmin.py:powell')],None,['fit() result','parameter values','score()'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
