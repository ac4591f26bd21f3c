PROPS = []
NA = {}


def P(id, title, statement, forall, why, files, mech, note, over=('inputs',), **k):
    PROPS.append(dict(id=id, title=title, statement=statement, forall=forall, why=why, files=files, mech=mech, note=note,
                      over=list(over), **k))


P('M01', 'Interpolation models reproduce the sampled values',
  'A model built from a poised sample set takes, at every point of the set, exactly the function value recorded for that '
  'point, for the objective and for every constraint, whichever model kind is used and with or without shifting and scaling. '
  'Building it leaves the sample set unchanged.',
  'all poised sample sets (n<=2 symbolic up to a full quadratic, n=3 linear; fixed geometries n<=3 for every model kind) and '
  'all recorded values in a box',
  'unit tests compare one or two hard-coded point sets with stored digits; the guarantee is about every geometry and every value',
  ['bcdfo_build_QR_of_Y.py', 'bcdfo_computeP.py', 'bcdfo_evalZ.py', 'bcdfo_evalP.py'],
  [('factorisation of the basis matrix', 'bcdfo_build_QR_of_Y.py'), ('coefficients', 'bcdfo_computeP.py'),
   ('basis matrix', 'bcdfo_evalZ.py')],
  'for all values within the stated bounds over exact reals; QR and linear solves are contracts (exact factorisation), '
  'counterexamples replayed in float64')
P('M02', 'Model derivatives are the exact derivatives of the model value',
  'For every coefficient vector (of any admissible length), base point, scaling and evaluation point, the gradient and Hessian '
  'reported for a model are the exact first and second derivatives of the polynomial whose value is reported, and that value is '
  'the polynomial in the documented basis. None of the arguments is modified.',
  'all coefficients, points, base points in [-10,10], scalings in [0.1,10], n<=4 (thorough 5), every coefficient count',
  'the index arithmetic over cross terms depends on dimension and coefficient count; tests sample n=2 with one length',
  ['bcdfo_evalP.py', 'bcdfo_gradP.py', 'bcdfo_hessP.py', 'bcdfo_evalZ.py'],
  [('gradient', 'bcdfo_gradP.py'), ('Hessian', 'bcdfo_hessP.py'), ('value', 'bcdfo_evalP.py')],
  'polynomial identities decided by the solver for all reals in the bounds')
P('M03', 'Lagrange polynomials are 1 at their own sample point and 0 at the others',
  'For every poised sample set, the j-th Lagrange polynomial equals 1 at the j-th point and 0 at every other point, the routine '
  'that evaluates several Lagrange polynomials at a point agrees with the polynomials themselves for any requested subset, and '
  'the interpolation model is the combination of Lagrange polynomials weighted by the recorded values.',
  'all poised sample sets within the size bounds of the model property, every model kind, all evaluation points in a box',
  'tests use a single set per kind; the mixed kinds were broken without any test noticing',
  ['bcdfo_computeLj.py', 'bcdfo_evalL.py', 'bcdfo_computeP.py'],
  [('coefficients of one polynomial', 'bcdfo_computeLj.py'), ('values of several polynomials', 'bcdfo_evalL.py')],
  'for all values within the stated bounds over exact reals; QR and linear solves are contracts')
P('M04', 'Sample-set updates keep points, values and indices aligned',
  'Exchanging two sample points, appending a point, replacing a point at a given position, or letting the algorithm choose which '
  'far or poorly placed point a new point replaces, changes exactly the columns concerned: every other point, index, objective value '
  'and constraint value stays with its point, the factorisation returned belongs to the new set, an exchange with position 0 makes '
  'that point the base of the set, and the chosen replacement is an admissible one that the distance-weighted Lagrange criterion '
  'does not rank below another admissible candidate.',
  'all sets up to a full quadratic set for n<=2 (thorough 3), every pair of positions, any values',
  'a misaligned column only shows up as slow or wrong convergence many iterations later; tests check one hand-made set',
  ['sqpdfo_swap_in_Y.py', 'bcdfo_augment_Y.py', 'bcdfo_replace_in_Y.py', 'bcdfo_include_in_Y.py'],
  [('exchange', 'sqpdfo_swap_in_Y.py'), ('append', 'bcdfo_augment_Y.py'), ('replace', 'bcdfo_replace_in_Y.py'),
   ('choose and replace', 'bcdfo_include_in_Y.py')],
  'for all values within the stated bounds; the factorisation is recorded by a stand-in, its correctness is M01', over=('inputs', 'histories'))
P('M05', 'Geometry improvement keeps the base and never worsens the sample set',
  'Geometry repair never moves or replaces the base point, replaces every point lying farther than the allowed multiple of the radius, '
  'puts every replacement inside the current radius of the base, keeps points that need no replacement, stops only when no '
  'improvement above the threshold is left, and reports the replaced positions, the factorisation, the set radius and the poisedness '
  'that belong to the set it returns. The improving point for a Lagrange polynomial is the better of a maximisation and a minimisation '
  'of that polynomial and the reported improvement is its absolute value there; the reported poisedness is the largest of them.',
  'all sets up to 4 points for n<=2, arbitrary radii and thresholds, arbitrary Lagrange coefficients for n<=3',
  'repair acts on rare geometries: tests reach one branch of it; a wrong sign or index only degrades the geometry silently',
  ['bcdfo_repair_Y.py', 'bcdfo_find_new_yj.py', 'bcdfo_poisedness_Y.py'],
  [('repair loop', 'bcdfo_repair_Y.py'), ('improving point', 'bcdfo_find_new_yj.py'), ('poisedness', 'bcdfo_poisedness_Y.py')],
  'for all values within the stated bounds; the inner trust-region solver is a contract (step in the radius with its true value)',
  over=('inputs', 'histories'))
P('S01', 'Truncated conjugate gradients stay in the trust region and report truly',
  'For every symmetric matrix, right-hand side, radius, tolerance and iteration limit, the step of the truncated conjugate-gradient '
  'solver has length at most the radius, never makes the quadratic larger than at zero, and its flag is truthful: flag 0 means the '
  'residual is within the tolerance, flags 1 and 2 mean the step lies on the boundary, flag -1 means the iteration limit was used up. '
  'In one dimension the answer is the exact constrained minimiser. Arguments are not modified.',
  'n=1 any data; n=2 any right-hand side with symbolic diagonal or a family of concrete definite, indefinite and singular matrices; iteration limits 0..3',
  'the interesting branches (negative curvature, boundary crossing at a late iteration, singular matrices) need specific data',
  ['sqpdfo_truncated_cg.py'], [('conjugate-gradient loop', 'sqpdfo_truncated_cg.py')],
  'for all values within the stated bounds over exact reals; floating-point rounding is outside')
P('S02', 'Quasi-Newton matrix: secant equation, symmetry, definiteness, safe refusal',
  'With hess_approx "bfgs", an accepted update maps the step to the (damped) change of the Lagrangian gradient, keeps the matrix '
  'symmetric and keeps a positive definite matrix positive definite; the damping leaves the gradient change alone when the curvature '
  'condition already holds and otherwise mixes it just enough to restore the condition; a null step or lost curvature leaves the '
  'matrix unchanged. The Hessian update of the algorithm uses the step and the gradient difference of the Lagrangian, stores the '
  'derivatives of the new point, and restarts from the identity only when the restart period says so.',
  'n=1,2 any symmetric or positive definite matrix, any gradient change and step; n=3 with concrete matrices; first and later updates',
  'definiteness and the secant equation are statements over all pairs; the existing tests compare two stored matrices',
  ['sqpdfo_bfgs_update.py', 'sqpdfo_computeHessian.py'], [('update and damping', 'sqpdfo_bfgs_update.py'),
                                                        ('what the update is fed', 'sqpdfo_computeHessian.py')],
  'for all values within the stated bounds over exact reals', over=('inputs', 'histories'))
P('S03', 'Multiplier estimates have the right signs and come from the right system',
  'For every iterate between its bounds, the multiplier estimate has one entry per variable and per constraint; the entry of a '
  'variable not at a bound (or without bounds) is zero, the entry is not positive at an active lower bound and not negative at an '
  'active upper bound, constraint multipliers are free, and the free multipliers are the answer of a bounded least-squares problem '
  'whose residual is exactly the gradient of the Lagrangian along them. Gradients, Jacobian and the caller\'s status are not changed.',
  'n<=3, up to 2 equalities and 2 slacks, each bound present or infinite, any gradients and Jacobian',
  'activity patterns multiply; tests sample one',
  ['sqpdfo_compute_multiplier.py'], [('bounds on the multipliers and assembly', 'sqpdfo_compute_multiplier.py')],
  'for all values within the stated bounds; the bounded least-squares solver is a contract (any answer within its bounds)')
P('S04', 'Optimality residuals are the true gradient of the Lagrangian and violation',
  'The gradient of the Lagrangian reported to the user and to the convergence test equals the objective gradient plus the '
  'multipliers of the bounds active within 1e-5 plus the Jacobian transposed times the constraint multipliers, the feasibility '
  'residual is the vector of constraint values (inequality values less their squared slack), and computing them changes no argument.',
  'n<=4 (thorough 5), up to 3 constraints and 2 slacks, every value',
  'every entry pairs a multiplier with a constraint gradient; a wrong slice is invisible on symmetric test problems',
  ['sqpdfo_optimality.py'], [('residuals', 'sqpdfo_optimality.py')],
  'for all values within the stated bounds over exact reals')
P('S05', 'The trust-region step solves its subproblem and is reported truly',
  'The solver of the trust-region subproblem returns a step no longer than the radius (up to the requested precision) and a nonnegative '
  'multiplier such that the shifted matrix is positive semidefinite, the step solves the shifted system, and the multiplier is zero unless '
  'the step is as long as the radius; value, gradient and length reported are those of the model at that step, which never exceeds the '
  'value of no step, and the message tells interior from boundary. In the hard case the step is on the boundary and still solves the shifted '
  'system. A zero gradient, a zero radius or an unusable Hessian gives no step. Arguments are not modified.',
  'n=1 any data, n=2 concrete definite, indefinite and singular Hessians with any multiple of several gradients; 1-3 factorisations; hard case for n<=2',
  'the secular iteration, its safeguards and the hard case depend on real-valued relations that no finite set of examples covers',
  ['bcdfo_solve_TR_MS.py'], [('secular iteration and hard case', 'bcdfo_solve_TR_MS.py')],
  'exact reals within the stated number of factorisations; Cholesky is encoded, the eigen-decomposition is that of the concrete matrices')
P('S06', 'The bounded trust-region step respects bounds and radius and reports truly',
  'For any bounds around the current point the step lies exactly within them, component by component, is no longer than the radius (up to the '
  '1e-5 by which a component is moved onto its bound), and the length and model value reported are those of the step; in one dimension the '
  'model does not increase beyond that tolerance. When some variables have reached a bound, the rest of the step minimises the model '
  'around the point reached, in the remaining variables and the remaining radius. When no answer is found within the iteration limit the step is zero. '
  'Arguments are not modified.',
  'n=1 any gradient and bounds with three curvatures; n=2 any gradient, any inner step, present, zero, fixed and infinite bounds; up to 2 factorisations, and the iteration limit',
  'which bounds are met in which round, and the index arithmetic over the remaining variables, vary with the data',
  ['bcdfo_solve_TR_MS_bc.py'], [('active-set rounds', 'bcdfo_solve_TR_MS_bc.py')],
  'exact reals; the inner solver and (n=2) the factorisation are contracts')
P('S07', 'Projected gradient is zero exactly at first-order critical points',
  'For every point between its bounds, every component of the projected gradient points against the gradient, is no longer than the '
  'gradient component and than the distance to the bound in that direction, is zero only if the gradient component is zero or the bound is '
  'reached, equals the point minus the projection of the gradient step, and the reported measure is its largest component. '
  'Infinite bounds are allowed; nothing is modified.',
  'every finite double for points and gradients and every double bound with lower <= point <= upper, n<=2 (thorough 3); exact reals n<=3',
  'subnormals, infinities, cancellation near a bound: bit-level cases that sampling does not reach',
  ['bcdfo_projgrad.py'], [('projection', 'bcdfo_projgrad.py')],
  'bit-precise IEEE-754 within the stated sizes, plus exact reals for the projection identity')
P('S08', 'Matrix repairs give convex, well-conditioned, symmetric results',
  'The convexity repair returns a positive semidefinite symmetric matrix unchanged and otherwise returns a symmetric matrix with the '
  'same eigenvectors, the positive eigenvalues kept and the others raised to tiny positive ones. The conditioning repair returns a '
  'well-conditioned matrix unchanged and otherwise raises only the negligible singular values, keeping the factors and symmetrising; '
  'its flag tells whether a repair was made. Arguments are not modified and no NaN or infinity is introduced.',
  'n<=3, any spectrum in the bounds with several orthogonal bases; any symmetric matrix for n=1 and 2x2 no-repair branch',
  'the two repairs act only on indefinite or nearly singular matrices with thresholds of 1e-7/1e16 scale',
  ['sqpdfo_check_convex.py', 'sqpdfo_check_cond.py'], [('eigenvalue repair', 'sqpdfo_check_convex.py'),
                                                       ('singular value repair', 'sqpdfo_check_cond.py')],
  'for all spectra within the bounds; eigenvalue and singular-value kernels are contracts (exact decomposition)')
P('S09', 'The composite step keeps bounds, and predicts its constraint reduction truly',
  'Without constraints the new point is the current one plus the bounded trust-region step for the current gradient, Hessian, bounds and radius. With '
  'constraints, the step is a restoration step for the linearised constraints (slack variables included, bounds shifted to the current '
  'point) plus a tangential step that keeps the linearised constraints and the variables held at their bounds; however many rounds the active '
  'set takes, the new point and the new slacks end within their bounds, the slack step belongs to the step in the variables (the '
  'linearised constraints are those after the restoration step), the predicted reduction is that of the restoration step, and the '
  'radius is never enlarged. Arguments are not modified; bounds of fixed variables are skipped.',
  'n<=3 (one variable may be fixed), one constraint, one slack, any restoration and tangential answers, any number of rounds for a linear model',
  'the rounds of the active set, the shortening at a bound and the slack bookkeeping depend on where every partial step ends',
  ['sqpdfo_solve_TR_bc.py'], [('restoration, tangential step, active-set rounds', 'sqpdfo_solve_TR_bc.py')],
  'exact reals; the trust-region solver, conjugate gradients and the null space are contracts')
P('S10', 'Bounded least squares returns the constrained minimiser it claims',
  'The bounded least-squares solver behind the multiplier estimate returns a point within its bounds, with the residual norm of that '
  'point, and when it reports success the point satisfies the first-order optimality conditions: in every component, the '
  'residual cannot be reduced by moving away from, or inside, the bounds. This includes points where every '
  'variable is at a bound. Infinite bounds and rank-deficient matrices are allowed; arguments are not modified.',
  'n=1 any column, right-hand side and bounds; n=2 identity with any right-hand side; four other matrices (square, tall, rank deficient) with every scaling of three right-hand sides, signs of multipliers in every combination',
  'which variables end at a bound depends on data through a pseudo-inverse, a Cauchy search and a subspace search; a wrong vertex needs correlated columns',
  ['blls.py'], [('Cauchy point and subspace search', 'blls.py')],
  'exact reals with a float pseudo-inverse for concrete matrices; conditions hold within 1e-4')
P('N02', 'Array helpers keep their documented meaning, NaN included',
  'The MATLAB-style helpers on which the algorithm is built mean what they say for every input: minimum and maximum (of two numbers or of '
  'an array, with or without the position) ignore NaN, return one of their arguments and the first position of it; the index search '
  'lists the positions of true entries in order; stacking of rows and columns skips empty parts and keeps the order; norms are the '
  'Euclidean and the maximum norm.',
  'every double incl. NaN and infinities for up to 3 entries; masks up to 5 entries; norms up to 4 reals',
  'NaN and tie behaviour decides which sample point is taken as best',
  ['runtime.py'], [('helpers', 'runtime.py')],
  'bit-precise IEEE-754 within the stated sizes; norms over exact reals')
P('E01', 'Every evaluation is recorded once, aligned with its point and clamped',
  'Evaluating a new point calls the function exactly once at that point (unscaled where variables are scaled), advances the evaluation '
  'counter by one, appends exactly one point, one objective value and one column of constraint values, leaves every earlier record and '
  'every status array entry untouched, limits the objective from above and infinite constraint values to +-1e25, and an objective or '
  'constraint that evaluates to NaN, or an infinite objective, raises the failure flag instead of being recorded.',
  'every double (NaN and infinities for the new values) with up to 3 recorded points, n<=2, up to 2 constraint values',
  'NaN, infinity and rarely taken branches (rescaling, no free variables, zero recorded constraints) are not exercised by tests',
  ['sqpdfo_augmX_evalf.py'], [('evaluation and record', 'sqpdfo_augmX_evalf.py')],
  'bit-precise IEEE-754 within the stated sizes', over=('inputs', 'fault_sequences'))
P('G03', 'A trial point becomes the iterate only with sufficient merit decrease',
  'In every iteration the trial point becomes the iterate only if the merit function f+sigma*||c|| (inequalities less their squared '
  'slacks, current penalty) falls by at least a fixed positive fraction of the predicted reduction, and the prediction is positive; '
  'otherwise the iterate stays. The merit function never increases along the iterates for a given penalty. The iterate is always an '
  'evaluated point and the recorded objective value, constraint values, slacks and every value used to fit the next model belong to '
  'their own points, also after rejections and geometry improvements; the value reported at the end is that of the returned point.',
  'one main-loop iteration from any state (and a second or third after fixed accepted, rejected or repaired steps): any step, predicted '
  'reduction, gradients, function and constraint values in the boxes; any choice of the replaced point; n=1,2, 0-1 constraints',
  'the bookkeeping across accepted, rejected, augmented, replaced and repaired iterations has far more histories than the tests run',
  ['sqpdfo_main.py', 'sqpdfo.py', 'sqpdfo_find_smallf.py', 'sqpdfo_swap_in_Y.py', 'sqpdfo_augmX_evalf.py'],
  [('acceptance test and update', 'sqpdfo_main.py'), ('swap', 'sqpdfo_swap_in_Y.py'), ('best point', 'sqpdfo_find_smallf.py')],
  'exact reals; model construction, step computation and geometry repair are symbolic stand-ins', over=('inputs', 'histories'))
P('G05', 'After a geometry improvement the best feasible sample point is the iterate',
  'After the sample set was changed, the point of the set that lies within the bounds and has the smallest merit value (objective plus '
  'penalty times the norm of the constraint values) is moved to the first position together with its values, provided it is better than '
  'the current iterate; otherwise nothing changes. Points and values stay aligned, no point is lost, and the record of the iterate '
  '(objective, constraints, slacks, index) is updated with it.',
  'any sample points, values, bounds and penalty in the boxes: n<=2, up to 4 points, up to 2 constraint values, fixed variables included',
  'ties, bound violations in one component and the position of the best point are not varied by tests',
  ['sqpdfo_find_smallf.py', 'sqpdfo_swap_in_Y.py'], [('choice', 'sqpdfo_find_smallf.py'), ('swap', 'sqpdfo_swap_in_Y.py')],
  'exact reals within the stated sizes')
P('G01', 'Iteration and evaluation limits stop the run; the counters are exact',
  'An iteration is begun only while both the iteration counter and the evaluation counter are below their limits; otherwise the run stops '
  'there with the flag of the exhausted limit and nothing is evaluated afterwards. The reported evaluation counter equals the number of '
  'evaluations made and the reported iteration counter the number of iterations.',
  'any limits and counter values in [0,30], up to three iterations with accepted, rejected, augmented, replaced and repaired steps',
  'off-by-one behaviour depends on the combination of both limits with the kind of iteration in which they are reached',
  ['sqpdfo_main.py', 'sqpdfo_augmX_evalf.py', 'sqpdfo.py'], [('limit test', 'sqpdfo_main.py'), ('counter', 'sqpdfo_augmX_evalf.py')],
  'exact integers/reals within the stated number of iterations', over=('inputs', 'histories'))
P('G02', 'Success is reported only at a tested, converged point',
  'Flag 0 is reported only when gradient, feasibility and bound residuals at the returned point, computed with the returned multipliers and '
  'the current model, are each within its own tolerance (100 times the tolerance directly after a geometry improvement) and the sample set '
  'was just found well poised (poisedness times radius at most 1e-3). If the residuals are small but the set is not, the set is '
  'improved instead; a converged iterate on a poised set never takes another step.',
  'any residuals, poisedness, radii, multipliers and tolerances from three settings, at the first iteration and after fixed accepted, '
  'rejected and repaired steps; n<=2, 0-2 constraints',
  'tests check the flag of a few runs; which quantities the decision was based on is invisible to them',
  ['sqpdfo_main.py', 'sqpdfo.py'], [('convergence tests', 'sqpdfo_main.py')],
  'exact reals; residual and poisedness computations are symbolic stand-ins (decided elsewhere)', over=('inputs', 'histories'))
P('G04', 'The trust-region radius follows the outcome of the step',
  'After a successful step the radius does not shrink (but to the maximum radius), at least doubles when the step reached the boundary and '
  'the radius is small, and otherwise is at most twice the step length or the old radius and never driven above the maximum radius. '
  'After a rejected step it never grows, and when the point is not used in the sample set it falls to at most half of '
  'the radius and of the step. After a geometry improvement it is the radius of the improved set. It stays positive; a run that stops '
  'early for this reason says so with its flag.',
  'any radius in [1e-12,2e5], steps, gradients, function values and reductions in the boxes; n<=2, 0-1 constraint with and without slack',
  'the update has a dozen branches chosen by real-valued ratios that test runs barely cover',
  ['sqpdfo_main.py'], [('radius update', 'sqpdfo_main.py')],
  'exact reals; step computation and model construction are symbolic stand-ins')
P('A01', 'Calls that cannot be served are refused before anything is evaluated',
  'A call without objective, without starting point, with constraints announced but no constraint function, with a starting point that is '
  'not a vector, with a lower bound above its upper bound, or with every variable fixed ends with its documented flag, without '
  'entering the iteration and without a single evaluation. Every other call is served, and vectors given as lists or as row or column arrays '
  'mean the same.',
  'every combination of missing arguments; any bounds in [-100,100] for n<=3; any values of starting point and bounds in each form',
  'the combinations and the sign pattern of the bound differences are too many to list in tests',
  ['sqpdfo.py', 'sqpdfo_prelim.py'], [('argument checks', 'sqpdfo.py'), ('bound checks', 'sqpdfo_prelim.py')],
  'exact reals; all argument combinations within the sizes')
P('A02', 'Options: documented defaults, bad values refused, the rest used unchanged',
  'Every option left out has its documented default, a value out of its domain (non-positive limits, negative tolerances, unknown words) '
  'ends the call with flag 1 before anything is evaluated, a tolerance of zero means the default, a verbosity or output '
  'channel out of range falls back to 1, words are recognised regardless of case and blanks, every other value reaches the algorithm '
  'unchanged, and the option object of the caller is never modified.',
  'every double except NaN for the numeric options, alone and in triples; every documented word in five spellings and five near misses',
  'boundary values (zero, tiny, infinite, negative) of ten options and their combinations',
  ['sqpdfo_options.py', 'sqpdfo_values.py', 'sqpdfo.py'], [('option handling', 'sqpdfo_options.py')],
  'bit-precise IEEE-754 for the numeric options')
P('A03', 'The starting set lies within the bounds, around the starting point',
  'The first n+1 evaluations are all within the bounds: the starting point, moved inside only where a ball of the initial radius around it '
  'would not fit, and one point per coordinate at the distance of the initial radius, which is at most 1 and fits into the narrowest pair of '
  'bounds. The algorithm starts from exactly these points with their own objective and constraint values; an unusable (hugely negative) '
  'objective value repeats this with a hundredth of the radius. Nothing the caller passed is modified.',
  'any starting point and bounds in [-100,100] with any subset of bounds present, n<=3, 0-2 constraints',
  'where bounds, radius and starting point touch is a continuum of cases',
  ['sqpdfo_prelim.py', 'sqpdfo.py', 'sqpdfo_augmX_evalf.py'], [('starting set', 'sqpdfo_prelim.py')],
  'exact reals; factorisation and model coefficients are stand-ins')
P('A04', 'A run depends on its arguments only, not on earlier runs',
  'Whatever earlier runs left behind (slack variables, user functions, flags), a new run evaluates the same points, starts from the same '
  'state, uses the same slacks and reports the same result as in a fresh process; the caller\'s options are not changed by a run.',
  'any leftover state with 0-2 slacks of any value, or a real earlier run with inequalities; then a run with n<=2 and 0-2 constraints',
  'module-level state carries over between runs; tests are isolated single runs',
  ['sqpdfo.py', 'sqpdfo_global_variables.py', 'sqpdfo_prelim.py', 'sqpdfo_evalfgh.py'],
  [('module state', 'sqpdfo_global_variables.py'), ('reset', 'sqpdfo.py')],
  'exact reals; two runs compared symbolically up to the first iteration', over=('inputs', 'histories'))
P('A05', 'Inequalities become equalities with nonnegative slacks',
  'With inequality constraints the iteration works on one equality per constraint, the equalities first; every inequality gets one '
  'slack (two for a two-sided limit) bounded below by 0 and unbounded above, whose starting value cancels the satisfied part of its '
  'constraint so that the residual is exactly the violation. The bounds of the variables and the constraint values stay what the user gave; '
  'without inequalities there is no slack.',
  'any constraint values in [-10,10], bounds and limits, 0-2 equalities, 1-3 inequalities, n<=2',
  'the alignment of rows, slacks and bounds depends on the counts; values near zero and limits near the thresholds are not tested',
  ['sqpdfo.py', 'sqpdfo_prelim.py'], [('slack variables', 'sqpdfo.py'), ('starting slacks', 'sqpdfo_prelim.py')],
  'exact reals within the stated sizes')
P('A06', 'Variables with equal bounds stay fixed; the rest is the reduced problem',
  'A variable whose bounds are equal has exactly that value in every evaluation and in the result, its multiplier is zero, and the run on '
  'the other variables has the same points, radius, degrees and model data as the run on the problem without the fixed variables; point and '
  'multipliers are returned in the original order and length.',
  'n<=4, any proper subset fixed at any value, any other bounds and starting point, 0-2 constraints',
  'the index arithmetic depends on which positions are fixed',
  ['sqpdfo_prelim.py', 'sqpdfo.py', 'sqpdfo_augmX_evalf.py'], [('reduction', 'sqpdfo_prelim.py'), ('reassembly', 'sqpdfo.py')],
  'exact reals; two runs compared symbolically up to the first iteration')
P('E02', 'A failing user function ends the run at once with its flag',
  'If the objective or a constraint raises an exception or the objective is NaN or infinite or a constraint is NaN, at any evaluation '
  '(starting set, trial point, geometry improvement), the run ends with flag 3, nothing is evaluated afterwards, the evaluation counter is '
  'exact, and after a completed start the best point so far is returned with its own value. Without a failure that flag is never set.',
  'a failure of each kind at each of the first evaluations and at any evaluation of one or two iterations, any values elsewhere',
  'the fault can strike at any evaluation; tests never make the user function fail in the middle of a run',
  ['sqpdfo_func.py', 'sqpdfo_augmX_evalf.py', 'sqpdfo_main.py', 'sqpdfo_prelim.py'],
  [('exceptions', 'sqpdfo_func.py'), ('record', 'sqpdfo_augmX_evalf.py'), ('returns', 'sqpdfo_main.py')],
  'exact reals plus every fault position within the stated number of evaluations', over=('inputs', 'fault_sequences'))
