
AT = ['regreg/atoms/__init__.py', 'regreg/atoms/seminorms.py', 'regreg/atoms/weighted_atoms.py', 'regreg/atoms/block_norms.py',
      'regreg/atoms/svd_norms.py', 'regreg/atoms/cones.py', 'regreg/atoms/simplex.py', 'regreg/atoms/linear_constraints.py']
PROX = [{'name': 'lagrange_prox / bound_prox / cone_prox / _basic_prox of every atom', 'where': 'regreg/atoms/*.py'}]

prop('A01', "Proximal maps of conjugate atoms satisfy Moreau's identity",
     "For the seminorms and their weighted versions, the row-wise l1_l2 and linf_l2 block norms, the nuclear and operator norms, the cones and the simplex/maximum pair: "
     "the proximal map of the atom at x in Lagrange form plus the correspondingly scaled projection of its conjugate at x in bound form (or the projections on a cone and its polar) add up to x.",
     ['inputs', 'configurations'], 'every conjugate pair of the listed atoms, every argument, lagrange and lipschitz value and weight vector',
     'tests try few random arguments, rarely with lipschitz different from 1, zero weights, interior points or points in the polar cone', AT, PROX)
prop('A02', 'Proximal maps and objectives of atoms handle offsets and quadratics',
     "proximal(quadratic) of an atom solves the problem with the sum of the given quadratic and the atom's own quadratic, at the recentred argument with the total curvature, and returns the solution shifted by the atom's offset. "
     "nonsmooth_objective(x) is the seminorm (Lagrange form) or, when feasibility is checked, the constraint (bound form) at x minus the offset, plus the atom's own quadratic at x.",
     ['inputs', 'configurations'], 'every atom and every quadratic, offset, form and argument',
     'the combination of an own quadratic, a given quadratic and an offset, in both forms, is tried for few atoms on random points', AT,
     [{'name': 'proximal, nonsmooth_objective, solve', 'where': 'regreg/atoms/__init__.py, seminorms.py, cones.py, simplex.py, linear_constraints.py'}])
prop('A03', 'Conjugates of atoms carry the right class, parameters and quadratic',
     "The conjugate of an atom is the documented dual atom, with lagrange and bound exchanged and their current values, the same shape and weights, and the quadratic and offset that represent the conjugate of the offset atom plus its own quadratic.",
     ['inputs', 'configurations'], 'every atom, form, offset and quadratic', 'tests check few atoms, mostly right after construction and without quadratic terms', AT,
     [{'name': 'get_conjugate', 'where': 'regreg/atoms/*.py'}])
prop('A04', "Constraints are the indicators of the sets of the atoms",
     "constraint of an atom in bound form, of a cone or epigraph, of the simplex and of a linear subspace is zero on the set the atom describes and infinite outside, up to a small tolerance on the inside. "
     "For a seminorm the set is the ball in which the seminorm with multiplier one is at most the bound, including the sign restrictions of constrained atoms.",
     ['inputs', 'configurations'], 'every listed atom, argument and bound', 'tests evaluate constraints on few interior points', AT,
     [{'name': 'constraint, seminorm', 'where': 'regreg/atoms/*.py'}])
prop('A05', 'Seminorms and proximal maps compute their closed forms',
     "The l1, l2, supremum, positive-part and constrained-max norms, the weighted l1 and supremum norms, the row-block norms l1_l2 and linf_l2, the nuclear and operator norms, the simplex, the maximum and the sign cones compute their documented closed forms: "
     "value, soft thresholding, clipping, block shrinkage and projection, with the lagrange, lipschitz and bound arguments entering as documented and infinite weights forcing zeros.",
     ['inputs', 'configurations'], 'every listed atom, argument, multiplier, bound and weight vector',
     'a wrong branch for unusual signs, zero blocks or weights is not sampled, and an error made in both members of a pair passes identity tests', AT, PROX)
prop('Q01', 'Operations on identity quadratics keep the function they represent',
     "For an identity quadratic, the func, grad and both modes of objective agree with q(x) = coef/2 |x-center|^2 + linear_term.x + constant_term and its gradient, with missing terms counting as zero. "
     "collapsed, copying, noneify and zeroify, recenter (which returns the shift and the function at the shifted argument), addition, indexing, true_center and conjugate compute the same function, the shifted function, the sum, the restriction, the minimiser of the curved part and the convex conjugate.",
     ['inputs', 'configurations'], 'every combination of missing and present terms and every argument',
     'tests use a few combinations of terms; a wrong cross term shows only when center, linear term and offset are all present', ['regreg/identity_quadratic.py'],
     [{'name': 'identity_quadratic', 'where': 'regreg/identity_quadratic.py'}])
PB = ['regreg/problems/simple.py', 'regreg/problems/container.py', 'regreg/problems/composite.py', 'regreg/problems/dual_problem.py',
      'regreg/smooth/__init__.py', 'regreg/atoms/__init__.py']
prop('P01', 'Problems and composites compute the sum of the parts they were given',
     "Problem objects (simple_problem, container, separable, dual_problem) and composed functions (sums of losses, a loss or atom composed with an affine map, smoothed atoms, conjugates) "
     "evaluate exactly the sum or composition of their parts: values add up, gradients are pulled back through the adjoint, every quadratic counts once and offsets shift the argument. "
     "Their proximal maps pass the sum of the given quadratic and the parts' own quadratics to the atom.",
     ['inputs', 'configurations'], 'every listed class, with and without offset, quadratic, transform and selector, and every argument',
     'tests build few combinations, mostly without quadratic terms or offsets on the parts', PB,
     [{'name': 'smooth_objective, nonsmooth_objective, proximal, smoothed, conjugates', 'where': 'regreg/problems, regreg/smooth/__init__.py, regreg/atoms/__init__.py'}])
prop('F01', 'Solvers take the documented steps and honour their options',
     "FISTA proposes the minimizer of the model with the gradient and curvature at the working point, accepts a backtracking step only when the sufficient decrease (or curvature) test holds and otherwise shrinks the step, and stores the accepted point; momentum weights, restarts and the stopping options tol, min_its, max_its and coef_stop act as documented. "
     "gengrad, nesta, tfocs, the ADMM updates and the quasi-Newton inner problem, BFGS update and line search solve the documented subproblems, with their tolerances and other options passed on.",
     ['inputs', 'histories'], 'every iteration from every state of the solver, for every problem and option value',
     'a wrong step or ignored option usually still converges on the well-conditioned problems in the tests', ['regreg/algorithms.py', 'regreg/problems/simple.py', 'regreg/problems/admm.py', 'regreg/problems/newton.py'],
     [{'name': 'FISTA.fit, FISTA.backtrack, gengrad, nesta, tfocs, admm_problem, quasi_newton', 'where': 'regreg/algorithms.py, regreg/problems/'}],
     note='Single steps from an arbitrary state; that iterates converge is not claimed.')
prop('E03', 'solve() adds the given quadratic temporarily and forwards its options',
     "solve(quadratic, return_optimum, **options) of a smooth function, a simple problem, a container or a dual problem minimizes the objective plus the given quadratic, passes the options to the solver and returns the solution, or the pair of the optimal value and the solution. "
     "Afterwards, also when the solver raises, the problem's own quadratic is what it was before.",
     ['inputs', 'fault_sequences', 'histories'], 'every problem, quadratic and option, and every exception raised while solving',
     'tests rarely look at a problem after solve and never after a failing solve', ['regreg/problems/composite.py', 'regreg/problems/simple.py', 'regreg/problems/container.py', 'regreg/problems/dual_problem.py'],
     [{'name': 'solve', 'where': 'regreg/problems/*.py'}], technique=AI + '; finally-dominance of the restoring store')
AFP = ['regreg/affine/__init__.py', 'regreg/affine/block_maps.py', 'regreg/affine/fused_lasso.py', 'regreg/affine/multiscale.py', 'regreg/affine/factored_matrix.py', 'regreg/affine/image2d.py']
prop('L01', 'Affine transforms compute their documented linear map and offset',
     "For every transform of regreg.affine (affine_transform and linear_transform for every kind of operator, selector, scaler, normalize, add_intercept, centering, residual, vstack, hstack, product, composition, affine_sum, scalar_multiply, posneg, tensorize, adjoint, block_columns, block_rows, trend_filter, trend_filter_inverse, multiscale), "
     "linear_map is the documented combination of the parts, affine_map(x) equals linear_map(x) plus affine_offset, and affine_offset is that of the documented map. "
     "The matrix of difference_transform, the table of slices of multiscale, todense, astransform, dot and power_L agree with their documentation.",
     ['inputs', 'configurations'], 'every argument, operator kind, offset and number of parts',
     'tests use one or two small operators, mostly without offsets, and compare maps on random vectors of a single shape', AFP,
     [{'name': 'linear_map, affine_map, affine_offset', 'where': 'regreg/affine/*.py'}],
     note='Stacks are checked with two and three parts; array reshapes and the index arithmetic of image2d.formD are not.')
prop('L02', 'adjoint_map is the adjoint of linear_map',
     "For every transform of regreg.affine, with dense, sparse, diagonal or nested operators, with or without centering, scaling and intercept, the inner product of u with linear_map(x) equals the inner product of adjoint_map(u) with x for all x and u. "
     "The offset never enters the adjoint.",
     ['inputs', 'configurations'], 'every pair of arguments and every configuration of every transform',
     'a wrong adjoint still gives descent directions on many problems, so solvers in tests converge to almost the right point', AFP,
     [{'name': 'adjoint_map', 'where': 'regreg/affine/*.py'}])

SM = ['regreg/smooth/glm.py', 'regreg/smooth/mglm.py', 'regreg/smooth/binary.py', 'regreg/smooth/cox.py', 'regreg/smooth/__init__.py']
ATM = ['regreg/atoms/seminorms.py', 'regreg/atoms/cones.py', 'regreg/atoms/weighted_atoms.py', 'regreg/atoms/group_lasso.py', 'regreg/atoms/svd_norms.py',
       'regreg/atoms/block_norms.py', 'regreg/atoms/linear_constraints.py', 'regreg/atoms/simplex.py', 'regreg/problems/composite.py', 'regreg/identity_quadratic.py']
prop('C01', 'Copies are complete and independent',
     "copy.copy of a loss, a generalized linear model, an atom (seminorm, cone, constraint, weighted, group, mixed, block or matrix norm) or an identity quadratic has the class, shape, coef, lagrange or bound, offset, quadratic (constant included), current coefs, weights, case weights, groups and data of the original, also when coefs or quadratic were changed after construction. "
     "Its coefs and case weights are arrays of its own.",
     ['inputs', 'configurations', 'histories'], 'every class with __copy__, in Lagrange and bound form, with every option given',
     'tests copy few objects and hardly ever ones with options set or changed', SM + ATM, [{'name': '__copy__', 'where': 'regreg/smooth, regreg/atoms, regreg/identity_quadratic.py'}])
prop('C02', "Subsampling a loss zeroes the other cases' weights in a copy",
     "subsample(idx) of a loss or generalized linear model returns a copy, complete as in any copy, whose case weights are those of the loss for the cases in idx (one if it has none) and zero for the others. The loss itself is unchanged.",
     ['inputs', 'configurations'], 'every loss with subsample, with and without case weights',
     'tests subsample losses without offsets, weights or quadratics, and do not look at the original afterwards', SM, [{'name': 'subsample', 'where': 'regreg/smooth'}])
prop('D01', 'Assigning data to a loss replaces the data it evaluates',
     "After loss.data = D, for a saturated loss, a stacked loss or a generalized linear model, reading data gives D, and value, gradient, Hessian and Hessian product are those of a loss constructed on D with the same options. (The deviance constant in its quadratic is not part of this.)",
     ['inputs', 'histories'], 'every loss with settable data, and all data of the same shape',
     'no test replaces data and evaluates; derived quantities (ranks, counts, transforms) silently stay behind', SM, [{'name': 'set_data', 'where': 'regreg/smooth'}])
prop('D02', 'Likelihood losses have value zero at the saturated fit',
     "The constant that the logistic, probit, complementary log-log, Poisson and multinomial losses add to their quadratic is coef times the log-likelihood of the saturated fit, so that without case weights the objective is zero at the best possible fit of every case. "
     "It is finite also when cases have no events, only events or zero counts.",
     ['inputs', 'configurations'], 'every response, number of trials and coef', 'no test looks at the constant', SM, [{'name': '__init__', 'where': 'regreg/smooth/binary.py, glm.py, mglm.py'}])
prop('O01', 'Options of constructors and likelihood factories take effect',
     "A loss, smooth function or atom built with coef, lagrange or bound, offset, quadratic, initial or case_weights holds them (initial in coefs); left out, it starts at zero, without offset and without quadratic, and an atom rejects having both or neither of lagrange and bound. "
     "The factories of glm, mglm and the stacked losses (gaussian, logistic, probit, cloglog, poisson, huber, huber_svm, cox, multinomial, stacked) build the named loss on the given data and pass on every option.",
     ['inputs', 'configurations'], 'every class and factory, with every option given and left out',
     'tests use few options at a time; a dropped option changes nothing unless it is given', SM + ATM, [{'name': '__init__ and classmethods', 'where': 'regreg/smooth, regreg/atoms, regreg/problems/composite.py'}])
ALL = ['regreg/smooth', 'regreg/atoms', 'regreg/affine', 'regreg/problems', 'regreg/paths', 'regreg/sklearn', 'regreg/algorithms.py', 'regreg/identity_quadratic.py']
EFF = 'interprocedural effect and may-alias analysis over the syntax tree'
prop('E01', 'Functions leave the arrays and objects they are given unchanged',
     "No public function, method or constructor of regreg writes into an array, list or dictionary its caller passed, or changes an attribute of an object it is given (a problem's current coefs and a path's progress excepted), at the call or later through a reference it keeps.",
     ['inputs', 'histories'], 'every public function of the package and every argument', 'tests seldom look at their inputs afterwards',
     ALL, [{'name': 'all public functions', 'where': 'regreg'}], technique=EFF)
prop('E02', 'Results do not change later, and evaluating changes nothing',
     "What an evaluation (objective, gradient, proximal map, seminorm, linear or adjoint map, conjugate, copy, ..) returns is not memory that a later call overwrites. Evaluating assigns or modifies none of the attributes that constructors and setters configure (lazily filled caches and warm starts excepted). Solutions that paths collect are not overwritten by later steps.",
     ['inputs', 'histories'], 'every evaluation method of every class', 'a test that looks at one result at a time cannot see it change with the next call',
     ALL, [{'name': 'evaluation methods', 'where': 'regreg'}], technique=EFF)
prop('S08', 'The Cox loss computes the partial likelihood and its derivatives',
     "For every set of event times (ties included), censoring indicators, offset, coefficient and non-negative case weights, given at construction, per call or both, value, gradient and hessian_mult of cox_loglike are the weighted Cox partial likelihood with Breslow ties, sum of c_i w_i (log sum over T_j >= T_i of w_j exp(eta_j) - eta_i), its gradient and its Hessian times a vector. "
     "They stay finite when cases have weight zero, also when no weighted case remains at risk after such a case. "
     "The compiled kernels touch only entries within the arrays, whose lengths are checked, and see strided arrays in the right order.",
     ['inputs', 'configurations'], 'every pattern of ties, order of the cases, censoring, weights and argument',
     'tests use continuous times without ties, unit weights and sorted or random orders; mistakes between orders and ranks show only with ties', ['regreg/smooth/cox.py', 'regreg/smooth/cox_utils.pyx', 'regreg/smooth/cox_fns.c'],
     [{'name': '_update_cox_exp, _update_outer_1st, _update_outer_2nd, _cox_objective, _cox_gradient, _cox_hessian and their callers', 'where': 'regreg/smooth/cox_fns.c, cox_utils.pyx, cox.py'}],
     technique='clang syntax tree of the kernels, counted loops summarised as prefix and suffix sums over orders and ranks; abstract interpretation of the Cython wrappers and the class; comparison of normal forms with the documented formula and its symbolic derivatives')
prop('E04', 'Defaults, class attributes and module values are never modified',
     "No function modifies the mutable default value of a parameter (also when it is kept in an attribute), a class attribute shared by instances, or a module level value, and none changes settings of the whole process (random seed, error handling, warning filters, print options).",
     ['histories', 'configurations'], 'every function, class and module of the package', 'what one call leaves behind shows only in a later call with other arguments',
     ALL, [{'name': 'all functions', 'where': 'regreg'}], technique=EFF)

PT = ['regreg/paths/__init__.py', 'regreg/paths/lasso.py', 'regreg/paths/group_lasso.py', 'regreg/paths/sparse_group_lasso.py', 'regreg/paths/sparse_group_block.py']
prop('T01', 'Path subproblems are the penalised problem restricted to the candidates',
     "For lasso, group lasso, sparse group lasso and multiresponse block paths, solve_subproblem solves the loss at the candidate columns plus alpha times the penalty at the given Lagrange parameter plus the elastic net term of weight 1 - alpha, and returns its solution, linear predictor and gradient. "
     "full_gradient, enet_loss and enet_grad belong to the same problem, in which the Lagrange parameter does not multiply the ridge term of coordinates without penalty. "
     "A new path starts at the fit of these coordinates, and the factories (logistic, cox, ..) build the path of the named loss on the given data.",
     ['inputs', 'configurations'], 'every path class, candidate set, weights, alpha, Lagrange parameter and elastic net parameters',
     'tests run whole paths with unit weights and alpha 1 and compare with nothing, or with one other solver', PT,
     [{'name': 'solve_subproblem, full_gradient, enet_loss, enet_grad, unpenalized, __init__, factories', 'where': 'regreg/paths/*.py'}])
prop('T02', 'Optimality checks and strong sets of paths are the documented conditions',
     "check_KKT of a path reports as failing exactly the active coordinates or groups whose gradient differs from minus the Lagrange parameter times the subgradient of the penalty by more than the tolerance, unpenalised ones whose gradient is not zero to the tolerance, and ranks exactly the inactive ones whose gradient exceeds the dual bound, the others being -1. "
     "strong_set keeps those whose gradient lies outside the dual ball for 2 * new - current and all without penalty, and active_set the nonzero ones.",
     ['inputs', 'configurations'], 'every path class, solution, gradient, weights (zero ones included) and Lagrange parameter',
     'when a check is too lenient the path silently returns wrong solutions; too strict a strong rule is repaired by later rounds, so tests see neither', PT,
     [{'name': 'check_KKT, strong_set, active_set', 'where': 'regreg/paths/*.py'}])
prop('T03', 'Path drivers accept only solutions that pass the optimality check',
     "strong_rules, warm_start and basil return one solution per Lagrange parameter, in order, each obtained at that parameter (and warm started from the previous one), and strong_rules and basil accept it only when check_KKT at its own gradient, including the elastic net gradient at that parameter, reports no failing coordinate. "
     "Failing ones, and in strong_rules all that were ever active, are added to the candidates of the next round.",
     ['inputs', 'schedules', 'histories'], 'every sequence of Lagrange parameters, path and outcome of subproblems and checks',
     'stale gradients or multipliers show only when a screening rule fails, which random designs hardly ever do', ['regreg/paths/__init__.py', 'regreg/paths/basil.py'],
     [{'name': 'strong_rules, warm_start, basil, _inner_loop, default_lagrange_sequence, updated_ever_active', 'where': 'regreg/paths'}])
prop('T04', 'Cross-validation fits without the cases it scores',
     "cross_validate and cross_validate_alt fit each fold to the cases outside it, score its predictions on the cases inside it, and return mean and standard deviation of the scores over the folds, whose sizes are equal up to one; cross_validate multiplies the loss of a fold by cases over training cases. "
     "subsample of a path is a path with the same design, penalty weights, groups, elastic net parameters and alpha, for the subsample of its loss.",
     ['inputs', 'configurations'], 'every path, number of folds, score and fitter',
     'a leak between training and test cases makes scores better, and no test knows what they should be', ['regreg/paths/cross_validate.py'] + PT[1:],
     [{'name': 'cross_validate, cross_validate_alt, subsample', 'where': 'regreg/paths'}])

prop('A06', 'Group lasso and mixed lasso atoms compute their documented norms and maps',
     "For every grouping and nonnegative weights (zero included), seminorm, dual norm, constraint, proximal map and projection of group_lasso and group_lasso_dual are those of the sum over groups of weight times Euclidean norm and its dual, and the maps of the group lasso epigraph and polar cones shrink every group with the threshold they search for with these norms and weights. "
     "mixed_lasso and mixed_lasso_dual treat every coordinate according to its label (group, l1, unpenalised, nonnegative, positive part), also when a kind does not occur, in value, constraint and proximal map, with the offset subtracted once.",
     ['inputs', 'configurations'], 'every array, grouping, set of weights, multiplier or bound',
     'tests use unit or positive weights and few kinds of coordinates at a time; the compiled kernels are compared with other kernels that share their mistakes',
     ['regreg/atoms/group_lasso.py', 'regreg/atoms/mixed_lasso.py', 'regreg/atoms/mixed_lasso_cython.pyx'],
     [{'name': 'mixed_lasso_lagrange_prox, mixed_lasso_bound_prox, mixed_lasso_dual_bound_prox, mixed_lasso_epigraph, seminorm_mixed_lasso, seminorm_mixed_lasso_dual', 'where': 'regreg/atoms/mixed_lasso_cython.pyx'},
      {'name': 'group_lasso, group_lasso_dual, group_lasso_cone classes, mixed_lasso, mixed_lasso_dual', 'where': 'regreg/atoms/group_lasso.py, regreg/atoms/mixed_lasso.py'}],
     technique='Cython kernels translated to syntax trees, loops summarised as per-coordinate formulas; abstract interpretation of the classes; comparison of normal forms with the definitions')
