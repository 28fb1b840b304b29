#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json (claimed = checks/<id>.py exists)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                          'observe_at': list(observe), 'hook_needed': None}})


prop('C01', 'Variable transformations are exact bijections with the right Jacobian',
     'Every change of variable used for integration or interpolation on a finite or infinite range maps its working interval one-to-one onto the range it was built for, and its inverse undoes it everywhere. The Jacobian it reports is the derivative of the inverse map, and applying the transformation to a density preserves the integral element at every point, also at the end points.',
     ['inputs', 'configurations'], 'all transformation kinds, all interval ends, exponents and offsets, all points of the range',
     'tests integrate a few fixed densities with default offsets; a wrong branch or Jacobian is hidden for the sampled parameters',
     ['pacal/vartransforms.py'], [('VarTransform and subclasses', 'pacal/vartransforms.py'), ('apply_with_inv_transform', 'pacal/vartransforms.py')],
     ['VarTransform.apply_with_inv_transform'])
prop('C02', 'Integration over any kind of range returns the integral of the given function',
     'Integrating a function over a finite, half-infinite or infinite range, with or without singularities at either end, returns the integral of exactly that function over exactly that range: whatever way the range is subdivided or transformed, each point is covered once with its own weight and extra arguments are passed on. The reported error covers all the parts.',
     ['inputs', 'configurations'], 'all integrands, range ends, singularity flags, exponents and extra arguments',
     'tests integrate a handful of densities and cannot see a dropped or doubled piece that depends on the position of the ends',
     ['pacal/integration.py', 'pacal/segments.py'], [('integrate_* family', 'pacal/integration.py'), ('_segint', 'pacal/segments.py')],
     ['pacal.integration.integrate_fejer2_*', 'pacal.segments._segint'])
prop('C03', 'Quadrature rules and node families are exact for polynomials',
     'The quadrature rules integrate every polynomial up to their degree exactly on every finite interval, with weights that sum to the interval length, and the node families are the sorted Chebyshev points of their interval. Doubling a rule keeps all earlier nodes in order, so values computed once are reused at the right places.',
     ['inputs', 'configurations'], 'all polynomials of the degrees covered, all interval ends, rule sizes up to the stated bound',
     'tests compare a few integrals to tolerance; weights for sizes never reached by those integrands go unchecked',
     ['pacal/integration.py', 'pacal/utils.py', 'pacal/interpolation.py'],
     [('integrate_fejer2, integrate_clenshaw and weights', 'pacal/integration.py'), ('node families', 'pacal/utils.py')],
     ['integrate_fejer2', 'integrate_clenshaw', 'cheb_nodes*'])
prop('C04', 'Adaptive refinement stops exactly when its accuracy criterion is met',
     'Adaptive integration and interpolation report convergence only when the last error estimates satisfy the configured relative or absolute tolerance, return the best result seen, and terminate within the configured iteration limit for every history of errors.',
     ['histories', 'configurations'], 'all sequences of estimates and errors up to the bound, all tolerance settings',
     'tests see only the error histories of a few smooth densities',
     ['pacal/utils.py', 'pacal/integration.py', 'pacal/interpolation.py'], [('convergence_monitor', 'pacal/utils.py')],
     ['convergence_monitor.test_convergence', 'convergence_monitor.get_best_result'])
prop('C05', 'Numeric helpers are correct on every input',
     'Root bracketing and function inversion return a point where the function attains the requested value, for finite and infinite ends and for increasing and decreasing functions; singularity detection classifies a singular end as such. The combinatorial, step-function, duplicate-removal, Chebyshev-coefficient and companion-matrix helpers return the mathematically defined values for scalars and arrays alike.',
     ['inputs'], 'all function values, targets, interval ends, array contents within the size bounds',
     'tests call them only indirectly, on a few well-behaved functions',
     ['pacal/utils.py'], [('findinv, findinv_pinf, findinv_minf, bisect, testPole, epsunique, stepfun, binomial_coeff, multinomial_coeff, chebt2, ichebt2, Chebyshev companion matrix', 'pacal/utils.py')],
     ['pacal.utils functions'])
prop('C06', 'Polynomial interpolation reproduces values, derivatives and roots',
     'An interpolant passes through the function values at its nodes and equals every polynomial of its degree at every other point, for scalar and array arguments and for interval ends anywhere; adaptive refinement keeps this true after nodes are added. Differentiating, trimming, shifting/scaling and root finding return the derivative, the same function to the given tolerance, and real roots inside the interval; the compiled kernels never access memory outside their buffers.',
     ['inputs', 'configurations'], 'all function values, evaluation points, interval ends; node counts up to the bound',
     'tests check a few fixed functions, where misplaced values or weights average out below the tolerance',
     ['pacal/interpolation.py', 'pacal/bary_interp.pyx', 'pacal/utils.py'],
     [('BarycentricInterpolator, ChebyshevInterpolator*, AdaptiveInterpolator*', 'pacal/interpolation.py'), ('compiled kernels', 'pacal/bary_interp.pyx')],
     ['Interpolator.interp_at', 'ChebyshevInterpolator.diff', 'trim', 'roots'])
prop('C07', 'Interpolants on infinite and singular ranges evaluate the original function',
     'An interpolant built on a half-infinite or infinite range, on a heavy tail, or next to a singularity agrees with the original function wherever the underlying polynomial interpolation is exact: the same point is always mapped to the same interpolation node coordinate it was sampled at, on every branch. Negative functions keep their sign, mirrored ranges mirror the function, points outside the range give zero, and reported nodes lie in the original range.',
     ['inputs', 'configurations'], 'all functions, all evaluation points, scalar and array calls, left and right ends, all offsets and exponents',
     'tests evaluate a few tails and poles on a plotting grid',
     ['pacal/interpolation.py', 'pacal/segments.py'],
     [('VarTransformInterpolator*, LogTransformInterpolator, PInfInterpolator, MInfInterpolator, Pole interpolators', 'pacal/interpolation.py')],
     ['interp_at', 'getNodes'])
prop('C08', 'Function pieces evaluate, integrate and rescale consistently',
     'A piece of a piecewise function returns its function inside its own closed range and zero outside, for scalar and array arguments; integrating it over any sub-range gives the integral over the intersection with its range, and its cumulative form starts from the given value and is additive. Shifting, scaling, mirroring or composing a piece yields the piece of the transformed function on the transformed range, including infinite ends, singular ends and point masses.',
     ['inputs', 'configurations'], 'all functions, piece ends, shifts, non-zero scales, sub-ranges and points',
     'tests exercise some pieces with fixed ends; sign, orientation and clipping cases depend on the relation of all the ends',
     ['pacal/segments.py'], [('Segment, ConstSegment, PInfSegment, MInfSegment, DiracSegment, SegmentWithPole, *Interpolated*', 'pacal/segments.py')],
     ['Segment.__call__', 'Segment.integrate', 'shiftAndScale', 'probComposition'])
prop('C09', 'Piecewise functions obey pointwise arithmetic and evaluation',
     'Evaluating a piecewise function at any point, scalar or array, gives the value of the piece containing that point (zero in gaps and outside), and adding, subtracting, multiplying, dividing, shifting, scaling, splitting or restricting piecewise functions gives the function that does so at every point. Breakpoints reported are exactly the ends of the pieces in increasing order, pieces never overlap, and operands are not modified. An interpolated copy has the same pieces, masses and values as the original.',
     ['inputs', 'histories'], 'all piece functions, all break positions in every relative order, all evaluation points, up to the stated number of pieces',
     'tests add and multiply particular step functions; coincident, nested and gapped breaks are not covered',
     ['pacal/segments.py'], [('PiecewiseFunction', 'pacal/segments.py'), ('op_diracs, op_segments, split, restrict', 'pacal/segments.py')],
     ['PiecewiseFunction.__call__', 'PiecewiseFunction operators'])
prop('C10', 'Distribution functionals are consistent with the density and point masses',
     'For every density made of continuous pieces and point masses, the total mass, the probability of any interval, the cumulative distribution function (non-decreasing, right-continuous, reaching the total mass) and every moment equal the corresponding integral plus sum over the masses. Mean, variance, standard deviation, median, quantiles, skewness and kurtosis follow from these by their definitions, and the quantile function inverts the cumulative distribution. The mode and the extremes reported are attained and not exceeded by any piece.',
     ['inputs', 'configurations'], 'all piece functions, breaks, masses, interval ends and probability levels within the piece-count bound',
     'tests evaluate a few standard distributions; errors in pieces with masses, gaps or infinite tails stay invisible',
     ['pacal/segments.py', 'pacal/distr.py'], [('PiecewiseDistribution and CumulativePiecewiseFunction', 'pacal/segments.py'), ('Distr functionals', 'pacal/distr.py')],
     ['PiecewiseDistribution.cumint', 'Distr.cdf', 'Distr.quantile', 'Distr.moment'])
prop('C11', 'Sums and differences of independent variables have the convolution density',
     'The density of the sum or difference of two independent variables equals the convolution integral of their densities at every point: every pair of pieces contributes over exactly the part of its support where both are defined, and point masses shift and weight the other operand. Breakpoints of the result contain every point where the formula changes, and adding or multiplying by a constant shifts or scales exactly.',
     ['inputs', 'configurations'], 'all operand densities, piece ends (finite, infinite, mixed), point masses, evaluation points',
     'tests compare a few sums with closed forms on a grid; a wrong integration limit for one relative position of the pieces is missed',
     ['pacal/indeparith.py', 'pacal/distr.py', 'pacal/segments.py'], [('conv, convmean, conv_at_point, convdiracs, _findSegList', 'pacal/indeparith.py')],
     ['pacal.indeparith.conv', 'SumDistr', 'SubDistr'])
prop('C12', 'Products and quotients of independent variables have the right density',
     'The density of the product or quotient of two independent variables equals the exact integral for that operation at every non-zero point, with every pair of pieces contributing over exactly its own region in every sign combination, and point masses included. Multiplying or dividing by constants rescales exactly and division by a variable with a point mass at zero is refused.',
     ['inputs', 'configurations'], 'all operand densities, signs and positions of pieces, finite or infinite ends, point masses, evaluation points',
     'tests compare a few products with closed forms; wrong limits in one sign quadrant are missed',
     ['pacal/indeparith.py', 'pacal/distr.py'], [('convprod, convdiv and their region computation', 'pacal/indeparith.py')],
     ['pacal.indeparith.convprod', 'pacal.indeparith.convdiv', 'MulDistr', 'DivDistr'])
prop('C13', 'Minimum and maximum of independent variables have the right density',
     'The density of the minimum or maximum of two independent variables is the exact combination of densities and (complementary) distribution functions at every point, including point masses, overlapping and disjoint supports, and constants.',
     ['inputs', 'configurations'], 'all operand densities, breaks, masses and evaluation points',
     'tests check a couple of continuous cases', ['pacal/indeparith.py', 'pacal/distr.py', 'pacal/stats/iid_ops.py'],
     [('convmin, convmax, distr_sum', 'pacal/indeparith.py')], ['MinDistr', 'MaxDistr'])
prop('C14', 'Functions of one random variable follow the change-of-variables rule',
     'The density of a function of a random variable (absolute value, sign, square, power, exponential, logarithm, reciprocal, trigonometric and hyperbolic functions, affine maps) at any point is the sum over all preimages of the original density divided by the absolute slope, and point masses move to the image points with their weight. The break points of the result are the images of the original ones and the result is supported on the image of the range.',
     ['inputs', 'configurations'], 'all input densities, breaks, masses, function parameters and evaluation points',
     'tests check a few functions of the normal and uniform distributions', ['pacal/distr.py', 'pacal/standard_distr.py'],
     [('FuncDistr and subclasses, FuncNoninjectiveDistr', 'pacal/distr.py')], ['FuncDistr.pdf', 'init_piecewise_pdf'])
prop('C15', 'Conditioning on an interval gives the conditional distribution',
     'Conditioning a variable X | Gt(L), X | Lt(U) or X | Between(L, U) gives, whenever the event has positive probability, the density divided by the probability of the event inside the open interval and zero outside, and keeps exactly the point masses strictly inside, divided by the same probability, for continuous, discrete and mixed X; masses at the ends are excluded (the conditions are strict), whether or not X has a mass there. Conditions wholly outside the range (Gt, Lt) are refused. The range reported for the result ends at the limits which cut the range of X. X itself is left unchanged.',
     ['inputs'], 'all densities, masses, interval ends', 'tests condition a couple of continuous distributions',
     ['pacal/distr.py', 'pacal/indeparith.py', 'pacal/segments.py'], [('CondGtDistr, CondLtDistr, CondBetweenDistr, Distr.__or__', 'pacal/distr.py')],
     ['Distr.__or__', 'CondBetweenDistr'])
prop('C16', 'Standard continuous distributions have their defining densities',
     'Each built-in continuous distribution evaluates, for every valid parameter value and every point, scalar or array, to its defining density: zero outside the support, non-negative, and the limit value where the formula is singular. Invalid parameters are refused, and the break points declared cover the support and every singularity.',
     ['inputs', 'configurations'], 'all valid parameter values and all points, for every built-in distribution',
     'tests use one or two parameter values per distribution', ['pacal/standard_distr.py'],
     [('*Distr.pdf and init_piecewise_pdf', 'pacal/standard_distr.py')], ['Distr.pdf', 'Distr.get_piecewise_pdf'])
prop('C17', 'Discrete distributions and mixtures carry the right weights',
     'Each built-in discrete distribution puts its defining probability on each support point, within the stated truncation; mixtures weight every component by its probability; user-supplied weights stay with their points in any order, duplicates included.',
     ['inputs', 'configurations'], 'all parameters, weights and points within the size bound', 'tests build a few discrete distributions',
     ['pacal/standard_distr.py', 'pacal/distr.py'], [('DiscreteDistr, Bernoulli, Binomial, Poisson, Geometric, mixtures', 'pacal/standard_distr.py')],
     ['DiscreteDistr', 'MixDistr'])
prop('C18', 'Arithmetic on discrete variables is exact',
     'Sum, difference, product, quotient, minimum and maximum of discrete variables put on every attainable value exactly the total probability of the operand pairs giving it, and mixed discrete and continuous operands give the correctly weighted combination.',
     ['inputs', 'configurations'], 'all point positions and weights up to the stated number of points', 'tests use a few dice-like examples',
     ['pacal/indeparith.py', 'pacal/segments.py'], [('convdiracs and segments with masses', 'pacal/indeparith.py')], ['DiscreteDistr operators'])
prop('C19', 'Random-variable expressions keep their meaning',
     'Every arithmetic expression or function of random variables denotes the pointwise expression: its symbolic form, range and sampled value are those of the expression evaluated on its operands, in that operand order, for variables and constants on either side. Variables sharing an ancestor are recognised as dependent and others are not.',
     ['programs', 'inputs'], 'all operator applications, all operand values and ranges', 'tests compare a few expressions',
     ['pacal/rv.py', 'pacal/distr.py'], [('RV operators, OpRV classes', 'pacal/rv.py'), ('Distr operators', 'pacal/distr.py')], ['RV.range', 'RV.getAncestorIDs'])
prop('C20', 'Copulas satisfy their defining identities',
     'Every copula has uniform margins, is grounded at zero and non-decreasing, and its density is the mixed derivative of its distribution function; generators and their inverses undo each other. The joint density over given margins is the copula density at the marginal distribution functions times the marginal densities.',
     ['inputs', 'configurations'], 'all copula parameters, all points of the unit square', 'tests do not cover copulas beyond examples',
     ['pacal/depvars/copulas.py'], [('Copula classes', 'pacal/depvars/copulas.py')], ['Copula.cdf', 'Copula.ccdf', 'Copula.jpdf'])
prop('C21', 'Multivariate densities marginalise and condition correctly',
     'Marginal, conditional and regression operations on a multivariate normal or general joint density give the parameters and values defined by probability theory, for any subset and order of variables; pointwise arithmetic on joint functions matches variables by identity, not by position.',
     ['inputs', 'configurations'], 'all means, covariances, variable subsets/orders, points up to the stated dimension', 'no tests cover it',
     ['pacal/depvars/nddistr.py'], [('NDNormalDistr, NDProductDistr, NDFun', 'pacal/depvars/nddistr.py')], ['NDDistr.eliminate', 'NDDistr.condition'])
prop('C22', 'Graphical models preserve the joint distribution',
     'Exchanging, eliminating or conditioning variables of a model, in any sequence, and inference of any variables given values of any others, keep the joint distribution: the equations of dependent variables still give their values at every point, the density of the free variables is the old one times the absolute Jacobian of the exchange, with exactly the right variables integrated out or fixed, whatever the order in which ties are broken; operations that make no sense are refused and change nothing, equations without a unique real solution included. A two-variable model integrates the joint density along the whole curve where the operation takes the given value.',
     ['histories', 'programs', 'inputs'], 'all sequences of operations up to the bound, all wanted and conditioning variables, all points', 'tests do not cover models',
     ['pacal/depvars/models.py', 'pacal/sympy_utils.py'], [('Model', 'pacal/depvars/models.py'), ('TwoVarsModel', 'pacal/depvars/models.py'), ('eq_solve', 'pacal/sympy_utils.py')], ['Model.eliminate', 'Model.varschange', 'Model.inference', 'TwoVarsModel.getUL'])
prop('C23', 'Sparse-grid interpolation is exact on its polynomial space',
     'Sparse-grid interpolation passes through the function values at its nodes, reproduces the polynomials of its space at every other point in every dimension supported, and integrates or samples nodes only inside its box.',
     ['inputs', 'configurations'], 'all function values, box ends, points within the level and dimension bound', 'tests do not cover sparse grids',
     ['pacal/depvars/sparse_grids.py', 'pacal/bary_interp.pyx'], [('AdaptiveSparseGridInterpolator', 'pacal/depvars/sparse_grids.py')], ['interp_at'])
prop('C24', 'Sample statistics of independent copies follow their formulas',
     'Sums, products, minima, maxima, arithmetic and geometric means of n independent copies of a variable combine exactly n copies and have the distribution of that statistic, for every n of an all-sizes request too; the k-th order statistic has density k C(n,k) f F^(k-1) (1-F)^(n-k), the pair of the i-th and j-th its joint density, for every sample size and rank in range, and ranks out of range are refused; noncentral t, chi-square, beta and F variables are the functions of normal and chi-square variables that define them.',
     ['inputs', 'configurations'], 'all densities, ranks and sample sizes up to the bound', 'tests check one example',
     ['pacal/stats/iid_ops.py', 'pacal/stats/noncentral_distr.py'], [('iid_* functions', 'pacal/stats/iid_ops.py')], ['iid_order_stat', 'iid_min', 'iid_max'])
prop('C25', 'Random samples follow the distribution',
     'The sampling routine of every distribution maps base random numbers (of the generators it uses) so that each sample has exactly that distribution: density times slope of the map is the density of the base number, inversion returns the point where the cumulative distribution reaches the uniform number, discrete values, mixture components and conditional samples occur with their probabilities; arrays are mapped element by element, scalars and arrays alike, and functions of a variable apply to its samples.',
     ['inputs', 'configurations'], 'all base random values and parameters', 'tests only draw a few samples',
     ['pacal/standard_distr.py', 'pacal/distr.py'], [('rand_raw, rand_op, rand_invcdf', 'pacal/distr.py')], ['Distr.rand'])

SUMM = {}
NA = {}
exec(open(os.path.join(HERE, 'tools', 'claims.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p in P:
        i = p['id']
        if i in NA:
            na.append({'property': i, 'reason': NA[i]})
        elif os.path.exists(os.path.join(HERE, 'checks', i.lower() + '.py')):
            checks.append({'property': i,
                           'quick_cmd': '/opt/venv/bin/python run.py --property %s --tier quick' % i,
                           'thorough_cmd': '/opt/venv/bin/python run.py --property %s --tier thorough' % i,
                           'technique': 'symbolic execution of the real Python/Cython source, obligations decided by Z3, counterexamples replayed on the unmodified code',
                           'level': 'other',
                           'level_note': 'Holds for every value of the symbolic inputs within the bounds listed in the evidence (sizes, pieces, orderings); floats are modelled as reals, transcendental functions by axioms, library numerics (FFT, eigenvalues, special functions) by their specification. ' + SUMM.get(i, '')})
        else:
            na.append({'property': i, 'reason': 'check not built yet in this revision'})
    m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python run.py --setup', 'checks': checks, 'not_applicable': na,
         'notes': 'see DESIGN.md; findings in known_findings.json'}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(P), 'properties', len(checks), 'claimed')


main()
