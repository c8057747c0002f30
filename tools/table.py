"""The properties: what is stated, where it lives, how it is decided."""
PROPS = []
NOT_APPLICABLE = {}

def P(id, title, statement, over, quant, why, files, mech, technique, note, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **({'observe_at': observe} if observe else {})),
                      technique=technique, note=note))
    assert len(title) <= 80, (id, len(title))

N = 'source/numeric/'
EXPL = 'Held on the executions observed: seeded random and hostile inputs in the numbers the evidence file states; nothing is claimed beyond them.'

P('C01', 'Exact numbers obey exact arithmetic',
  'Every operation of Integer, Natural, Dyadic, Decimal and Rational (construction from builtin and from each other, + - * /, quot, rem, pow, shift, sqr, hlf, rec, abs, max, min, floor, ceil, round, gcd, comparisons and cmp, reading and writing text) and of DyadicBounds, RationalBounds and their balls returns exactly the mathematical value, or for bounds encloses it. Values are independent: copying, moving, self-assignment and in-place operators never change another object or lose digits. Infinite and not-a-number Dyadic and Rational values follow the extended-real rules.',
  ['inputs', 'histories'], 'every operand of any size and sign and every sequence of operations on the same objects',
  'Tests use a dozen small operands; carries, 64-bit limits, huge numerators, moved-from objects and special values are outside them.',
  [N + f for f in ('integer.cpp', 'dyadic.cpp', 'decimal.cpp', 'rational.cpp')],
  [('GMP wrappers', N + 'integer.cpp, ' + N + 'rational.cpp'), ('dyadic representation', N + 'dyadic.cpp'), ('decimal scaling', N + 'decimal.cpp')],
  'runtime monitoring: differential monitor of every result against an independent GMP computation', EXPL)
P('C02', 'Directed rounding lies on the side asked for',
  'For FloatDP and FloatMP, each operation taking a rounding direction (add, sub, mul, div, fma, sqr, rec, hlf, pow, sqrt, exp, log, sin, cos, tan, asin, acos, atan, med, rad, constants such as pi, and conversions from Integer, Dyadic, Decimal, Rational, double and other precisions) returns a value on the requested side of the exact result (down: not above it, up: not below it) and within a few units of the last place; near returns the closest or almost closest value. Comparisons of floats with each other and with exact numbers agree with the exact order, and the ambient-rounding-mode arithmetic (Rounded, CurrentRoundingMode) obeys the mode in force. This includes subnormal, huge, infinite and not-a-number operands.',
  ['inputs', 'configurations'], 'every finite or special operand, precision and rounding direction',
  'A one-ulp error on the wrong side shows only for particular operands; tests check a few values, mostly with tolerances.',
  [N + f for f in ('floatdp.cpp', 'floatdp.hpp', 'floatmp.cpp', 'floatmp.hpp', 'double.cpp', 'rounding.hpp', 'rounded_float.hpp')],
  [('builtin rounding modes', N + 'rounding.hpp'), ('transcendental functions', N + 'double.cpp'), ('MPFR wrapper', N + 'floatmp.cpp')],
  'runtime monitoring: every rounded result judged online against the correctly rounded value from MPFR/GMP', EXPL)
P('C03', 'Validated floating-point numbers always enclose the exact value',
  'For Bounds, Ball (with error in the same or in double precision), UpperBound, LowerBound, Error and their Positive variants over FloatDP and FloatMP, every operation (arithmetic and in-place operators, fma, sqr, rec, hlf, pow with natural and negative exponents, sqrt, exp, log, trigonometric and inverse functions, abs, max, min, mag, mig, mixed operations with floats, integers and rationals, float-float operations returning Bounds) applied to numbers enclosing exact values returns a number enclosing the exact result, and point arguments give results a few units of the last place wide. Conversions between the classes, to other precisions and from Integer, Dyadic, Decimal, Rational and double enclose what they convert; value and error together cover lower and upper. models, refines, consistent, inconsistent, same, refinement and coarsening agree with the intervals the numbers stand for, and division by a number that may be zero never yields a bounded wrong answer.',
  ['inputs', 'histories'], 'every argument, every exact point inside the arguments, every precision and every chain of operations',
  'Soundness is a statement about all points of all argument intervals; tests compare a few endpoints.',
  [N + f for f in ('float_bounds.hpp', 'float_bounds.tpl.hpp', 'float_bounds.inl.hpp', 'float_ball.hpp', 'float_ball.tpl.hpp', 'float_upper_bound.hpp', 'float_lower_bound.hpp', 'float_error.hpp')],
  [('interval multiplication and division', N + 'float_bounds.hpp Operations<Bounds<F>>'), ('ball arithmetic', N + 'float_ball.hpp Operations<Ball<F,FE>>'), ('circular functions of intervals', N + 'float_bounds.tpl.hpp')],
  'runtime monitoring: inclusion monitor over every result at sampled exact points of the arguments (GMP, MPFR as oracle)', EXPL)
P('C04', 'Logical verdicts are never definitely wrong',
  'Kleenean, Sierpinskian, ValidatedKleenean and the other logical classes follow three-valued logic under not, and, or, xor and comparison, and a verdict of definitely, possibly, decide, check and the checked effective logic is never contradicted by the exact fact. Comparisons of validated and approximate numbers with each other and with exact numbers return true only if the relation holds for all, and false only if it holds for no, exact values enclosed. Checking with more effort never turns a determinate verdict into its opposite, and conversions between the paradigms never strengthen a verdict.',
  ['inputs', 'histories'], 'every logical expression tree, every pair of enclosures and every effort',
  'A wrong truth-table entry or comparison corner shows only for touching or nested operands or in deep lazily evaluated trees; tests check a few literals.',
  ['source/numeric/logical.hpp', 'source/numeric/logical.cpp', N + 'logical.decl.hpp', N + 'float_bounds.hpp', N + 'sign.hpp'],
  [('truth tables', N + 'logical.cpp'), ('effective logicals', N + 'logical.hpp'), ('comparison operators', N + 'float_bounds.hpp')],
  'runtime monitoring: every verdict compared online with a hidden fact known exactly to the monitor', EXPL)
P('C05', 'Rounding mode never leaks or corrupts results',
  'Operations on exact, validated and floating-point numbers leave the hardware rounding mode as they found it and compute results that are sound whatever rounding mode is in force when they are called, including when they end with an exception. Operations on functions, Taylor models and other higher-level objects leave the mode at round-to-nearest when called in it.',
  ['inputs', 'histories', 'configurations'], 'every operation, in every ambient rounding mode',
  'Tests run in the default mode and never read the mode back; a leaked mode silently corrupts later, unrelated computations.',
  [N + f for f in ('rounding.hpp', 'floatdp.cpp', 'double.cpp', 'float_bounds.tpl.hpp')] + ['source/function/taylor_model.tpl.hpp'],
  [('rounding-mode save and restore', N + 'rounding.hpp'), ('transcendental functions', N + 'double.cpp')],
  'runtime monitoring: the hardware rounding mode is read after every monitored operation while the enclosure monitors run in every ambient mode', EXPL)
P('C06', 'Computable reals converge to the number they denote',
  'For every Real built from exact numbers, constants, arithmetic, elementary functions, limits of fast Cauchy sequences, or max, min and abs, compute(Effort), compute(Accuracy), get(precision) and compute_get return enclosures of the exact real number; the accuracy asked for is met and enclosures shrink as effort or precision grows. Comparisons and sign tests checked with any effort are never wrong, and Real values share state without affecting each other.',
  ['inputs', 'histories', 'configurations'], 'every expression, effort, accuracy and precision',
  'Tests evaluate single operations on a few values at one effort; deep expressions, large accuracies and repeated refinement are not sampled.',
  [N + f for f in ('real.cpp', 'real.hpp', 'sequence.hpp', 'accuracy.hpp', 'lower_real.hpp', 'upper_real.hpp', 'validated_real.hpp')],
  [('expression nodes and limits', N + 'real.cpp')],
  'runtime monitoring: each computed enclosure judged against an independent MPFR interval evaluation of the same expression', EXPL)
P('C07', 'Generic and complex numbers agree with the values they hold',
  'Arithmetic, elementary functions and comparisons on type-erased Number objects (exact, effective, validated, approximate, upper and lower) holding any mix of concrete classes give a number which encloses the exact result, whichever class dispatch selects, and reading it back at any precision encloses it again. The paradigm of the result is never stronger than those of the operands. Complex arithmetic, conjugation, modulus, argument, powers, sqrt, exp and log enclose the exact complex result.',
  ['inputs', 'configurations'], 'every combination of concrete classes, operation, precision and value',
  'Double dispatch over a dozen classes gives hundreds of paths of which tests take few.',
  [N + f for f in ('number.hpp', 'number_wrapper.hpp', 'number_interface.hpp', 'complex.hpp', 'number.cpp')],
  [('double dispatch', N + 'number_wrapper.hpp'), ('complex arithmetic', N + 'complex.hpp')],
  'runtime monitoring: each result read back and judged against an independent MPFR interval evaluation', EXPL)
A = 'source/algebra/'
P('C09', 'Vector and matrix algebra computes the algebraic result',
  'Vectors, covectors and matrices over exact, validated and approximate numbers: sums, products, scalar operations, in-place and aliased operators, joins, ranges, projections, transposes, norms, inverses, solutions of linear systems, and triangular and orthogonal decompositions return the algebraic result, exactly for exact coefficients and as an enclosure of it for validated ones. Operands keep their value, sizes are those of the algebra, and a singular or incompatible argument is refused with an exception or an unbounded result, never answered with a bounded wrong one.',
  ['inputs', 'histories'], 'every size, every coefficient type and every operand, including empty, rank-deficient and badly ordered matrices',
  'Pivoting, aliasing and range bugs depend on where zeros and sizes fall; tests use one or two small matrices.',
  [A + f for f in ('vector.hpp', 'covector.hpp', 'matrix.hpp', 'matrix.tpl.hpp', 'matrix.cpp', 'diagonal_matrix.hpp', 'symmetric_matrix.hpp')],
  [('elimination and pivoting', A + 'matrix.tpl.hpp'), ('expression templates and ranges', A + 'vector.hpp, ' + A + 'matrix.hpp')],
  'runtime monitoring: each result judged coefficient by coefficient against rational linear algebra at exact points of the operands', EXPL)
P('C10', 'Multi-indices and expansions keep exactly the terms they were given',
  'Multi-indices compare, add, enumerate and order as tuples of powers; index lists and expansions hold, after any history of append, prepend, insert, erase, set, resize, sort, combine_terms, remove_zeros, copy, move and swap, exactly the terms this history produces in the order asked for. Sorted expansions stay sorted and find every coefficient; looking up an absent index gives zero. No operation reads or writes outside the storage it owns.',
  ['inputs', 'histories'], 'every history of operations, number of variables and capacity boundary',
  'Packed storage shared between indices goes wrong only at reallocations and boundaries reached by particular histories.',
  [A + f for f in ('multi_index.hpp', 'multi_index.inl.hpp', 'multi_index.cpp', 'expansion.hpp', 'expansion.inl.hpp', 'expansion.tpl.hpp')],
  [('packed index storage', A + 'multi_index.inl.hpp'), ('term storage and sorting', A + 'expansion.tpl.hpp')],
  'runtime monitoring: a list model checked against the whole content after every operation of a random history', EXPL)
P('C11', 'Differentials and power series carry the right derivatives',
  'Arithmetic, elementary functions, powers, min, max, abs, composition, derivative, antiderivative, Lie derivative, flow, implicit solution, gradient, Jacobian and Hessian of Differential, UnivariateDifferential, vectors of them, and Series over validated floats give, in every coefficient up to the stated degree, an enclosure of the exact Taylor coefficient. The result has the smaller degree of its arguments (one less or one more for derivative and antiderivative) and its terms are sorted. Arguments are left unchanged and may alias; where a branch (abs, min, max) is undecided the operation refuses rather than guess.',
  ['inputs', 'configurations'], 'every number of variables, degree, sparsity pattern and value, including zero and constant differentials',
  'Recurrences go wrong at particular degrees, zero values, missing terms or mismatched degrees; tests look at two or three coefficients.',
  [A + f for f in ('differential.hpp', 'differential.tpl.hpp', 'univariate_differential.hpp', 'univariate_differential.tpl.hpp', 'series.hpp', 'operations.hpp')],
  [('truncated products and composition', A + 'differential.tpl.hpp'), ('series recurrences', A + 'series.hpp')],
  'runtime monitoring: every coefficient judged against truncated power-series arithmetic over MPFR intervals', EXPL)
F = 'source/function/'
P('C12', 'Taylor models enclose every function their operands allow',
  'For Taylor models over FloatDP, FloatMP and their interval variants, under every sweeper: arithmetic (including in-place and scalar forms), elementary functions, composition, substitution, evaluation, gradients, antiderivatives, splitting, embedding, swept and refined models, norms and ranges allow, at every point of the unit box, the exact result for every value the operands allow there. Sweeping only moves dropped terms into the error bound, and ranges and norms bound every value. refines, inconsistent and refinement never claim what a common function contradicts.',
  ['inputs', 'configurations'], 'every number of variables, sweeper, coefficient, error and exact evaluation point',
  'Rounding and truncation errors lost from the error bound are invisible to tests comparing a few coefficients, and soundness quantifies over all points and all represented functions.',
  [F + f for f in ('taylor_model.hpp', 'taylor_model.tpl.hpp', 'taylor_model.cpp', 'taylor_series.hpp')] + [A + 'sweeper.hpp'],
  [('error accumulation in arithmetic', F + 'taylor_model.tpl.hpp'), ('analytic series remainders', F + 'taylor_series.hpp')],
  'runtime monitoring: the value set each model allows at exact points judged against rational or MPFR interval images of operand values', EXPL)
P('C13', 'Function patches over boxes enclose what their operands allow',
  'For scalar and vector Taylor function patches and models over box domains, and type-erased FunctionModel and FunctionPatch objects holding them: construction from symbolic functions, arithmetic, evaluation, composition, partial evaluation, restriction, embedding, splitting, joining, combining, derivative, Jacobian, antiderivative (also from a given point), polynomial, range, norm and distance agree, at every point of the domain, with the exact result for every value the operands allow there, and carry the right domain. Points and ranges outside the domain are refused. refines and inconsistent never claim what an allowed function contradicts.',
  ['inputs', 'configurations'], 'every domain, sweeper, model and exact evaluation point',
  'Scaling by centre and radius of each coordinate goes wrong only for particular asymmetric domains and coordinates, and enclosure quantifies over all points.',
  [F + f for f in ('scaled_function_patch.hpp', 'scaled_function_patch.tpl.hpp', 'taylor_function.hpp', 'taylor_function.cpp', 'function_model.hpp', 'function_model_mixin.hpp', 'function_patch.hpp', 'scaling.hpp')],
  [('scaling to the unit box', F + 'scaled_function_patch.tpl.hpp'), ('type-erased models', F + 'function_model_mixin.hpp')],
  'runtime monitoring: the value set each patch allows at exact domain points judged against rational or MPFR interval images', EXPL)
P('C14', 'Functions, formulae and procedures all stand for the same real function',
  'A scalar or vector function built from coordinates, constants, arithmetic, elementary functions, joins and compositions evaluates, in every number type and through every representation (effective, validated, formula, simplified or substituted formula, straight-line procedure, interval range), to something that encloses the value of the expression it was built from at every point of the argument box. Its derivatives, gradients, Jacobians, Hessians and Lie derivatives enclose the true derivatives, and claims that a formula is constant or affine in some arguments are true. Changing a component of a copy leaves the original unchanged.',
  ['inputs', 'configurations', 'histories'], 'every expression, argument box and point of it',
  'A wrong differentiation, simplification or substitution rule shows only for particular combinations of operations and arguments.',
  [F + f for f in ('function.hpp', 'function.cpp', 'symbolic_function.hpp', 'formula.hpp', 'formula.tpl.hpp', 'formula.cpp', 'procedure.hpp', 'procedure.tpl.hpp', 'procedure.cpp')] + ['source/symbolic/templates.tpl.hpp', A + 'fixed_univariate_differential.hpp'],
  [('symbolic rules', 'source/symbolic/templates.tpl.hpp'), ('type-erased functions', F + 'function.cpp'), ('straight-line programs', F + 'procedure.tpl.hpp')],
  'runtime monitoring: every representation of a random expression judged against independent MPFR interval and power-series evaluations of it', EXPL)

P('C15', 'Polynomials, Chebyshev polynomials and affine models compute what they denote',
  'Sums, differences, products, scalings, derivatives, antiderivatives, truncations, partial evaluations and compositions of multivariate and univariate polynomials have exactly the terms (within the bounds of their coefficients) of the polynomial operation, each multi-index occurring once, and evaluation at a point or at bounds encloses the value. Chebyshev polynomials, as combinations of T_n, have the value of the same operation on those combinations. Affine forms and affine models enclose at every point of the unit box every function whose value the operands allow, including models made from Taylor models or functions on a box and their ranges.',
  ['inputs', 'configurations', 'histories'], 'every polynomial, order of construction, argument and precision',
  'Term order, missing constant terms, coinciding indices and error terms go wrong only for particular sparsity patterns.',
  [F + f for f in ('polynomial.hpp', 'polynomial.tpl.hpp', 'polynomial.cpp', 'chebyshev_polynomial.hpp', 'chebyshev_polynomial.tpl.hpp', 'chebyshev_polynomial.cpp', 'affine.hpp', 'affine.cpp', 'affine_model.hpp', 'affine_model.tpl.hpp', 'model_utilities.hpp')] + [A + 'evaluate.tpl.hpp'],
  [('polynomial algebra', F + 'polynomial.tpl.hpp'), ('Horner scheme', A + 'evaluate.tpl.hpp'), ('affine model error bounds', F + 'affine_model.tpl.hpp')],
  'runtime monitoring: every result compared, term by term or by value, with exact rational polynomials and the set of functions a model allows', EXPL)

Y = 'source/symbolic/'
P('C16', 'Transformations of symbolic expressions keep the function they stand for',
  'Simplification, common-subexpression elimination, substitution, differentiation and conversion to formulae and functions (and back) of a symbolic real, vector, integer, string or Kleenean expression give an expression whose value at every valuation in its domain is that of the original (or its derivative), whatever node sharing, operators and variable names it was written with. Reported argument sets, node counts, and claims that an expression is constant, affine, polynomial or additive in some variables are true of it; before() is a strict order under which distinct expressions stay distinct. Predicates evaluate to their truth value, and their indicator functions are positive where the predicate is true and negative where it is false (the reverse for the negative sign).',
  ['inputs', 'configurations', 'histories'], 'every expression, sharing of nodes, variable order and valuation',
  'A rewriting rule or cache shared between subterms goes wrong only for particular combinations of operations.',
  [Y + f for f in ('expression.hpp', 'expression.tpl.hpp', 'expression.cpp', 'templates.hpp', 'templates.tpl.hpp', 'valuation.hpp', 'space.hpp', 'assignment.hpp')],
  [('rewriting and common subexpressions', Y + 'expression.tpl.hpp'), ('indicator functions and conversions', Y + 'expression.cpp')],
  'runtime monitoring: every transformed expression evaluated at exact points against independent MPFR interval and power-series evaluations of the original', EXPL)

Z = 'source/geometry/'
P('C18', 'Intervals and boxes: relations, set operations and images mean what they say',
  'For non-empty intervals and boxes with exact end points (double, multiple-precision, dyadic, rational and real), containment, inclusion, disjointness, overlap, interior relations and equality return exactly the truth, and for upper and lower intervals a definite answer is right for every interval they may stand for. Intersection, hull, product, projection, splitting, corners and conversions give exactly the sets named, midpoints lie inside, radii, widths and measures are not too small, widening and narrowing (including to a domain) go strictly outwards and inwards, and conversions round outwards for upper and inwards for lower intervals. Arithmetic and elementary functions of upper intervals, and images of boxes under functions, contain the exact value at every point.',
  ['inputs', 'configurations'], 'every pair of intervals, including touching, nested and degenerate ones, and every point of them',
  'Relations differ from their near relatives only for touching or equal end points, and containment quantifies over all points.',
  [Z + f for f in ('interval.hpp', 'interval.inl.hpp', 'interval.cpp', 'box.hpp', 'box.tpl.hpp', 'box.cpp', 'point.hpp')],
  [('interval relations and operations', Z + 'interval.inl.hpp'), ('interval arithmetic and domains', Z + 'interval.cpp'), ('boxes', Z + 'box.tpl.hpp')],
  'runtime monitoring: every relation and operation judged against exact rational intervals and, for one-sided intervals, random intervals they may stand for', EXPL)

P('C19', 'Grid pavings: set algebra, queries and approximations through any history',
  'A grid tree paving stands for the union of its cells: after any history of adjoining, removing, restricting, joining, intersecting, differencing, mincing, subdividing, recombining, restricting to an extent, copying, assigning, branching, taking products and projecting, its cells are non-overlapping, have the boxes their grid, extent and path determine, and cover exactly the set the operations describe; mincing and subdividing reach the requested fineness, recombining leaves no mergeable siblings, and copies are independent. Subset, intersection, equality and box queries, measure, bounding box and size of pavings, branches, cells and open cells are exact (definite answers of semi-decidable queries are right). Outer approximations of boxes and sets cover the set with cells meeting it, inner approximations lie inside it, lower approximations consist of cells meeting it, and over-approximating graphs cover the graph.',
  ['inputs', 'histories', 'configurations'], 'every grid, dimension, order of operations and set',
  'The trees are re-rooted and shared between operations, so mistakes show up only for particular relative positions of root cells and after particular histories.',
  [Z + f for f in ('grid_paving.hpp', 'grid_paving.cpp', 'grid_cell.hpp', 'grid.hpp', 'grid.cpp', 'binary_tree.hpp', 'binary_tree.cpp')] + ['source/utility/binary_word.hpp'],
  [('set operations, queries and approximations', Z + 'grid_paving.cpp'), ('tree surgery', Z + 'binary_tree.cpp'), ('cells and primary cells', Z + 'grid_cell.hpp')],
  'runtime monitoring: random histories over several pavings, each observation compared with an independent set of microcells in lattice coordinates', EXPL)

P('C20', 'Unions of intervals, measurable sets and preimages are what they denote',
  'A union of intervals stands for the union of the intervals it was made from, in any order, and its components, measure, bounding box, intersections, joins, subset and overlap answers are those of that set of points. A lower measurable set model with an error, and the models and sequences derived from it by intersection, union, preimage and restriction, claim at least what the measures of the true sets allow and never more than they prove. A preimage of a union of intervals under a function is contained in the true preimage, and misses no more of it than the accuracy asked for.',
  ['inputs', 'configurations'], 'every list of intervals in any order, number type and function',
  'The algorithms sweep two lists at once; whether a component is dropped or combined wrongly depends on the relative order of endpoints in both lists.',
  [Z + f for f in ('union_of_intervals.hpp', 'measurable_set.hpp', 'set_wrapper.hpp')] + [F + 'measurable_function.hpp'],
  [('unions', Z + 'union_of_intervals.hpp'), ('measurable set models', Z + 'measurable_set.hpp'), ('preimages', F + 'measurable_function.hpp')],
  'runtime monitoring: random unions in every representation compared with an independent set of cells of the line', EXPL)

P('C21', 'Containers, caches, handles and words keep their contents and leak nothing',
  'After any history of operations an array, uniform array, shared array, list, set, map, least-recently-used cache or binary word holds exactly what the same history gives on a plain model, and text written from it reads back to it. Every element constructed is destroyed exactly once: the number of live elements always equals the number held, and no dead element is used. Writing through one copy-on-write or copy-on-copy pointer or handle never shows through another.',
  ['inputs', 'histories'], 'every sequence of operations on any number of containers sharing storage',
  'These classes manage raw storage by hand; leaks, double deletions and aliasing appear only after particular sequences of copies, moves and resizes.',
  ['source/utility/' + f for f in ('array.hpp', 'uniform_array.hpp', 'container.hpp', 'lru_cache.hpp', 'binary_word.hpp', 'pointer.hpp', 'handle.hpp', 'stlio.hpp')],
  [('array storage', 'source/utility/array.hpp'), ('sets and maps', 'source/utility/container.hpp'), ('cache ages', 'source/utility/lru_cache.hpp'), ('shared ownership', 'source/utility/pointer.hpp')],
  'runtime monitoring: random histories on instrumented elements (counting every birth, death and use) compared with a plain model', EXPL)

P('C22', 'No operation reads or writes memory it does not own, or is undefined',
  'On every input and history the other properties exercise, including malformed text, special values, mismatched arguments and operations that refuse, the library never reads or writes outside live objects, never uses an object after its lifetime, and never executes an operation the language leaves undefined (signed overflow, invalid shifts, casts, null references or enumeration values, missing returns).',
  ['inputs', 'histories', 'configurations'], 'every operation reachable from the public interfaces of numbers, algebra, functions, symbols and geometry',
  'Such errors stay silent: the value read past the end is usually harmless, so behaviour checks and unit tests pass.',
  ['source/utility/array.hpp', A + 'multi_index.hpp', A + 'expansion.tpl.hpp', N + 'dyadic.cpp', N + 'floatmp.cpp', N + 'float_ball.cpp', F + 'chebyshev_polynomial.tpl.hpp', F + 'taylor_model.tpl.hpp', Z + 'grid_paving.cpp', Z + 'binary_tree.cpp', Y + 'expression.cpp'],
  [('raw storage', 'source/utility/array.hpp'), ('index storage', A + 'multi_index.hpp'), ('text conversion', N + 'floatmp.cpp'), ('tree surgery', Z + 'binary_tree.cpp')],
  'AddressSanitizer and UndefinedBehaviorSanitizer over the random and hostile workloads of all other properties; only sanitizer reports are judged', EXPL)

P('C30', 'Computations release all the memory they take, also when they throw',
  'Once caches are warm, repeating any computation, including one that is refused with an exception, leaves exactly as many live memory blocks as before it: nothing an operation allocates, directly or through the multiple precision libraries, outlives the objects it returned.',
  ['inputs', 'histories'], 'every workload of the other properties, repeated any number of times',
  'Rigorous reachability runs for hours on millions of small objects; a leak in one operation or on one exceptional path is invisible to a unit test.',
  ['source/utility/array.hpp', N + 'dyadic.cpp', N + 'floatmp.cpp', N + 'logical.cpp', N + 'number_wrapper.hpp', Z + 'grid_paving.cpp', Z + 'binary_tree.cpp', F + 'function_patch.hpp'],
  [('element storage', 'source/utility/array.hpp'), ('multiple precision significands', N + 'floatmp.cpp'), ('logical handles', N + 'logical.cpp'), ('tree nodes', Z + 'binary_tree.cpp')],
  'runtime monitoring: live blocks of operator new, GMP and MPFR are counted; each workload is repeated and its growth must vanish', EXPL)

P('C24', 'What an equation solver reports about the solutions of an equation is true',
  'A box returned by a solver for f(x)=0 contains a solution, and zero() keeps every solution of its search box; solve_all finds all robust simple solutions. A NoSolutionException is thrown only if there is no solution. A function returned by implicit() contains the exact solution at every parameter.',
  ['inputs'], 'every function and search box, for interval Newton, Krawczyk and factored Krawczyk solvers at any accuracy and step limit',
  'Verified root finding is the base of event detection and set computations; a wrong claim only shows for particular functions, boxes and step limits.',
  ['source/solvers/solver.cpp', 'source/solvers/solver.hpp', 'source/solvers/solver_interface.hpp'],
  [('search and splitting', 'source/solvers/solver.cpp'), ('contract of the results', 'source/solvers/solver_interface.hpp')],
  'runtime monitoring: functions with exactly known solutions are solved and every outcome, including the kind of refusal, is compared with them', EXPL)

P('C26', 'Constraint solvers and optimisers never lose a solution or claim a false one',
  'A contractor applied to a box never removes a point satisfying the constraints and never enlarges the box. A definite verdict on feasibility of constraints or of a linear program is true; a point or box returned as a witness lies in the domain and satisfies the constraints up to its enclosure. The simplex method returns a feasible point attaining the exact minimum.',
  ['inputs'], 'every system of constraints over a bounded box, linear programs with bounded variables in rational and floating-point arithmetic',
  'Reachable sets are discretised and verified through these verdicts: one dropped solution silently makes an unsafe system look safe.',
  ['source/solvers/constraint_solver.cpp', 'source/function/procedure.tpl.hpp', 'source/solvers/linear_programming.cpp', 'source/solvers/nonlinear_programming.cpp'],
  [('contractors and feasibility', 'source/solvers/constraint_solver.cpp'), ('back-propagation', 'source/function/procedure.tpl.hpp'), ('simplex', 'source/solvers/linear_programming.cpp'), ('validation of feasibility', 'source/solvers/nonlinear_programming.cpp')],
  'runtime monitoring: problems built around a known solution and exactly enumerated polytopes; every contraction, verdict and optimum is compared with exact arithmetic', EXPL)

P('C25', 'The computed flow of a differential equation encloses the exact flow',
  'For every integrator, the function returned by a successful flow step contains the exact solution for every initial state, time and parameter in its domain, and its domain is the requested one. Bounds computed for the flow contain it for the whole step, which is positive and at most the suggested one. This holds for the partial result of an incomplete flow too.',
  ['inputs'], 'every vector field, autonomous or depending on time and parameters, every box of initial states and every tolerance and order of the integrator',
  'All evolution of continuous and hybrid systems is built from these steps; an enclosure missing the flow by an unaccounted term invalidates every later result, and no test compares with exact solutions.',
  ['source/solvers/integrator.cpp', 'source/solvers/bounder.cpp', A + 'graded.hpp', A + 'algebra_operations.tpl.hpp', A + 'differential.hpp'],
  [('Picard and series steps', 'source/solvers/integrator.cpp'), ('a priori bounds', 'source/solvers/bounder.cpp'), ('time series', A + 'graded.hpp')],
  'runtime monitoring: systems with exactly known flows, sheared and multiplied together, are integrated and every enclosure is compared with the exact solution at sampled states, times and parameters', EXPL)
