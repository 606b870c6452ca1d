prop('C02', 'Queries never modify a spline, its arguments or any hidden state',
     'Evaluating, differentiating, comparing, projecting onto, reading properties of, or writing to a file a spline (or a '
     'knot vector, basis function, control point or multi-index) modifies neither that object, nor any object reachable '
     'from it or from the arguments, nor any state that survives the call. The result of a query therefore does not depend on '
     'which queries ran before, and concurrent queries on shared splines do not race.',
     ['histories', 'schedules', 'inputs'], 'every query, every sequence and interleaving of queries, every spline',
     'Tests call queries in a few fixed orders from one thread; a hidden write only shows in another order, another object or another thread. const does not help: the classes reach their data through shared pointers.',
     ['src/spl/spline.h', 'src/spl/b_spline.h', 'src/spl/nurbs.h', 'src/spl/parameter_space.h', 'src/spl/physical_space.h',
      'src/baf/knot_vector.cc', 'src/baf/b_spline_basis_function.cc', 'src/spl/projection.h', 'src/io'],
     [('const member functions over shared_ptr members', 'src/spl/spline.h'), ('parameters taken by value or const reference', 'src/util/vector_utils.h')],
     'interprocedural effect (may-write) analysis over points-to regions',
     'Decides the may-write set of every public query over all paths and all callees; covers writes, not the values computed.')
prop('C03', 'Copied, assigned, subdivided and rebuilt splines are independent',
     'A spline obtained by copy construction, copy assignment, subdivision, or construction from knot vectors, degrees and '
     'control points shares no modifiable storage with the spline or the data it came from. Refining, reducing or '
     'otherwise changing one of them never changes the other.',
     ['histories', 'inputs'], 'every spline type and dimension, every later sequence of modifications of either object',
     'Tests modify one copy in one dimension and look at the other for a few operations; sharing may sit in any component (one knot vector, weights) and show only after a particular later operation.',
     ['src/spl/spline.h', 'src/spl/b_spline.h', 'src/spl/nurbs.h', 'src/spl/parameter_space.h', 'src/spl/physical_space.h', 'src/spl/weighted_physical_space.h'],
     [('deep copies in copy constructors and assignment operators', 'src/spl/parameter_space.h'), ('spaces created per spline', 'src/spl/b_spline.h')],
     'interprocedural sharing (points-to/escape) analysis',
     'Decides reachability between result and source for all paths; construction from a generator object, which hands its spaces over by design, is excluded.')
VALUE = 'abstract interpretation: closed-form value summaries with symbolic sizes, decided by algebraic and linear entailment'
VNOTE = ('Sound for real arithmetic over all sizes and values; a property is reported violated only when the closed form of the '
         'code and of the statement differ at an assignment satisfying all guards. Floating-point rounding is not modelled.')
prop('C01', 'Evaluation is refused exactly outside the closed knot range',
     'Evaluate and EvaluateDerivative of a B-spline or NURBS throw an error for every parameter that has a coordinate below the '
     'first or above the last knot of its own direction, and never throw for a parameter inside the closed range (both ends '
     'included), whatever the degree, the number of directions or the derivative order.',
     ['inputs'], 'every spline of 1 to 4 parametric dimensions, every parameter, every nonnegative derivative order',
     'Tests try a few parameters of one or two directions; the guard must hold for each direction, each end and values arbitrarily close to the ends.',
     ['src/spl/spline.h', 'src/spl/nurbs.h', 'src/spl/parameter_space.h', 'src/baf/knot_vector.cc'],
     [('Spline::ThrowIfParametricCoordinateOutsideKnotVectorRange', 'src/spl/spline.h'), ('ParameterSpace::ThrowIfParametricCoordinateOutsideKnotVectorRange', 'src/spl/parameter_space.h'),
      ('KnotVector::IsInKnotVectorRange', 'src/baf/knot_vector.cc')], VALUE, VNOTE)
prop('C06', 'Spline equality compares every component',
     'AreEqual of two well-formed B-splines or NURBS with tolerance t is false whenever any degree, the number of knots or of '
     'control points in any direction, the dimension of the control points, or any knot, control point coordinate or weight '
     'differs (by t or more), and is true for a copy of the same spline.',
     ['inputs'], 'every pair of splines of the same kind (1 to 4 parametric dimensions), every tolerance below 1/4',
     'Tests compare a few hand-made pairs; each component at each index has to take part in the comparison.',
     ['src/spl/b_spline.h', 'src/spl/nurbs.h', 'src/spl/parameter_space.h', 'src/spl/physical_space.h', 'src/spl/weighted_physical_space.h', 'src/baf/knot_vector.cc'],
     [('AreEqual', 'src/spl/parameter_space.h'), ('AreEqual', 'src/spl/physical_space.h'), ('AreEqual', 'src/spl/weighted_physical_space.h')], VALUE, VNOTE)
prop('C07', 'Ill-formed spline data is refused at construction, well-formed data accepted',
     'Constructing a parameter space, B-spline, NURBS or generator throws a runtime_error if and only if in some direction there '
     'are fewer than 2p+2 knots or the first or last p+1 knots are not all equal, or the number of control points is not the '
     'product of (number of knots - p - 1), or control points differ in dimension, or (NURBS) the numbers of weights and control '
     'points differ. No ill-formed spline object can come into existence this way.',
     ['inputs'], 'all knot vectors, degrees >= 0, nonempty control point lists and weight lists; 1 to 4 parametric dimensions',
     'Tests construct a few wrong inputs in one direction; the acceptance condition has to be exact in each direction and position.',
     ['src/spl/parameter_space.h', 'src/spl/physical_space.h', 'src/spl/weighted_physical_space.h', 'src/spl/b_spline.h', 'src/spl/nurbs.h', 'src/spl/b_spline_generator.h', 'src/spl/nurbs_generator.h'],
     [('ThrowIfKnotVectorDoesNotStartAndEndWith', 'src/spl/parameter_space.h'), ('PhysicalSpace constructor', 'src/spl/physical_space.h'),
      ('WeightedPhysicalSpace constructor', 'src/spl/weighted_physical_space.h')], VALUE, VNOTE)
prop('C12', 'Knot vector queries and edits follow their definitions',
     'For every nondecreasing knot sequence: GetKnotSpan returns the index s with U[s] <= u < U[s+1] (for the last knot, the last '
     'span of positive length); InsertKnot adds exactly one knot at its sorted place and keeps the others in order; RemoveKnot '
     'removes exactly one occurrence of the given knot; GetMultiplicity and GetNumberOfDifferentKnots count correctly; range tests '
     'use the closed interval; the averaging constructor yields n+p+1 knots, p+1 equal ones at each end and averages of p '
     'consecutive parameters between.',
     ['inputs'], 'every length, knots, multiplicities and parameter in the range (the last knot itself or at least 1e-9 below it)',
     'Tests use a few fixed knot vectors; off-by-one errors show only for particular multiplicities or positions.',
     ['src/baf/knot_vector.cc', 'src/baf/knot_vector.h'],
     [('GetKnotSpan', 'src/baf/knot_vector.cc'), ('InsertKnot', 'src/baf/knot_vector.cc'), ('RemoveKnot', 'src/baf/knot_vector.cc')], VALUE, VNOTE)

prop('C11', 'Control points and weights sit at their mixed-radix place',
     'A multi-index of 1 to 4 directions is numbered with the first direction running fastest; ++ and -- move to the next and '
     'previous tuple with carry, postfix ++ yields the old tuple, + i and - i step i times, ExtractDimension numbers the tuple '
     'without one direction. A control net stores given control points and weights in that order; setting one control point or '
     'weight (also with another length of one direction) changes exactly that one; homogeneous points are weighted coordinates '
     'followed by the weight.',
     ['inputs'], 'all lengths, all indices, all point dimensions, 1 to 4 parametric dimensions',
     'Tests use two or three small equal-sized nets; swapped strides or carries only show with different lengths per direction.',
     ['src/util/multi_index_handler.h', 'src/spl/physical_space.h', 'src/spl/weighted_physical_space.h', 'src/baf/control_point.cc'],
     [('Get1DIndex', 'src/util/multi_index_handler.h'), ('operator++', 'src/util/multi_index_handler.h'),
      ('SetControlPoint', 'src/spl/physical_space.h'), ('GetHomogenousControlPoint', 'src/spl/weighted_physical_space.h')], VALUE, VNOTE)
prop('C09', 'Basis functions obey the Cox-de Boor recursion for current knots and degrees',
     'Evaluate of basis function i of degree p is the indicator of its half-open knot span for p = 0 (closed at the last knot) and '
     'the Cox-de Boor combination of functions i and i+1 of degree p-1 otherwise (quotients with zero denominator count as zero); '
     'EvaluateDerivative follows the derivative recursion; both vanish outside the support. A parameter space evaluates, in each '
     'direction, the basis functions of its current knots and degree: after construction, copying, knot insertion and removal, '
     'degree elevation and reduction; the nonzero ones start p spans before the span of the parameter.',
     ['inputs', 'histories'], 'every knot vector (distinct knots at least 1e-9 apart), degree, index, parameter and derivative order; spaces of 1 to 3 dimensions',
     'Tests evaluate a few basis functions of low degree at a few points; partition of unity, locality and everything evaluated from them rest on the recursion for all degrees and multiplicities.',
     ['src/baf/basis_function.cc', 'src/baf/b_spline_basis_function.cc', 'src/baf/zero_degree_b_spline_basis_function.cc', 'src/baf/basis_function_factory.cc', 'src/spl/parameter_space.h'],
     [('EvaluateOnSupport', 'src/baf/b_spline_basis_function.cc'), ('IsCoordinateInSupport', 'src/baf/basis_function.cc'), ('RecreateBasisFunctions', 'src/spl/parameter_space.h')],
     VALUE + '; induction over the degree', VNOTE)
prop('C10', 'Evaluation combines control points, weights and basis functions exactly once',
     'Evaluate yields, for every parameter in the knot range, the sum over the (p+1) nonzero basis functions of each direction of '
     'basis function times control point, at the control points that belong to these functions; a NURBS multiplies each term with '
     'the weight and divides by the sum of the weighted basis functions. EvaluateDerivative of a B-spline is the same sum with the '
     'derivatives of the basis functions of the requested orders; for a NURBS it satisfies the product rule for weight sum and point.',
     ['inputs'], 'every knot vector, degree, control net, weights, coordinate and parameter; B-splines and NURBS of 1 to 3 dimensions; any B-spline derivative order, NURBS orders up to 3 (1D), 1+2 (2D)',
     'Tests evaluate a few small splines with equal degrees per direction; the formula has to hold for all spans, degrees and mixed orders.',
     ['src/spl/spline.h', 'src/spl/b_spline.h', 'src/spl/nurbs.h', 'src/spl/parameter_space.h'],
     [('Evaluate', 'src/spl/spline.h'), ('EvaluateDerivative', 'src/spl/spline.h'), ('GetRationalBasisFunctionDerivative', 'src/spl/nurbs.h')],
     VALUE, VNOTE)
prop('C13', 'Knot insertion replaces the control net by the combinations of Boehm',
     'Inserting a knot u once keeps the degrees and the other directions, adds u at its sorted place, and adds one layer of '
     'control points in that direction: points whose support ends before u stay, points whose support starts after u move up by '
     'one, and the p - s in between (s the multiplicity) are a_k P_k + (1 - a_k) P_(k-1) with a_k = (u - U_k) / (U_(k+p) - U_k) '
     'from the old knots, in homogeneous coordinates for a NURBS, whose weights follow the same rule. Inserting it twice at once '
     'gives the result of two insertions.',
     ['inputs'], 'every degree, knot vector, multiplicity, control net, weights and parameter; B-splines and NURBS of 1 to 3 dimensions, any direction',
     'Tests insert a few knots into a few quadratic or cubic splines; the geometry is preserved only if the coefficients are exact for all positions and multiplicities.',
     ['src/spl/spline.h', 'src/spl/b_spline.h', 'src/spl/nurbs.h', 'src/spl/physical_space.h', 'src/spl/weighted_physical_space.h', 'src/spl/parameter_space.h', 'src/baf/knot_vector.cc'],
     [('InsertKnot', 'src/spl/spline.h'), ('AdjustControlPoints', 'src/spl/b_spline.h'), ('AdjustControlPoints', 'src/spl/nurbs.h')], VALUE, VNOTE)
prop('C05', 'A refused knot removal changes nothing, an accepted one removes one knot',
     'RemoveKnot with any tolerance either returns 0 and leaves degrees, knots, control points and weights as they were, or '
     'removes exactly one occurrence of the knot and one layer of control points in that direction; control points and weights '
     'whose support does not contain the knot stay or move down by one place, other directions keep their knots and number of points.',
     ['inputs', 'histories'], 'every knot vector, control net, weights and tolerance >= 0; degrees 1 to 3, simple interior knots; curves and surfaces',
     'Tests remove a few removable knots and one that is not; a refused removal must not leave a half-changed spline for any data.',
     ['src/spl/spline.h', 'src/spl/b_spline.h', 'src/spl/nurbs.h', 'src/spl/physical_space.h', 'src/spl/parameter_space.h'],
     [('RemoveKnot', 'src/spl/spline.h'), ('RemoveControlPoints', 'src/spl/b_spline.h'), ('RemoveControlPoints', 'src/spl/nurbs.h')], VALUE, VNOTE)
prop('C14', 'Degree elevation yields the elevated net, reduction undoes it or changes nothing',
     'Elevating a single-segment spline by one degree in one direction yields control points Q_i = i/(p+1) P_(i-1) + (1 - i/(p+1)) '
     'P_i (in homogeneous coordinates for a NURBS), one more of each different knot, and leaves degree, knots and number of points of '
     'the other directions. Reducing the degree right after elevating it succeeds for every positive tolerance and restores the '
     'spline exactly. Any reduction either returns false and leaves degree, knots, control points and weights as they were, or '
     'lowers the degree by one, keeps the first and last control point and weight, and removes one of each different knot.',
     ['inputs', 'histories'], 'every control net, positive weights, end knots, point dimension and tolerance; degrees 1 to 3, curves (quick) and surfaces (thorough), one segment',
     'Tests elevate a few fixed splines and compare the geometry with a tolerance; coefficients and refused reductions have to be right for all nets.',
     ['src/spl/spline.h', 'src/spl/b_spline.h', 'src/spl/nurbs.h', 'src/spl/parameter_space.h', 'src/baf/knot_vector.cc'],
     [('ElevateDegreeForDimension', 'src/spl/spline.h'), ('ReduceDegreeForDimension', 'src/spl/spline.h'), ('DegreeReduceBezierSegment', 'src/spl/spline.h')], VALUE, VNOTE)
prop('C15', 'Vector and control point operations compute their definitions',
     'For vectors of every length: ComputeDifference, ScaleVector, FilterVector and the + - * of control points work element by '
     'element and leave their arguments alone; ComputeScalarProduct, ComputeTwoNorm, ComputeDistance and GetEuclideanNorm are the '
     'sum of products and the roots of the sums of squares; CrossProduct is the right-handed cross product; FilterVector throws '
     'for a position beyond the end; SetValue changes one coordinate; Transform scales, rotates and translates a point.',
     ['inputs'], 'all lengths, entries, factors, positions and transformation matrices',
     'Tests check one or two short vectors; wrong bounds or swapped entries can cancel in such samples.',
     ['src/util/vector_utils.h', 'src/baf/control_point.cc'],
     [('CrossProduct', 'src/util/vector_utils.h'), ('FilterVector', 'src/util/vector_utils.h'), ('Transform', 'src/baf/control_point.cc')], VALUE, VNOTE)
prop('C16', 'Generated surfaces, squares and element lists follow their curves and knots',
     'Joining two curves yields the surface with their degrees and knots, control points T_i + C_j and weights t_i c_j. A square of '
     'degree p with m knots per direction has uniform clamped knots over [0,1] and a uniform grid of (m-p-1)^2 control points over '
     '[-1,1]^2. The element list of a direction contains exactly the spans of positive length of its knot vector, in order, with '
     'their bounds.',
     ['inputs'], 'every pair of curves, degree >= 1 and number of knots, B-spline of 1 or 2 dimensions',
     'Tests build a few symmetric examples; swapped directions show only for different curves.',
     ['src/spl/surface_generator.cc', 'src/spl/square_generator.cc', 'src/util/element_generator.h'],
     [('JoinPhysicalSpaces', 'src/spl/surface_generator.cc'), ('CreateSquare', 'src/spl/square_generator.cc'), ('GetElementList', 'src/util/element_generator.h')], VALUE, VNOTE)
prop('C17', 'A file read back yields the splines that were written',
     'XMLReader yields for a file of XMLWriter the same number of splines with the same degrees, knots, control points and weights '
     '(1 to 4 parametric dimensions, rational or not, several splines per file). IRITWriter writes, for every spline, orders, knots '
     'and points (weights first, points in homogeneous form) in the order of the format. IGESReader yields from the parameter data '
     'of IGESWriter the same degrees, knots, weights and three-dimensional points, and reads nothing beyond that data.',
     ['inputs'], 'every spline with 1 to 4 (XML), 1 to 3 (IRIT) or 1 to 2 (IGES) parametric dimensions; numbers taken as written',
     'Tests read back a few small files; swapped offsets of orders, knots, weights or points can cancel for symmetric samples.',
     ['src/io/xml_writer.cc', 'src/io/xml_reader.cc', 'src/io/irit_writer.cc', 'src/io/iges_writer.cc', 'src/io/iges_reader.cc', 'src/util/any_casts.h'],
     [('WriteFile', 'src/io/xml_writer.cc'), ('ReadFile', 'src/io/xml_reader.cc'), ('WriteFile', 'src/io/irit_writer.cc'), ('Create2DSpline', 'src/io/iges_reader.cc')], VALUE,
     VNOTE + ' Texts are sequences of numbers and fixed words here: rounding and layout of characters are C23 (not applicable).')
prop('C18', 'Reading and evaluating a spline stays inside its containers',
     'No subscript leaves its container, for every well-formed B-spline or NURBS and every admissible index or parameter: when '
     'control points and weights are read or set, splines are copied, constructed or refused for their arguments, knot spans searched, basis functions created, '
     'points and first derivatives evaluated, element lists built and points added, subtracted or scaled.',
     ['inputs'], 'every degree, number of control points, knot vector and parameter in the range; 1 to 3 parametric dimensions for reading, 1 to 2 for evaluating',
     'An access one element too far is silent in ordinary runs, and happens only for certain sizes, degrees or knot multiplicities.',
     ['src/spl/physical_space.h', 'src/spl/weighted_physical_space.h', 'src/spl/spline.h', 'src/spl/parameter_space.h', 'src/baf/basis_function_factory.cc', 'src/baf/basis_function.cc', 'src/baf/knot_vector.cc', 'src/util/element_generator.h', 'src/baf/control_point.cc'],
     [('GetControlPoint', 'src/spl/physical_space.h'), ('Evaluate', 'src/spl/spline.h'), ('GetKnotSpan', 'src/baf/knot_vector.cc'), ('CreateDynamic', 'src/baf/basis_function_factory.cc')], VALUE,
     VNOTE + ' Subscripts (operator[], at) are checked, iterators are not.')
NAV = ['inputs']
prop('C20', 'Rounding errors of evaluation stay small',
     'Evaluated points and derivatives differ from the exact value of the spline by a small multiple of the machine precision times the size of the control net.',
     NAV, 'all splines and parameters', 'Tests compare a few values with fixed tolerances.', ['src/spl/spline.h', 'src/baf/b_spline_basis_function.cc'],
     [('Evaluate', 'src/spl/spline.h')],
     na='The size of rounding errors depends on run-time magnitudes of knots, weights and points; no bound holds for all of them, so there is nothing a sound static argument could establish.')
prop('C21', 'Approximate knot removal and degree reduction keep the shape within tolerance',
     'A knot removal or degree reduction that is accepted with tolerance t changes no point of the geometry by more than t.',
     NAV, 'all splines, knots and tolerances', 'Tests remove knots that were inserted before.', ['src/spl/spline.h'],
     [('RemoveKnot', 'src/spl/spline.h'), ('ReduceDegreeForDimension', 'src/spl/spline.h')],
     na='The deviation is a nonlinear function of all run-time coordinates, weights and knots (maximum over the parameter range of a rational function); the abstract domain here has no bound for it. What is decidable (nothing changes on refusal, exact undo) is C05 and C14.')
prop('C22', 'Projection finds the closest point of the spline',
     'The projection of a point onto a curve or surface yields a parameter inside the knot range whose point is at least as close as any other point up to the tolerance.',
     NAV, 'all points, curves and surfaces', 'Tests project a handful of points.', ['src/spl/projection.h'],
     [('ProjectionOnSpline', 'src/spl/projection.h'), ('ProjectionOnSurface', 'src/spl/projection.h')],
     na='Convergence of a Newton iteration from a sampled start to the global minimum of a nonconvex function depends on run-time data; no static argument decides it (and it is false for some nets).')
prop('C23', 'Text files are parsed and written character by character as the formats define',
     'Tokenising, column layout, line breaks, escaping and the decimal rounding of numbers in IGES, IRIT, XML and VTK files follow the definitions of these formats.',
     NAV, 'all files', 'Tests read and write a few sample files.', ['src/io/iges_writer.cc', 'src/io/iges_reader.cc', 'src/io/irit_reader.cc', 'src/util/string_operations.h'],
     [('split', 'src/util/string_operations.h')],
     na='Needs a string domain that tracks characters, regular expressions and decimal rounding of arbitrary doubles; the analysis abstracts texts away, so it cannot decide this.')
prop('C24', 'Random splines are drawn from the whole requested parameter ranges',
     'Random spline generators produce every admissible degree, number of points and coordinate range with positive probability.',
     ['programs'], 'all random number sequences', 'A test sees one sequence.', ['src/spl/random_spline_utils.h', 'src/util/random.h'],
     [('GetUniformRandom', 'src/util/random.h')],
     na='A statement about probability distributions of a run-time generator; nothing in the source short of the library generator decides it.')
