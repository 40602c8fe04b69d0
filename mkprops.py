import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(title,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
M="src/sympkf/model/model.py"; R="src/sympkf/symbolic/random.py"; U="src/sympkf/symbolic/util.py"; K="src/sympkf/symbolic/pkfcas.py"; F="src/sympkf/symbolic/finite_difference.py"; B="src/sympkf/symbolic/model_builder.py"; BF="src/sympkf/symbolic/model_builder_FD.py"; BM="src/sympkf/symbolic/model_builder_manifold.py"; T="src/sympkf/symbolic/templates/"

prop("C01","Each time scheme performs its exact textbook step and spoils nothing",
 "For every trend, time, state and time step, one step of the Euler, midpoint RK2, classical RK4 and leapfrog schemes equals the textbook formula (the stages being evaluated at the textbook times and states), and a splitting step is the composition, in the given order, of the full-step update or scheme step of every entry over the same time and time step. A step leaves its argument state(s), and the arrays the trend returned, unmodified.",
 ["inputs"],"all trends (linear, nonlinear, time dependent, returning aliases), states, times and time steps; all splitting lists",
 "No test touches the numerical model; a wrong stage time or weight only shows on time-dependent or nonlinear trends, aliasing only when the state is reused.",
 [M],[("Model._euler/_rk2/_rk4/_leapfrog/_time_splitting","static methods used as time_scheme")],observe=["value returned by model.time_scheme(trend, t, state, dt)","arguments after the call"])
prop("C02","Forecast and predict return exactly the iterated step map at saved times",
 "For every model, time window of pairwise distinct times, initial state and set of saved times, forecast returns a dictionary whose keys are exactly the window times that belong to the saved times (all of them by default; a single float is accepted), each mapped to the state obtained by iterating the selected one-step scheme from the initial state over the successive window intervals up to that time. predict returns these same states stacked in time order. Which times are saved never changes the values, and neither the initial state nor an already saved state is modified by the rest of the integration.",
 ["inputs","histories"],"all windows (irregular, one-element, decreasing, list or array), saved times, initial states, schemes including leapfrog and splitting",
 "No test runs a forecast; the last time, empty saved sets, irregular steps and aliasing need every window, not a sample.",
 [M],[("Model.forecast","loop over consecutive window times"),("Model.predict","same loop, list output"),("Model._check_saved_times","default and scalar saved times")],observe=["returned dictionary / array"])
prop("C03","Ensemble, tangent-linear and resolvent forecasts agree with single forecasts",
 "For every ensemble, ensemble_forecast returns for each saved time the list, in member order, of what forecast gives for each member, and the parallel and serial executions return the same. forecast_tl returns the reference forecast and, for each saved time, in order, the difference quotient (M(x+h*p)-M(x))/h of each perturbation p. For a linear model, the matrix returned by make_M over a window, applied to any state, equals the forecast of that state at the end of the window.",
 ["inputs","schedules"],"all ensembles (any size, list or generator), saved times, pool sizes, perturbations and increments h, linear models (non symmetric)",
 "No test covers ensembles; order and pairing errors appear only for several distinct members and several times, a transposed resolvent only for non-symmetric dynamics.",
 [M],[("Model.ensemble_forecast","per-member forecasts gathered per time"),("Parallel.run","pool.map"),("Model.forecast_tl","difference quotients"),("LinearModel.make_M","forecasts of Diracs")],observe=["returned dictionaries, matrix"])
prop("C04","Time windows are the regular grid up to the end; schemes select safely",
 "For every start, end and positive time step, window(end,start) is the list of the times start+k*dt (k=0,1,..) that are less than end+dt/3, so that it contains the end time exactly once as last element whenever end is a whole number of steps after start. Selecting a time scheme by name, in the constructor or later, makes all following integrations use that scheme (rk4 by default); an unknown name is rejected with ValueError and leaves the current selection unchanged.",
 ["inputs","histories"],"all start/end/dt and all sequences of scheme selections",
 "Not tested; floating accumulation makes off-by-one windows depend on the number of steps and on dt.",
 [M],[("Model.window","np.arange(start, end+dt/3, dt)"),("Model.set_time_scheme","dictionary lookup")],state=[("time_scheme","selected scheme","Model.set_time_scheme")])
prop("C05","Expectation is linear, idempotent and commutes with derivatives and integrals",
 "For every expression built from random and deterministic fields, Expectation denotes the mean: it distributes over sums, takes deterministic factors out, returns deterministic expressions (in particular expectations) unchanged, acts on both sides of equations and on each entry of matrices, and commutes with every (mixed, higher order, multiple) derivative and (deterministically bounded) integral in space and time without losing any variable or order. israndom is true exactly for the expressions in which the random variable omega occurs outside any expectation.",
 ["inputs"],"all expressions over fields, symbols, sums, products, powers, derivatives, integrals, equations and matrices, nested at will",
 "Tests cover a few hand-written expressions with single derivatives; mixed derivatives and nesting are not sampled.",
 [R],[("Expectation.eval","recursive rewriting"),("Expectation.has","hides omega"),("israndom","structural recursion")])
prop("C06","Multi-indices: each notation round-trips, each degree enumerated once",
 "For every coordinate system, the tuple, couples and sequence notations of a partial derivative are interchangeable: each given notation builds the multi-index whose tuple, couples and sequence views all denote the same order of derivation in each coordinate, and anything else raises TypeError. all_of_degree(coordinates, n) yields every multi-index of total degree n exactly once and nothing else.",
 ["inputs"],"all numbers of coordinates, degrees, multi-indices, permuted or repeated couples and sequences",
 "Tests check one two-coordinate multi-index; enumeration is not tested in any dimension or degree.",
 [K],[("PartialOrderDerivative._builder and is_as_*/_set_from_*","notation dispatch"),("PartialOrderDerivative.all_of_degree","generation by moving orders")])
prop("C07","Univariate rewriting tree is sound, complete and history independent",
 "For every random field and degree, the tree of degree d replaces every E[D^a eps D^b eps] with |a|,|b|>=1 and |a|+|b|<=d by an expression that is identically equal to it and that only involves terms E[eps D^c eps] and their derivatives. The tree for a degree does not depend on which degrees were requested before.",
 ["inputs","histories"],"all dimensions, degrees, pairs of multi-indices and request sequences",
 "Only one low-degree tree is exercised, indirectly, in one dimension.",
 [K],[("UnivariateTree._add_tree_level","Leibniz rule and isolation"),("UnivariateTree.__call__","levels up to a degree")],state=[("_levels/_tree/_degree","computed levels","UnivariateTree")])
prop("C08","Equation algebra acts equally and correctly on both sides",
 "For equations a=b and c=d and a scalar s, the sum, difference, opposite and product by s of equations, and the in-place product by a scalar or an equation, give the equations a+c=b+d, a-c=b-d, -a=-b, s*a=s*b, a*c=b*d; subs, doit and expand apply to both sides and return an equation of the same kind (or the truth value if it reduces to one). isolate(x) gives an equation x=r where r does not contain x and which is equivalent to the original when x occurs linearly.",
 ["inputs"],"all sides, scalars, substitutions",
 "Tests check a handful of symbols; degenerate and non-symmetric sides are not sampled.",
 [U],[("Eq.__add__/__sub__/__neg__/__mul__/__imul__/subs/doit/expand/isolate","methods of Eq")])
prop("C09","PDE system sorts every function and symbol into its right role",
 "For every system of evolution equations, the prognostic functions are exactly the functions differentiated in time, in equation order; every other field is a constant function if its arguments do not include time and an exogenous function otherwise, so that these three sets partition the fields. The constants are exactly the symbols of the right-hand sides that are neither coordinates nor trainable scalars, trainable scalars and derivatives of the right-hand sides are all listed, and the coordinates are time first then the spatial coordinates.",
 ["inputs"],"all systems: any number of equations, dimensions, constant/exogenous fields with any arguments, constants, trainable scalars",
 "Tests build two systems; argument orders, several equations and mixed dimensions are not sampled.",
 [U],[("PDESystem._get_*","set computations over atoms")])
prop("C10","Finite differences are second-order consistent on the regular grid",
 "For every expression (linear or not) in the partial derivatives, of any order and mixing, of fields of any coordinates, the finite-difference version contains no derivative, only evaluates the fields at points shifted by integer multiples of the coordinate increments, and tends to the original with an error of second order in the increments. The result does not depend on the names of the coordinates, nor on the order in which the derivatives are found, and applies to each right-hand side of a system while leaving the left-hand sides unchanged.",
 ["inputs","configurations"],"all derivative orders and mixes, nonlinear combinations, coordinate names, hash seeds",
 "Tests check single pure derivatives of low order; composition, mixing and name clashes are not sampled.",
 [F,U],[("get_subs_derivative","choice of the points"),("finite_difference","substitution by decreasing order"),("get_function_coordinates","coordinate/increment recognition")])
prop("C11","Generated model trend equals the equations with periodic differences",
 "For every PDE system whose right-hand sides are built from its fields, constants, elementary functions and spatial derivatives, the numerical model generated for it computes, for every state, grid and constants, as trend of each prognostic field the right-hand side in which each field takes its value at the grid point and each derivative is replaced by its finite-difference version with periodic shifts. State components are ordered as the equations, constant functions and exogenous fields take the values supplied to the model, the state is not modified, and the ready-made Burgers parametric Kalman filter model is such a model.",
 ["programs","inputs"],"all PDE systems in scope (dimension 1 to 3, several fields, LaTeX names) and all states, shapes, lengths, constants",
 "The tests never execute generated code.",
 [B,BF,T+"body_FDModelBuilder.py",T+"footer.py",T+"header.py",F,"src/sympkf/dynamics/burgers.py"],[("ModelBuilder._make_pseudo_algebaraic_system","names for derivatives"),("ModelBuilder._make_trend_code","trend lines"),("MetaDerivative._set_as_code","stencil code"),("footer template","trend method")])
prop("C12","Generated model sets up a consistent periodic grid and constants",
 "For every shape and lengths (100 points and length 1 per coordinate by default, and wrong numbers rejected by ValueError) a generated finite-difference model has grid steps length/points, axes x=k*dx, mesh arrays X with the shape of the fields and X[c] varying along the axis of coordinate c, and index(c,k) is (i+k) modulo the number of points for every shift, whatever was requested before. Each constant and constant function takes the value of its keyword argument and is nan otherwise, and the time scheme given by keyword is used, also by models built for an abstract manifold, where each derivative is delegated to the manifold with its function and orders.",
 ["inputs","histories","programs"],"all shapes, lengths, request sequences of shifts, constants",
 "The tests never execute generated code.",
 [T+"body_FDModelBuilder.py",T+"body_ManifoldModelBuilder.py",T+"header.py",BM],[("__init__ template","grid, constants"),("index template","cached shifts")],state=[("_index","cache of shifted indices","body_FDModelBuilder.py")])
prop("C13","PKF statistics equations are exact consequences of the error dynamics",
 "For every PDE system, the equations derived for the mean, errors, variances, cross-covariances, normalized errors, standard deviations and metric tensors hold exactly for every random field whose mean follows the second-order averaged dynamics and whose error follows the tangent-linear dynamics. Each list contains one evolution equation, free of time derivatives on its right-hand side, per field (per pair of fields, per upper-triangular tensor component); the statistics known from the variances, covariances and metric (centering, normalization, flatness, E[D_i eps D_j eps], E[eps D_ij eps], E[eps D_ijk eps]) never remain as expectation terms, and the covariance of two fields does not depend on their order.",
 ["programs","inputs"],"all PDE systems (fields, dimensions, orders, nonlinearities) and all random fields",
 "Tests compare one Burgers system with a stored result; multivariate, multidimensional and strongly nonlinear systems are not checked.",
 [K,R],[("SymbolicPKF.*_system","derivation chain"),("SymbolicPKF._apply_internal_closure","rewriting of univariate terms"),("Field.internal_closure","known statistics")])
prop("C14","Metric, aspect and diffusion formulations describe the same dynamics",
 "For every PDE system (and closure), the systems in metric, in aspect and in diffusion contain the same mean, variance and cross-covariance equations, expressed with g, with g=s^{-1} and with g=(2 nu)^{-1} respectively, and tensor equations that are exactly equivalent through s=g^{-1} and nu=g^{-1}/2. No metric component is left in the aspect or diffusion systems, and expectations of the fields are replaced by the fields.",
 ["programs","inputs"],"all PDE systems and closures, dimensions 1 and 2 (3 for the algebra), several fields",
 "Tests compare only the one-dimensional univariate Burgers system.",
 [K],[("SymbolicPKF.in_metric/in_aspect/in_diffusion","change of tensor"),("SymbolicPKF._clean_system_from_expectation","mean fields")])
prop("C15","Closures take effect whatever was computed before, and only where set",
 "After any sequence of closures given to the constructor or to set_closure, and of reads of the systems, the metric, aspect and diffusion systems and the unclosed terms are those of the accumulated closure, as if it had been given from the start; a closed term no longer appears among the unclosed terms. The dictionary given by the caller is not modified, later changes of it do not matter, other filters are not affected, and repeated reads return equal systems.",
 ["histories"],"all sequences of set_closure and reads over several filters sharing a closure dictionary",
 "Tests never read a system before and after setting a closure.",
 [K],[("SymbolicPKF.set_closure","update and cache reset"),("SymbolicPKF.closure","accumulated closure")],state=[("_closure,_system_in_*","closure and cached systems","SymbolicPKF")])
prop("C16","Analytic closures are the correlation's derivatives at zero separation",
 "For every field, order and history of requests, the closure of a heterogeneous-Gaussian or locally-Gaussian correlation gives, for every multi-index a with |a| up to the order, a value for E[eps D^a eps] equal to the derivative of order a, with respect to the second point, of the correlation function at coinciding points. Writing it in the metric (where offered) gives for order two the opposite of the metric component and, for the others, the same closure with the aspect tensor replaced by the inverse metric tensor, and does not alter the closure in aspect; the locally-Gaussian correlation in metric has that metric.",
 ["inputs","histories"],"all orders, multi-indices, tensors and request sequences (dimension 1; dimension 2 where computable)",
 "No test covers closures.",
 [K],[("Closure.taylor","Taylor expansion"),("Closure.closure_by_order","coefficients times factorials"),("Closure.in_metric_by_order","aspect to metric"),("LocGaussianClosure.correlation","local Gaussian")],state=[("_order,_taylor,_closure_by_order","caches","Closure")])
prop("C17","Field code names are valid and displaced fields render to their grid shift",
 "clean_latex_name removes every backslash and brace, replaces every '^' and ',' by '_' and keeps all other characters in order, so that it is idempotent. The code of a field displaced by integer numbers of increments is its clean name, tagged m|k| or pk for a time shift k, followed, if and only if some spatial shift is nonzero, by an index expression listing every spatial coordinate (clean name) in order with its shift; a displacement off the regular grid is rejected, and code of an expression is obtained by replacing exactly the fields and increments.",
 ["inputs"],"all strings; all fields, coordinates, displacements, expressions",
 "Tests render three functions.",
 ["src/sympkf/symbolic/tool.py",F],[("clean_latex_name","character replacements"),("code_regular_function / Code._render_function","rendering"),("code_finite_difference","replacement in an expression"),("get_displacement","shift extraction")])
prop("C18","Coordinate systems and expression tools compute what they name",
 "For every coordinate system, gradient gives the vector of first derivatives in coordinate order, div the sum of the derivative of each component in its coordinate, and both raise ValueError exactly when a field involved does not depend on all the coordinates. The partial orders and total order of a derivative, the trend of an equation, the upper triangle of a matrix (row by row), and the common and specific terms of two expressions are returned exactly.",
 ["inputs"],"all coordinate systems, fields, vectors, derivatives, equations, matrices, pairs of expressions",
 "Tests check one two-dimensional gradient and divergence.",
 [U],[("CoordinateSystem.gradient/div/is_compatible","field operators"),("get_derivative_partial_orders/get_total_order/get_trend","derivative inspection"),("upper_triangle","matrix"),("CompareExpression","comparison")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
print(len(P))
