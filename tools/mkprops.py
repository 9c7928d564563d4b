#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list of properties, one JSON object per line)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mechanism,state=(),observe=(),hook=None):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mechanism],observe_at=list(observe),hook_needed=hook)))
L="qmat/lagrange.py"
prop("C01","Interpolation matrices reproduce every polynomial of degree below n",
 "For any n distinct points (in any order) and any evaluation times, including times that coincide with points, the interpolation matrix applied to the point values of any polynomial of degree < n gives that polynomial's values at those times, and the row of a time equal to a point is the indicator of that point. This holds for every weight-computation algorithm, scaling reference and scaling option, and calling the approximation as a function gives the same values in the shape of its argument.",
 ["inputs","configurations"],"all n >= 1, all sets of n distinct points, all times, all weight options",
 "tests draw a few random sorted point sets with n <= 8 and times that never hit a point; no other n, order, coincidence or option combination is reached",
 [L],[("barycentric weights in three algorithms with overflow fallback","LagrangeApproximation.__init__"),("barycentric formula with coincidence handling","LagrangeApproximation.getInterpolationMatrix"),("function-style evaluation","LagrangeApproximation.__call__")],
 [("weights","barycentric weights, equal to the analytic ones up to one common non-zero factor","LagrangeApproximation.weights")],["getInterpolationMatrix","__call__","weights"])
prop("C02","Integration matrices integrate every polynomial of degree below n exactly",
 "For any n distinct points and any list of intervals (forward, backward, empty, or outside the points), the integration matrix applied to the point values of a polynomial of degree < n gives its exact integral over each interval, in the order of the list. This holds for every available quadrature rule, and the built-in Fejer rule with any number of points integrates exactly all polynomials of degree below that number.",
 ["inputs","configurations"],"all n, point sets, interval lists and quadrature rules",
 "tests sample random points with n <= 8 and intervals starting at 0; the parity-dependent rule size and the Fejer construction are only reached for these n",
 [L],[("rule size chosen from n and its parity","LagrangeApproximation.getIntegrationMatrix"),("Fejer weights by inverse DFT","computeFejerRule")],
 [],["getIntegrationMatrix","computeFejerRule"])
prop("C03","Derivative matrices differentiate every polynomial of degree below n",
 "For any n distinct points, the first (second) derivative matrix applied to the point values of a polynomial of degree < n gives the values of its first (second) derivative at the points, whatever the common scaling of the barycentric weights. Asking for both orders at once returns the two matrices that the separate requests return.",
 ["inputs","configurations"],"all n, point sets and weight options",
 "tests use one random sorted point set per n <= 8",
 [L],[("off-diagonal formula and negative-row-sum diagonal","LagrangeApproximation.getDerivativeMatrix")],[],["getDerivativeMatrix","getDerivationMatrix"])
prop("C04","Repeated points change only where the coefficients are placed",
 "When points are repeated, in any order and multiplicity, each interpolation, integration and derivative matrix equals the matrix of the distinct points with every column placed at the first (or, on request, the last) occurrence of its point and zeros at all other occurrences. Hence applying it to values that agree on repeated points gives exactly the result for the distinct points, and asking to ignore repetitions returns the matrix of the distinct points.",
 ["inputs"],"all point lists with any repetition pattern, both placement strategies",
 "tests only repeat a whole sorted list two to four times, so first and last occurrences are always contiguous blocks",
 [L],[("occurrence bookkeeping","LagrangeApproximation._setupDuplicates"),("column expansion and zeroing","LagrangeApproximation._handleDuplicates")],
 [("first/last occurrence indices","columns that keep the coefficients","LagrangeApproximation")],["getInterpolationMatrix","getIntegrationMatrix","getDerivativeMatrix","hasDuplicates","nUniquePoints"])
prop("C05","Sparse interpolation is exact, local, scale-free and periodic",
 "For any grid of distinct points (uniform or not, at any length scale), any targets and any order p up to the grid size, each row of the sparse interpolation matrix uses at most p entries, placed on p closest grid points, and reproduces every polynomial of degree < p at the target. With a grid period (the grid lying within one period, wherever it starts), closeness is measured to the periodic images, moving a target by a whole number of periods leaves its row unchanged and constants are reproduced.",
 ["inputs"],"all grids, length scales, targets, orders and periods",
 "tests use seven fixed uniform grids of unit scale and orders up to 4",
 [L],[("closest-point selection, row reuse between targets","getSparseInterpolationMatrix")],[("last row computed","row reused when the relative geometry repeats","getSparseInterpolationMatrix")],["getSparseInterpolationMatrix"])
N="qmat/nodes.py"
prop("C06","Quadrature nodes are the prescribed nodes for every count",
 "For every node distribution, quadrature type and admissible number of nodes, the generated nodes are strictly increasing, lie in [-1, 1], contain exactly the end points the quadrature type prescribes, and are the equidistant points or the roots of the distribution's orthogonal polynomial modified so that it vanishes at the prescribed end points. The recurrence coefficients and polynomial evaluations that define them are those of the named family, and unsupported names or counts are rejected.",
 ["inputs","configurations"],"all 24 distribution/type pairs, every number of nodes",
 "tests compare n = 2..5 Gauss nodes with closed forms and one n = 1000 asymptotic bound of 0.01; Radau and Lobatto interior nodes are never compared",
 [N],[("three-term recurrence tables","NodesGenerator.getOrthogPolyCoefficients"),("recurrence evaluation loop","NodesGenerator.evalOrthogPoly"),("boundary modification","NodesGenerator.getTridiagCoefficients"),("eigenvalues and boundary overwrite","NodesGenerator.getNodes")],
 [],["getNodes","getTridiagCoefficients","evalOrthogPoly","getOrthogPolyCoefficients"])
C="qmat/qcoeff/collocation.py"
prop("C07","Collocation coefficients are exact integrals on any interval",
 "For any number, distribution and type of nodes and any interval, the collocation nodes are the affine image of the reference nodes, hitting an interval end exactly when the quadrature type includes it; each row of Q integrates every polynomial of degree < M from the left end to its node, each row of S between consecutive nodes, the weights over the whole interval. The h coefficients evaluate the interpolating polynomial at the right end of the interval.",
 ["inputs","configurations"],"all node counts, distributions, types and intervals [tLeft, tRight]",
 "every test uses the default interval [0, 1] with M <= 7",
 [C,L,N],[("affine map and boundary safety","Collocation.__init__"),("integration between nodes","Collocation.S"),("right boundary interpolation","Collocation.hCoeffs")],
 [],["Collocation.nodes","weights","Q","S","hCoeffs","rightIsNode"])
prop("C08","Zero-to-node and node-to-node forms are consistent conversions",
 "For every generator and any number of nodes, the node-to-node matrix is the row-difference of the zero-to-node matrix, the transfer matrix and its stated inverse multiply to the identity, and converting back and forth returns the original matrix, for Q and for every QDelta approximation and sweep number. The requested form and the optional outputs are returned in the documented order, and any other form name is rejected.",
 ["inputs","configurations"],"all matrix sizes, all Q and QDelta generators, both forms, all output options",
 "tests use default instances (one size) for Q and the algebraic generators with M <= 4 for QDelta, never comparing SDelta with differences of QDelta independently",
 ["qmat/qcoeff/__init__.py","qmat/qdelta/__init__.py",C],[("T, Tinv, S","QGenerator"),("SDelta","QDeltaGenerator.getSDelta"),("output assembly","QGenerator.genCoeffs, QDeltaGenerator.genCoeffs")],[],["genCoeffs","T","Tinv","S","getSDelta","genQCoeffs","genQDeltaCoeffs"])
B="qmat/qcoeff/butcher.py"
prop("C09","Every Runge-Kutta table attains its claimed order and is consistent",
 "Every registered Runge-Kutta scheme satisfies the row-sum condition (each node is the sum of its row), and its weights satisfy all order conditions up to, but not beyond, the order it reports, on every problem (all rooted-tree conditions); likewise its embedded weights up to the embedded order it reports. Explicit schemes are strictly lower triangular, diagonally implicit ones lower triangular, and published pairs of an additive scheme share nodes.",
 ["programs","inputs"],"all registered schemes, all (also nonlinear and non-autonomous) differential equations",
 "tests integrate one autonomous scalar linear equation, which never reads the nodes and cannot see conditions of nonlinear trees, and tolerate small coefficient errors",
 [B,"qmat/qcoeff/__init__.py"],[("coefficient tables","classes of qmat/qcoeff/butcher.py"),("table checks at registration","checkAndStore"),("order, orderEmbedded","QGenerator")],[],["nodes","weights","weightsEmbedded","Q","order","orderEmbedded"])
prop("C10","Padding a Runge-Kutta table never changes the method",
 "For any Butcher table, adding a stage at the left, the right, or both leaves the step it computes on any linear problem unchanged, keeps the original table as a block, adds a first stage at 0 that no one uses or a last stage at 1 whose row repeats the weights, and keeps primary and embedded weights aligned with the stages. Every instance owns its table: padding it, or writing into its arrays, never changes the unpadded scheme or other instances.",
 ["inputs","programs"],"all tables of any size, all padding choices, all linear problems",
 "tests take one step for three values of lambda on the registered schemes and never look at embedded weights, nodes or the class after padding",
 [B],[("construction of the padded table","RK.__init__")],[("class-level table","shared by all instances","RK subclasses")],["nodes","weights","weightsEmbedded","Q","genCoeffs"])
D="qmat/qdelta/__init__.py"; TS="qmat/qdelta/timestepping.py"; AL="qmat/qdelta/algebraic.py"; DG="qmat/qdelta/diag.py"
prop("C11","Time-stepping QDelta matrices are the sweeps of their time-stepper",
 "For any increasing nodes and any left bound, each time-stepping based matrix together with its dTau coefficients is the exact composition of that scheme's steps from the left bound through the nodes (or from the left bound to each node for the parallel variants): lower triangular, strictly lower for explicit ones, diagonal for parallel ones, with the trapezoidal one the mean of backward and forward Euler. Row sums plus dTau equal the node minus the left bound, so a constant right-hand side is integrated exactly, whatever number type the nodes are given in.",
 ["inputs"],"all node vectors of any length, all left bounds",
 "tests use collocation nodes on [0, 1] with 2 to 6 nodes and never pass a left bound",
 [TS],[("node differences","TimeStepping.__init__"),("diagonal-band accumulation loops","BE, FE, TRAP"),("recurrence over rows","SOE"),("parallel variants","BEPAR, TRAPAR")],[],["getQDelta","dTau","genQDeltaCoeffs"])
prop("C12","Algebraic QDelta matrices are the stated factors of Q",
 "For any square matrix of any size, the algebraic approximations are exactly: zero (Picard), a separate copy of Q (exact), the diagonal of Q, the lower triangle of Q, the transposed upper factor of the LU factorization of the transpose, twice that factor, and the diagonal factor of the LDU factorization. All but the exact one are lower triangular, the LDU one is diagonal, and the given matrix is never modified.",
 ["inputs"],"all square matrices of all sizes",
 "tests draw random 2x2 to 4x4 matrices and only check lower triangularity and agreement of two call styles, not which factor is returned",
 [AL,"qmat/utils/num.py"],[("one formula per class","qmat/qdelta/algebraic.py"),("triangular factorization loops","lduFactorization")],[],["getQDelta","genQDeltaCoeffs"])
prop("C13","Diagonal QDelta families follow their formula and annihilate the sweep",
 "For any nodes and any sweep number k, the node-based diagonal approximations are diagonal with entries node/M, node/divider, node/(2k), node/k for k up to M, or node (then node/(2(k-1)) for k above 1) as their name states, and tabulated ones return the tabulated vector of exactly the requested configuration or refuse. For collocation on any M distinct nodes, the non-stiff choice makes Q - QDelta nilpotent of index M, and the product over k = 1..M of the flexible choice's stiff-limit sweeps vanishes; sweep numbers below 1 are rejected, and no number means the first sweep.",
 ["inputs","configurations"],"all M, all distinct nodes, all sweep numbers",
 "tests sample M <= 7 Legendre/Chebyshev/equidistant nodes and sweep numbers up to M",
 [DG,"qmat/qdelta/mincoeffs.py"],[("closed formulas","MIN_SR_NS, MIN_SR_FLEX, Jumper, FlexJumper, DNODES*"),("table lookup","FromTable.computeQDelta")],[],["getQDelta","genCoeffs","genQDeltaCoeffs"])
prop("C14","Generated coefficients never depend on what callers did before",
 "Whatever sequence of generation calls, cached reads and in-place modifications of arrays returned by generation calls (genCoeffs, getQDelta, genQCoeffs, genQDeltaCoeffs; not an uncopied view asked for with copy=False) came before, a generation call returns the same coefficients as a first call with the same arguments. Generation never modifies the arrays, lists or generator objects given as arguments, nor any other generator's coefficients.",
 ["histories","inputs"],"all call sequences interleaved with arbitrary mutation of returned arrays, all generators",
 "tests never modify a returned array nor reuse an argument after a call that might change it",
 ["qmat/qcoeff/__init__.py",B,D,DG,AL,TS],[("cache of computed matrices and copies","QDeltaGenerator.getQDelta"),("returned arrays","QGenerator.genCoeffs, QDeltaGenerator.genCoeffs"),("argument handling","genQDeltaCoeffs")],
 [("cached matrices","one per sweep number if the approximation depends on it","QDeltaGenerator"),("class-level tables","Butcher tables","RK subclasses")],["getQDelta","genCoeffs","genQCoeffs","genQDeltaCoeffs"])
prop("C15","Multi-sweep generation stacks exactly the per-sweep matrices",
 "For any approximation name or list of names and any number of sweeps, the k-th slice of the generated stack is the matrix that the k-th approximation (the last name repeated when the list is shorter) gives for sweep number k in the requested form, the stack has exactly as many slices as sweeps, and a single name without a sweep count gives a single matrix. Non-positive or non-integer sweep counts, lists longer than the sweep count, empty lists and unknown names are rejected.",
 ["inputs","configurations"],"all name lists, sweep counts, forms and generators",
 "tests mix only the first few algebraic approximations, none of which depends on the sweep number, and never a rejected argument",
 [D],[("argument normalisation and per-sweep dispatch","genQDeltaCoeffs"),("list of sweep numbers","QDeltaGenerator.genCoeffs"),("sweep-dependence detection","register")],[],["genQDeltaCoeffs","genCoeffs"])
prop("C16","A Q-generator argument is equivalent to spelling its parameters out",
 "For every QDelta approximation, passing a Q-generator object gives the same matrices and dTau as passing separately the parameters that approximation needs, taken from that object, including the left bound of its interval. Parameters given explicitly, by position or by name, override the extracted ones, unrelated extra parameters are ignored, and the deprecated argument name behaves the same and cannot be combined with the new one.",
 ["inputs","configurations"],"all QDelta approximations, Q-generators, and subsets of overridden parameters",
 "tests check for one default collocation object that construction works and compare three approximations; overriding and positional use are never exercised",
 ["qmat/utils/__init__.py",D,TS,DG],[("constructor wrapper","useQGen"),("parameter extraction","extractParams of each generator")],[],["genQDeltaCoeffs","constructors of QDelta generators"])
prop("C17","The Dahlquist solver applies the Runge-Kutta step exactly, step after step",
 "For any coefficients, lambda (real or complex), initial value, final time and number of steps, the solver returns nSteps+1 values starting at the initial value, and each next value is the previous one multiplied by 1 + z w^T (I - zQ)^{-1} 1 with z = lambda times the step size, using the embedded weights exactly when asked. The reported error is the largest deviation from the exact exponential over all these times, computed from the given solution when one is given.",
 ["inputs"],"all tables, lambda, initial values, horizons and step counts",
 "tests use u0 = 1, lambda = i and one horizon, and only look at the observed order",
 ["qmat/qcoeff/__init__.py"],[("step loop","QGenerator.solveDahlquist"),("error norm","QGenerator.errorDahlquist")],[],["solveDahlquist","errorDahlquist"])
prop("C18","The SDC solver performs exactly the documented preconditioned sweeps",
 "For any Q, QDelta (one matrix or one per sweep), lambda, initial value and numbers of steps and sweeps, each step starts all nodes from the step's initial value and each sweep k solves (I - z QDelta_k) u_new = u_step + z (Q - QDelta_k) u_old with z = lambda dt; the step ends with the last node or with the weighted update when weights are given. The collocation solution is a fixed point of every sweep, a single matrix equals its repetition, monitors report the stated residuals and errors of every sweep including the initial one and never change the solution, and inconsistent shapes are rejected.",
 ["inputs","configurations"],"all matrices, sweep and step counts, lambda and initial values",
 "tests compare runs with each other for a few Legendre settings and look at observed orders within 0.5",
 ["qmat/utils/sdc.py"],[("sweep loops","solveDahlquistSDC"),("error norm","errorDahlquistSDC")],[],["solveDahlquistSDC","errorDahlquistSDC"])
prop("C19","Numerical utilities satisfy their defining equations for every input",
 "For every square matrix with non-zero pivots, the LDU factorization returns unit lower, diagonal and unit upper factors whose product is the matrix; for any distinct nodes, any times and any admissible degree p, the extrapolation matrix reproduces every polynomial of degree <= p; for errors that are exactly C n^{-q} at any two or more step counts, the numerical order returned is q with zero residual, and in general it is the least-squares slope of log error against log step size. None of them modifies its arguments.",
 ["inputs"],"all matrices, nodes, times, degrees and error sequences of any length",
 "tests use random matrices up to 8x8, equidistant nodes on [0, 1) and rely on the order function only indirectly",
 ["qmat/utils/num.py"],[("factorization loops","lduFactorization"),("normal equations","getExtrapolationMatrix"),("linear regression","numericalOrder")],[],["lduFactorization","getExtrapolationMatrix","numericalOrder"])
prop("C20","The registries resolve every name to exactly one complete generator",
 "Every registered generator class is reachable by its class name and by each of its aliases, every name resolves to exactly one class, listing classes returns each class exactly once (restricted to a submodule when asked), and unknown names are rejected with a value error. Registering a class succeeds only if it overrides everything the base class requires and none of its names is taken; a name once registered is never redirected to another class.",
 ["histories","programs"],"all sequences of registrations and lookups, all present generators and aliases",
 "tests iterate over class names only; no alias is ever looked up and no rejected registration is attempted",
 ["qmat/utils/__init__.py","qmat/qcoeff/__init__.py",D,B],[("name storage","storeAlias, storeClass"),("checks at registration","checkOverriding, checkGenericConstr, register, checkAndStore, registerTable"),("listing","getClasses")],
 [("registries","name to class","Q_GENERATORS, QDELTA_GENERATORS, RK_SCHEMES")],["Q_GENERATORS","QDELTA_GENERATORS","RK_SCHEMES","getClasses","genQCoeffs","genQDeltaCoeffs"])
prop("C21","Collocation methods attain the order they report",
 "For every node distribution, quadrature type and number of nodes, the collocation method's quadrature is exact for all polynomials of degree below the order it reports, so that the method converges at that order on smooth problems; the reported order is 2M, 2M-1, 2M-2 for Legendre Gauss, Radau and Lobatto nodes.",
 ["inputs","configurations"],"all node counts, distributions and types",
 "tests observe convergence numerically for M in 2..4",
 [C,N],[("order formula","Collocation.order")],[],["order","weights"])
prop("C22","Optimised diagonal coefficients make the stiff sweep nilpotent",
 "For every node distribution, quadrature type and number of nodes for which the root search converges (it does up to 10 nodes for every setting), the stiff-limit diagonal coefficients, and the flexible ones beyond as many sweeps as nodes, make I - QDelta^{-1} Q (without a first node at the left bound, whose coefficient is 0) nilpotent. The spectral radius of I - QDelta^{-1} Q of the spectral-radius-minimising coefficients is not above the one at the starting point of their search.",
 ["inputs","configurations"],"all node counts, distributions and types",
 "tests observe M in 2..4",
 [DG],[("incremental root finding","MIN_SR_S.computeQDelta"),("Nelder-Mead search","MIN.computeQDelta")],[],["getQDelta"])
prop("C23","SDC attains the orders that are reported for it",
 "For every collocation configuration, any number of nodes, any QDelta approximation, any number of sweeps and both step updates (LASTNODE when the last node is the right end), the SDC solution of the Dahlquist problem converges at least with the order reported for it. The reported order is never below what every configuration attains: one order per sweep, one more for the trapezoidal approximations (with at least one sweep), one more for the weighted update, at most the order of the collocation method.",
 ["inputs","configurations"],"all combinations of node settings, node counts, approximations, sweeps and updates",
 "tests observe the order for M in 2..4 and up to 4 sweeps at three step counts, the same combinations the table of exceptions was fitted on",
 ["qmat/utils/sdc.py","qmat/qcoeff/collocation.py","qmat/qdelta/timestepping.py"],[("order rule and table of exceptions","getOrderSDC"),("order of the collocation method","Collocation.order"),("trapezoidal approximations","TRAP.computeQDelta")],[],["getOrderSDC","order"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
