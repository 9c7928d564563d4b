"""development helper: writes the second batch of planted bugs"""
from plant import plant
L, N, QC, QI = "qmat/lagrange.py", "qmat/nodes.py", "qmat/qcoeff/collocation.py", "qmat/qcoeff/__init__.py"
BU, DI, DG = "qmat/qcoeff/butcher.py", "qmat/qdelta/__init__.py", "qmat/qdelta/diag.py"
TS, AL, UI, UN, SD = "qmat/qdelta/timestepping.py", "qmat/qdelta/algebraic.py", "qmat/utils/__init__.py", "qmat/utils/num.py", "qmat/utils/sdc.py"
P = "import numpy as np\n"

plant("c01-call-memory-order", "C01", [(L, "values = self.getInterpolationMatrix(t.ravel()).dot(fValues)",
      "values = self.getInterpolationMatrix(t.ravel(order='K')).dot(fValues)")],
      "calling the approximation on a two-dimensional array stored in Fortran order (a transposed array)",
      "the values come back in the wrong positions of the result array", P + '''
from qmat.lagrange import LagrangeApproximation
x = np.linspace(0, 1, 4)
t = np.array([[.1, .2, .3], [.4, .5, .6]]).T
v = LagrangeApproximation(x, fValues=x**2)(t)
assert np.allclose(v, t**2), v
''')

plant("c01-stable-sign-sorted", "C01", [(L, "            sign = np.sign(diffs).prod(axis=1)\n            wLog",
      "            sign = (-1.)**np.arange(points.size)[::-1]  # alternating, last one positive\n            wLog")],
      "STABLE weights (or AUTO falling back on them) for distinct points that are not in increasing order",
      "wrong signs of the barycentric weights, so interpolation is wrong", P + '''
from qmat.lagrange import LagrangeApproximation
x = np.array([0.0, 1.0, 0.3, 0.6])
P = LagrangeApproximation(x, weightComputation="STABLE").getInterpolationMatrix([0.45])
assert abs(P @ x**2 - 0.45**2).max() < 1e-12
''')

plant("c02-backward-abs", "C02", [(L, "        integrand *= (bj - aj) / 2\n", "        integrand *= np.abs(bj - aj) / 2  # half length of each interval\n")],
      "an interval given backward (right bound first)", "the integral over a backward interval has the wrong sign", P + '''
from qmat.lagrange import LagrangeApproximation
x = np.linspace(0, 1, 4)
Q = LagrangeApproximation(x).getIntegrationMatrix([(0, 1), (1, 0.5)])
assert np.allclose(Q @ x, [0.5, -0.375]), Q @ x
''')

plant("c02-fejer-even", "C02", [(L, "        2 * np.exp(1j * np.pi * K / n) / (1 - 4 * K**2),", "        2 * np.exp(1j * np.pi * K / (2 * lN + 1)) / (1 - 4 * K**2),")],
      "the Fejer rule with an even number of points (the integration matrices only use odd ones)",
      "the Fejer rule with an even number of points is no longer exact for polynomials of degree below that number", P + '''
from qmat.lagrange import computeFejerRule
for n in range(1, 12):
    x, w = computeFejerRule(n)
    for d in range(n):
        assert abs(w @ x**d - (1 + (-1)**d)/(d + 1)) < 1e-12, (n, d)
''')

plant("c03-close-points", "C03", [(L, "        iDiff[np.isinf(iDiff)] = 0\n", "        iDiff[np.abs(iDiff) > 1e10] = 0  # diagonal (and numerically identical points)\n")],
      "points at a length scale below 1e-10", "entries of the derivative matrices between points closer than 1e-10 are dropped", P + '''
from qmat.lagrange import LagrangeApproximation
x = np.array([0., 1., 2., 3.])*1e-11
D = LagrangeApproximation(x).getDerivativeMatrix()
assert np.allclose(D @ x, 1), D @ x
''')

plant("c04-right-isclose", "C04", [(L, '''                np.max(np.where(self.points == pts)) for pts in values]
''', '''                np.max(np.where(np.isclose(self.points, pts))) for pts in values]
''')], "USE_RIGHT with two distinct points that are relatively very close", "the column of the first one is placed at the other point, its own column stays zero", P + '''
from qmat.lagrange import LagrangeApproximation
x = np.array([1., 1. + 2e-6, 0., 1.])
P = LagrangeApproximation(x, duplicates="USE_RIGHT").getInterpolationMatrix([1.])
assert np.allclose(P, [[0, 0, 0, 1]]), P
P = LagrangeApproximation(x, duplicates="USE_RIGHT").getInterpolationMatrix([1. + 2e-6])
assert np.allclose(P, [[0, 1, 0, 0]]), P
''')

plant("c05-window", "C05", [(L, "            closestPointsIdx = np.sort(np.argsort(np.abs(inPoints - outPoints[i]))[:order])\n",
      '''            # closest point, and its neighbors (grid points are ordered)
            start = np.argmin(np.abs(inPoints - outPoints[i])) - (order - 1) // 2
            if start > 0 and order % 2 == 0 and outPoints[i] < inPoints[start + order // 2 - 1]: start -= 1
            start = max(0, min(start, len(inPoints) - order))
            closestPointsIdx = np.arange(start, start + order)
''')], "a non-uniform grid, where the window around the closest point is not made of the closest points", "rows use points that are not the closest ones of the target", P + '''
from qmat.lagrange import getSparseInterpolationMatrix
x = np.array([0., 1., 1.1, 1.2, 1.3, 5.])
A = getSparseInterpolationMatrix(x, np.array([0.9]), 3).toarray()
assert set(np.nonzero(A[0])[0]) == {1, 2, 3}, A
''')

plant("c05-scale", "C05", [(L, "            closestPoints = inPoints[closestPointsIdx] - outPoints[i]\n",
      "            closestPoints = np.round(inPoints[closestPointsIdx] - outPoints[i], 15)\n")],
      "a grid with a length scale near the rounding (1e-14)", "stencil offsets are rounded absolutely, so small grids get wrong coefficients", P + '''
from qmat.lagrange import getSparseInterpolationMatrix
x = np.linspace(0, 1, 6)*1e-14
t = np.array([0.33, 0.71])*1e-14
A = getSparseInterpolationMatrix(x, t, 3)
assert np.allclose((A @ x)*1e14, t*1e14), A @ x
''')

plant("c06-legendre-int", "C06", [(N, "            beta = k**2 / (4 * k**2 - 1)\n", "            beta = np.where(k < 40, k**2 / (4 * k**2 - 1), 0.25)  # asymptotic value\n")],
      "more than 40 Legendre nodes", "the recurrence coefficients of high index are replaced by their limit, so nodes are not the roots of the Legendre polynomial", P + '''
from qmat.nodes import NodesGenerator
x = NodesGenerator("LEGENDRE", "GAUSS").getNodes(48)
assert abs(x - np.polynomial.legendre.leggauss(48)[0]).max() < 1e-12
''')

plant("c06-middle-node", "C06", [(N, '''        nodes.sort()

        # Force''', '''        nodes.sort()

        # The middle node of symmetric distributions is exactly zero
        if self.quadType == "LOBATTO" and self.nodeType in ["LEGENDRE", "CHEBY-1", "CHEBY-2"]:
            nodes[np.abs(nodes) < 8e-3] = 0

        # Force''')], "LOBATTO nodes with an even number of nodes of about 200 and more", "the two inner nodes collapse to zero", P + '''
from qmat.nodes import NodesGenerator
for nt in ("LEGENDRE", "CHEBY-1"):
    x = NodesGenerator(nt, "LOBATTO").getNodes(250)
    assert np.diff(x).min() > 1e-8, nt
''')

plant("c07-S-first-row", "C07", [(QC, "        pInts = [(self.tLeft if i == 0 else nodes[i-1], nodes[i])", "        pInts = [(0 if i == 0 else nodes[i-1], nodes[i])")],
      "a collocation interval that does not start at 0, in node-to-node form", "the first row of S integrates from 0 instead of the left bound", P + '''
from qmat.qcoeff.collocation import Collocation
c = Collocation(3, "LEGENDRE", "GAUSS", tLeft=1, tRight=3)
assert np.allclose(c.S.sum(axis=1), np.diff([1] + c.nodes.tolist()))
''')

plant("c07-weights-length", "C07", [(QC, "        weights = approx.getIntegrationMatrix([(tLeft, tRight)]).ravel()",
      "        weights = approx.getIntegrationMatrix([(tLeft, nodes[-1] if quadType in ['LOBATTO', 'RADAU-RIGHT'] else tLeft + 1)]).ravel()")],
      "GAUSS or RADAU-LEFT nodes on an interval whose length is not 1", "the weights integrate over [tLeft, tLeft+1] instead of the whole interval", P + '''
from qmat.qcoeff.collocation import Collocation
c = Collocation(3, "LEGENDRE", "RADAU-LEFT", tLeft=0, tRight=0.5)
assert abs(c.weights.sum() - 0.5) < 1e-12
''')

plant("c08-embedded-and-h", "C08", [(QI, '''            out[1] = np.vstack([out[1], self.weightsEmbedded])
        if hCoeffs:''', '''            out[1] = np.vstack([self.weightsEmbedded, out[1]][::-1])
        if hCoeffs and not (embedded and form == "N2N"):''')],
      "asking at once for embedded weights and h coefficients in node-to-node form", "the h coefficients are missing in the output", P + '''
from qmat.qcoeff.butcher import RK_SCHEMES
out = RK_SCHEMES["CashKarp"]().genCoeffs(form="N2N", hCoeffs=True, embedded=True)
assert len(out) == 4, len(out)
''')

plant("c08-sdelta-k", "C08", [(DI, "            gen = lambda k, copy=None: self.getSDelta(k)\n", "            gen = lambda k, copy=None: self.getSDelta(k if self._K_DEPENDENT and k is not None and k < self.size else None)\n")],
      "the node-to-node form of a sweep-dependent approximation for a sweep number at or above the number of nodes",
      "node-to-node matrices of late sweeps are those of the first sweep", P + '''
from qmat.qdelta import QDELTA_GENERATORS
g = QDELTA_GENERATORS["FLEX-JUMPER"](nodes=np.array([.2, .6, 1.]))
Q, S = g.genCoeffs(k=4), g.genCoeffs(k=4, form="N2N")
assert np.allclose(np.cumsum(S, axis=0), Q)
''')

plant("c09-rk32-nonlinear", "C09", [(BU, '''    A = [[0, 0, 0],
         [1, 0, 0],
         [1/4, 1/4, 0]]
    b = [1/6, 1/6, 2/3]
    c = [0, 1, 1/2]
''', '''    A = [[0, 0, 0],
         [1/2, 0, 0],
         [-1/3, 4/3, 0]]
    b = [1/4, 1/2, 1/4]
    c = [0, 1/2, 1]
''')], "a nonlinear problem (all linear order conditions of order 3 still hold, so the Dahlquist tests pass)", "the RK33 table is only of order 2 although it reports 3", P + '''
from qmat.qcoeff.butcher import RK_SCHEMES
g = RK_SCHEMES["RK33"]()
assert abs(g.b @ g.c**2 - 1/3) < 1e-12, g.b @ g.c**2
''')

plant("c10-pad-row", "C10", [(BU, "                newA[-1] = self.b\n", "                newA[-1, :-1] = self.A[-1] if abs(self.c[-2] - 1) < 1e-14 else self.b[:-1]  # stiffly accurate\n")],
      "right padding of a scheme whose last node is 1 without being stiffly accurate (RK4, HEUN2)", "the added row repeats the last row of A instead of the weights", P + '''
from qmat.qcoeff.butcher import RK_SCHEMES
g = RK_SCHEMES["RK4"](padding="RIGHT")
assert np.allclose(g.A[-1], g.b)
''')

plant("c11-be-first-delta", "C11", [(TS, "        deltas[1:] = np.ediff1d(nodes)\n", "        deltas[1:] = np.ediff1d(nodes - tLeft if tLeft < nodes[0] else np.append(tLeft, nodes[1:]))\n")],
      "a first node equal to the left bound or below it", "deltas of the second step computed from the left bound instead of the first node", P + '''
from qmat.qdelta.timestepping import BE
g = BE(nodes=[0.25, 0.5, 1.], tLeft=0.5)
assert np.allclose(g.deltas, [-.25, .25, .5]), g.deltas
Q = g.getQDelta()
assert np.allclose(Q.sum(axis=1), g.nodes - 0.5)
''')

plant("c12-exact-alias", "C12", [(AL, "        return self.Q.copy()  # TODO: do we really want a copy here ... ?", "        return self.Q")],
      "modifying the matrix of an exact approximation obtained without a copy", "the exact approximation is the given Q itself, so modifying one changes the other", P + '''
from qmat.qdelta.algebraic import Exact
Q = np.eye(3)
M = Exact(Q=Q).computeQDelta()
M *= 2
assert np.array_equal(Q, np.eye(3))
''')

plant("c13-flex-limit", "C13", [(DG, "        if k <= self.size:\n            return np.diag(self.coll.nodes/k)", "        if k <= self.coll.nodes[self.coll.nodes > 0].size:\n            return np.diag(self.coll.nodes/k)")],
      "the sweep number equal to the number of nodes, with a first node at 0 (LOBATTO, RADAU-LEFT)", "the M-th sweep uses the MIN-SR-S coefficients instead of nodes/M", P + '''
from qmat.qdelta.diag import MIN_SR_FLEX
g = MIN_SR_FLEX(3, "LEGENDRE", "LOBATTO")
assert np.allclose(np.diag(g.getQDelta(k=3)), g.coll.nodes/3)
''')

plant("c13-check-zero", "C13", [(DG, "    if k is None: k = 1\n", "    k = k or 1\n")],
      "sweep number 0", "sweep number 0 is accepted as the first sweep instead of being rejected", P + '''
from qmat.qdelta.diag import MIN_SR_FLEX, Jumper
for g in (MIN_SR_FLEX(3, "LEGENDRE", "RADAU-RIGHT"), Jumper(nodes=[.5, 1.])):
    try:
        g.getQDelta(k=0)
    except ValueError:
        continue
    raise SystemExit("sweep number 0 accepted")
''')

plant("c13-table-fallback", "C13", [(DG, "            coeffs = table[self.nodeType][self.quadType][self.size]\n", "            coeffs = table[self.nodeType].get(self.quadType, table[self.nodeType]['RADAU-RIGHT'])[self.size]\n")],
      "a tabulated family asked for a quadrature type that is not in the table", "coefficients of another quadrature type are returned instead of refusing", P + '''
from qmat.qdelta.diag import MIN3
try:
    MIN3(3, "LEGENDRE", "GAUSS").getQDelta()
except NotImplementedError:
    pass
else:
    raise SystemExit("not refused")
''')

plant("c14-sdelta-inplace", "C14", [(DI, '''        QDelta = self.getQDelta(k)
        M = QDelta.shape[0]
        T = np.eye(M)
        T[1:,:-1][np.diag_indices(M-1)] = -1
        return T @ QDelta
''', '''        SDelta = self.getQDelta(k, copy=self._K_DEPENDENT)
        SDelta[1:] -= SDelta[:-1].copy()
        return SDelta
''')], "asking the same generator for the node-to-node form and afterwards for the zero-to-node form", "the cached QDelta matrix is overwritten by its node-to-node form", P + '''
from qmat.qdelta.timestepping import BE
g = BE(nodes=[.3, .6, 1.])
A = g.getQDelta(); g.getSDelta(); B = g.getQDelta()
assert np.array_equal(A, B), B
''')

plant("c14-flex-class-cache", "C14", [(DG, '''            try:
                self._QDelta_MIN_SR_S
            except AttributeError:
                self._QDelta_MIN_SR_S = super().computeQDelta()
            return self._QDelta_MIN_SR_S
''', '''            try:
                cache = type(self)._MIN_SR_S
            except AttributeError:
                cache = type(self)._MIN_SR_S = {}
            key = (self.coll.nNodes, self.nodeType, float(self.coll.nodes[-1]).__round__(6))
            if key not in cache:
                cache[key] = super().computeQDelta()
            return cache[key]
''')], "two flexible generators of the same size and node distribution, one RADAU-RIGHT and one LOBATTO, both asked for a sweep number above M", "the second one gets the coefficients of the first one", P + '''
from qmat.qdelta.diag import MIN_SR_FLEX, MIN_SR_S
MIN_SR_FLEX(3, "LEGENDRE", "RADAU-RIGHT").getQDelta(k=4)
a = MIN_SR_FLEX(3, "LEGENDRE", "LOBATTO").getQDelta(k=4)
assert np.allclose(a, MIN_SR_S(3, "LEGENDRE", "LOBATTO").getQDelta()), a
''')

plant("c15-per-type-count", "C15", [(DI, "                [gen.genCoeffs(k+1, form) for k, gen in enumerate(gens)]\n", "                [gen.genCoeffs(qDeltaType[:k+1].count(qDeltaType[k]), form) for k, gen in enumerate(gens)]\n")],
      "a list that mixes a sweep-dependent approximation after another name", "the sweep number counts only the sweeps of the same name", P + '''
from qmat.qdelta import genQDeltaCoeffs, QDELTA_GENERATORS
n = np.array([.3, .7, 1.])
D = genQDeltaCoeffs(["BE", "JUMPER", "JUMPER"], nodes=n)
assert np.allclose(np.diag(D[1]), n/4) and np.allclose(np.diag(D[2]), n/6), D
''')

plant("c16-positional", "C16", [(UI, "            qGenParams.update(params)\n", "            qGenParams = {**params, **qGenParams, **kwargs}\n")],
      "a parameter given by position together with a Q-generator", "the positional parameter is overridden by the one extracted from the generator", P + '''
from qmat.qcoeff.collocation import Collocation
from qmat.qdelta.timestepping import BE
c = Collocation(3, "LEGENDRE", "RADAU-RIGHT")
n = np.array([.1, .5, .8])
assert np.allclose(BE(n, qGen=c).nodes, n)
''')

plant("c17-complex-u0", "C17", [(QI, "        uNum = np.zeros(nSteps+1, dtype=complex)\n", "        uNum = np.zeros(nSteps+1, dtype=np.result_type(np.asarray(lam), float))\n")],
      "a real lambda with a complex initial value", "the imaginary part of the solution is dropped (or refused)", P + '''
import warnings; warnings.simplefilter("ignore")
from qmat.qcoeff.butcher import RK_SCHEMES
u = RK_SCHEMES["RK4"]().solveDahlquist(-1., 1j, 1., 4)
assert abs(u[-1] - 1j*np.exp(-1)) < 1e-3, u
''')

plant("c17-embedded-error", "C17", [(QI, "            uNum = self.solveDahlquist(lam, u0, tEnd, nSteps, useEmbeddedWeights=useEmbeddedWeights)\n", "            uNum = self.solveDahlquist(lam, u0, tEnd, nSteps, useEmbeddedWeights=(useEmbeddedWeights is True and nSteps > 1))\n")],
      "the error of the embedded method over one single step (or with a truthy flag that is not True)", "the error of the primary method is returned", P + '''
from qmat.qcoeff.butcher import RK_SCHEMES
g = RK_SCHEMES["HEUN2"]()
u = g.solveDahlquist(-1., 1., 1., 1, useEmbeddedWeights=True)
assert abs(g.errorDahlquist(-1., 1., 1., 1, useEmbeddedWeights=True) - abs(u[-1] - np.exp(-1))) < 1e-12
''')

plant("c18-qdelta-first", "C18", [(SD, "            b = uNum[i] + lam*dt*(Q-QDelta[k]) @ uNodes\n", "            b = uNum[i] + lam*dt*(Q-QDelta[0]) @ uNodes\n")],
      "a different QDelta matrix for each sweep", "the right-hand side of every sweep uses the first matrix", P + '''
from qmat.utils.sdc import solveDahlquistSDC
from qmat.qcoeff.collocation import Collocation
c = Collocation(3, "LEGENDRE", "RADAU-RIGHT")
QD = np.array([np.diag(c.nodes/k) for k in (1, 2, 3)])
z = -2.; u = np.ones(3)
for k in range(3):
    u = np.linalg.solve(np.eye(3) - z*QD[k], 1 + z*(c.Q - QD[k]) @ u)
assert abs(solveDahlquistSDC(z, 1., 1., 1, 3, c.Q, QD)[-1] - u[-1]) < 1e-12
''')

plant("c18-error-local", "C18", [(SD, "                    monitors[\"errors\"][k+1, i] = uNodes - u0*np.exp(lam*(times[i] + dt*nodes))\n", "                    monitors[\"errors\"][k+1, i] = uNodes - uNum[i]*np.exp(lam*dt*nodes)\n")],
      "monitoring the errors over more than one step", "the monitored errors of the sweeps are local errors, not those against the exact solution", P + '''
from qmat.utils.sdc import solveDahlquistSDC
from qmat.qcoeff.collocation import Collocation
c = Collocation(3, "LEGENDRE", "RADAU-RIGHT")
u, m = solveDahlquistSDC(-1., 1., 1., 2, 1, c.Q, np.diag(c.nodes), monitors=["errors"])
assert abs(m["errors"][1, 1, -1] - (u[2] - np.exp(-1))) < 1e-12
''')

plant("c19-order-inplace", "C19", [(UN, "    nSteps = np.asarray(nSteps)\n    x, y = np.log10(1/nSteps), np.log10(err)\n", "    x = np.asarray(nSteps, dtype=float)\n    np.log10(x, out=x)\n    x *= -1\n    y = np.log10(err)\n")],
      "step counts given as an array of floats that is used again afterwards", "the array of step counts given by the caller is overwritten", P + '''
from qmat.utils.num import numericalOrder
n = np.array([10., 20., 40.])
numericalOrder(n, 1/n**2)
assert n[0] == 10, n
''')

plant("c19-order-endpoints", "C19", [(UN, "    beta = sXY/sX\n", "    beta = sXY/sX if x.size > 2 and np.all(np.diff(x) < 0) else (y[-1]-y[0])/(x[-1]-x[0])\n")],
      "step counts not in increasing order, with errors that are not an exact power law", "the order is the slope between the first and the last point, not the least-squares slope", P + '''
from qmat.utils.num import numericalOrder
n = np.array([40, 10, 20]); e = np.array([1e-3, 2e-2, 7e-3])
b, r = numericalOrder(n, e)
assert abs(b + np.polyfit(np.log10(n), np.log10(e), 1)[0]) < 1e-12
''')

plant("c20-register-early", "C20", [(DI, '''    checkGenericConstr(cls)
    checkOverriding(cls, "computeQDelta")
    try:
''', '''    checkGenericConstr(cls)
    checkOverriding(cls, "computeQDelta")
    storeClass(cls, QDELTA_GENERATORS)
    try:
'''), (DI, '''    cls.__init__ = useQGen(cls.__init__)
    storeClass(cls, QDELTA_GENERATORS)
''', '''    cls.__init__ = useQGen(cls.__init__)
''')], "registering a class whose computeQDelta has not the required signature, and looking at the registry afterwards", "the rejected class stays registered under its names", P + '''
from qmat.qdelta import register, QDeltaGenerator, QDELTA_GENERATORS
try:
    @register
    class Bad(QDeltaGenerator):
        def computeQDelta(self): return self.zeros
except AssertionError:
    pass
assert "Bad" not in QDELTA_GENERATORS
''')

plant("c20-getclasses-module", "C20", [(UI, '        check = lambda cls: cls.__module__.endswith("."+module)\n', '        check = lambda cls: "."+module in cls.__module__\n')],
      "a submodule whose name is the beginning of another one (a user module named diagnostics, or module='time')", "classes of another submodule are listed", P + '''
from qmat.utils import getClasses
from qmat.qdelta import QDELTA_GENERATORS
assert getClasses(QDELTA_GENERATORS, module="time") == {}
assert getClasses(QDELTA_GENERATORS, module="qdelta") == {}
''')

plant("c21-order-lobatto2", "C21", [(QC, "                return 2*M-1\n", "                return 2*M-1 if M > 1 else 2*M\n")],
      "a single Legendre Radau node", "backward Euler reports order 2", P + '''
from qmat.qcoeff.collocation import Collocation
assert Collocation(1, "LEGENDRE", "RADAU-RIGHT").order == 1
''')

plant("c21-order-odd", "C21", [(QC, "                return M + (M % 2)  # why ? the node symmetry I guess ...", "                return 2*((M+1)//2) + (M > 6 and nodeType == 'EQUID' and quadType == 'LOBATTO')")],
      "more than 6 equidistant Lobatto nodes (Newton-Cotes)", "the reported order is one more than the quadrature attains", P + '''
from qmat.qcoeff.collocation import Collocation
c = Collocation(8, "EQUID", "LOBATTO")
assert abs(c.weights @ c.nodes**(c.order-1) - 1/c.order) < 1e-10
''')
