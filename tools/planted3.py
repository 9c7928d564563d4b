"""planted changes, third batch (development helper): writes seeded/c23-*"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import plant
S = "qmat/utils/sdc.py"
DEMO = '''import numpy as np
from math import factorial
from qmat.qcoeff.collocation import Collocation
from qmat.qdelta import QDELTA_GENERATORS
from qmat.utils.sdc import getOrderSDC, solveDahlquistSDC
for M, nt, qt, qd, up, K in %s:
    c = Collocation(M, nt, qt)
    D = QDELTA_GENERATORS[qd](qGen=c).getQDelta()
    w = c.weights if up == "QUADRATURE" else None
    q = getOrderSDC(c, K, qd, up)
    # Taylor coefficients of one step in z: the first q + 1 are those of the exponential
    N, r = 64, 0.5
    z = r*np.exp(2j*np.pi*np.arange(N)/N)
    v = [solveDahlquistSDC(x, 1, 1, 1, K, c.Q, D, weights=w)[-1] for x in z]
    t = np.fft.fft(v)[:q+1]/N*r**-np.arange(q+1.)
    e = abs(t*[factorial(j) for j in range(q+1)] - 1).max()
    assert e < 1e-7, (M, nt, qt, qd, up, K, q, e)
'''
plant("c23-pattern", "C23", [(S, """            if nSweeps == 3 and nNodes == 4 and nodeType == "EQUID":
                order += 1
""", """            if nSweeps == 3 and nNodes >= 4 and nodeType == "EQUID" and quadType in QUAD_TYPES[:]:
                order += 1
""".replace(' and quadType in QUAD_TYPES[:]', ''))],
      "five or more equidistant nodes with three parallel trapezoidal sweeps",
      "a bonus order observed for four nodes is reported for every larger number of nodes",
      DEMO % '[(5, "EQUID", "LOBATTO", "TRAPAR", "QUADRATURE", 3), (6, "EQUID", "GAUSS", "TRAPAR", "QUADRATURE", 3), (5, "LEGENDRE", "GAUSS", "TRAPAR", "QUADRATURE", 3)]')
plant("c23-radau-sweeps", "C23", [(S, """            if nSweeps == 4 and nNodes == 4 and nodeType == "LEGENDRE" and quadType == "RADAU-RIGHT":
                order += 2
""", """            if nSweeps >= 4 and nNodes == 4 and nodeType == "LEGENDRE" and quadType == "RADAU-RIGHT":
                order += 2
""")],
      "five or more trapezoidal sweeps on four Legendre Radau nodes",
      "the bonus is added on top of the order of the collocation method for more sweeps: an order above 2M-1 is reported",
      DEMO % '[(4, "LEGENDRE", "RADAU-RIGHT", "TRAP", "LASTNODE", 5), (4, "LEGENDRE", "RADAU-RIGHT", "TRAP", "LASTNODE", 6), (3, "EQUID", "LOBATTO", "BE", "QUADRATURE", 5)]')
