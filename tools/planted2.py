"""planted changes, second batch (development helper): writes seeded/c22-*"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import plant
D = "qmat/qdelta/diag.py"
plant("c22-first-four", "C22", [(D, "        return max(abs(\n            np.linalg.eigvals(np.eye(M) - np.diag(x).dot(self.Q))))\n",
                                   "        vals = abs(np.linalg.eigvals(np.eye(M) - np.diag(x).dot(self.Q)))\n        return max(vals[-4:])\n")],
      "five or more nodes (the first eigenvalues are ignored)",
      "the search minimises the last four eigenvalues only: the spectral radius ends above the one at its starting point",
      '''import numpy as np
from qmat.qcoeff.collocation import Collocation
from qmat.qdelta.diag import MIN
for nt, qt, M in [("EQUID", "GAUSS", 5), ("EQUID", "GAUSS", 3), ("EQUID", "RADAU-RIGHT", 4), ("EQUID", "RADAU-RIGHT", 7), ("LEGENDRE", "RADAU-RIGHT", 4)]:
    Q = Collocation(M, nt, qt).Q
    rho = lambda d: max(abs(np.linalg.eigvals(np.eye(M) - np.diag(1/d) @ Q)))
    d = np.diag(MIN(Q=Q).getQDelta())
    assert rho(d) <= rho(np.full(M, 0.1)) * (1 + 1e-8), (nt, qt, M, rho(d))
''')
plant("c22-cold-last", "C22", [(D, "            if a is None:\n                coeffs0", "            if a is None or M == self.size:\n                coeffs0")],
      "seven or more Chebyshev nodes (GAUSS), eight or more for other types: the last root search starts too far away",
      "the power-law initial guess is not used for the last step of the incremental search, which then does not converge",
      '''import numpy as np, warnings
from qmat.qdelta.diag import MIN_SR_S, MIN_SR_FLEX
for M, nt, qt in [(7, "CHEBY-1", "GAUSS"), (10, "LEGENDRE", "GAUSS"), (10, "CHEBY-1", "RADAU-RIGHT"), (8, "CHEBY-1", "LOBATTO"), (6, "LEGENDRE", "RADAU-LEFT")]:
    for o, k in [(MIN_SR_S(M, nt, qt), None), (MIN_SR_FLEX(M, nt, qt), M+1)]:
        d, Q = np.diag(o.getQDelta(k)), o.coll.Q
        if qt in ("LOBATTO", "RADAU-LEFT"):
            d, Q = d[1:], Q[1:, 1:]
        p = np.poly(np.eye(len(d)) - np.diag(1/d) @ Q)
        assert abs(p[1:]).max() < 1e-5, (M, nt, qt, abs(p[1:]).max())
''')
