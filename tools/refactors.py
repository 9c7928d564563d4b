R = {}


def rf(id_, pids, *edits):
    R[id_] = (pids.split(), edits)


L = "qmat/lagrange.py"
LP = "C01 C03 C04"
rf("L-diffs-outer", LP, (L, "diffs = points[:, None] - points[None, :]\n", "diffs = np.subtract.outer(points, points)\n"))
rf("L-diffs-filldiag", LP, (L, "        diffs[np.diag_indices_from(diffs)] = 1\n", "        np.fill_diagonal(diffs, 1)\n"))
rf("L-analytic-div", LP, (L, "            invProd = np.prod(diffs, axis=1)\n            invProd **= -1\n            return invProd\n", "            return 1/diffs.prod(axis=1)\n"))
rf("L-analytic-loop", LP, (L, "            invProd = np.prod(diffs, axis=1)\n            invProd **= -1\n", "            invProd = np.ones(points.size)\n            for j in range(points.size):\n                for k in range(points.size):\n                    if k != j:\n                        invProd[j] /= points[j] - points[k]\n"))
rf("L-analytic-vecloop", LP, (L, "            invProd = np.prod(diffs, axis=1)\n            invProd **= -1\n", "            invProd = np.array([1/np.prod(row) for row in diffs])\n"))
rf("L-log-helper", LP, (L, "        def logScale(diffs):\n", "        def signAndLog(diffs):\n            return np.sign(diffs).prod(axis=1), -np.log(np.abs(diffs)).sum(axis=1)\n\n        def logScale(diffs):\n"),
   (L, "            sign = np.sign(diffs).prod(axis=1)\n            wLog = -np.log(np.abs(diffs)).sum(axis=1)\n", "            sign, wLog = signAndLog(diffs)\n"))
rf("L-log-oneexpr", LP, (L, "            invProd = np.exp(wLog - wScale)\n            invProd *= sign\n            return invProd\n", "            return sign * np.exp(wLog - wScale)\n"))
rf("L-log-neg", LP, (L, "            wLog = -np.log(np.abs(diffs)).sum(axis=1)\n", "            wLog = -np.sum(np.log(np.abs(diffs)), axis=-1)\n"))
rf("L-log-dict", LP, (L, "            if scaleRef == 'ZERO':\n                wScale = wLog[np.argmin(np.abs(points))]\n            elif scaleRef == 'MAX':\n                wScale = wLog.max()\n            else:\n                raise NotImplementedError(f'scaleRef={scaleRef}')\n",
    "            if scaleRef not in ('ZERO', 'MAX'):\n                raise NotImplementedError(f'scaleRef={scaleRef}')\n            wScale = np.max(wLog) if scaleRef == 'MAX' else wLog[np.abs(points).argmin()]\n"))
rf("L-chebfun-ptp", LP, (L, "if points.size > 1: diffs *= 4 / (points.max() - points.min())", "if points.size > 1: diffs *= 4 / np.ptp(points)"))
rf("L-chebfun-local", LP, (L, "if points.size > 1: diffs *= 4 / (points.max() - points.min())", "if points.size > 1:\n                scale = 4 / (points[-1] - points[0])\n                diffs = scale * diffs"))
rf("L-chebfun-max", LP, (L, "            invProd /= np.linalg.norm(invProd, np.inf)\n", "            invProd /= np.abs(invProd).max()\n"))
rf("L-chebfun-inv", LP, (L, "            invProd = (sign * vv)\n            invProd **= -1\n", "            invProd = sign / vv\n"))
rf("L-dispatch-dict", LP, (L, "        elif weightComputation == 'FAST':\n            invProd = analytic(diffs)\n        elif weightComputation == 'STABLE':\n            invProd = logScale(diffs)\n        elif weightComputation == 'CHEBFUN':\n            invProd = chebfun(diffs)\n        else:\n            raise NotImplementedError(\n                f'weightComputation={weightComputation}')\n",
    "        else:\n            methods = {'FAST': analytic, 'STABLE': logScale, 'CHEBFUN': chebfun}\n            if weightComputation not in methods:\n                raise NotImplementedError(\n                    f'weightComputation={weightComputation}')\n            invProd = methods[weightComputation](diffs)\n"))
rf("L-scale-norm", LP, (L, "            weights /= np.max(np.abs(weights))\n", "            weights = weights / np.linalg.norm(weights, np.inf)\n"))
rf("L-call-at", "C01", (L, "        values = self.getInterpolationMatrix(t.ravel()).dot(fValues)\n        values.shape = t.shape\n        return values\n", "        P = self.getInterpolationMatrix(t.reshape(-1))\n        return (P @ fValues).reshape(t.shape)\n"))
rf("L-call-flat", "C01", (L, "        values = self.getInterpolationMatrix(t.ravel()).dot(fValues)\n        values.shape = t.shape\n        return values\n", "        return np.dot(self.getInterpolationMatrix(t.flatten()), fValues).reshape(t.shape)\n"))
rf("L-unique-left", "C04", (L, "        values, indices, self._invIdx = np.unique(\n            self.points, return_index=True, return_inverse=True)\n", "        values, inverse = np.unique(self.points, return_inverse=True)\n        indices = np.unique(self.points, return_index=True)[1]\n        self._invIdx = inverse\n"))
rf("L-right-last", "C04", (L, "                np.max(np.where(self.points == pts)) for pts in values]\n", "                np.where(self.points == pts)[0][-1] for pts in values]\n"))
rf("L-right-loop", "C04", (L, "            self._nnzIdx = [\n                np.max(np.where(self.points == pts)) for pts in values]\n", "            self._nnzIdx = []\n            for pts in values:\n                self._nnzIdx.append(np.max(np.where(self.points == pts)))\n"))
rf("L-right-reverse", "C04", (L, "            self._nnzIdx = [\n                np.max(np.where(self.points == pts)) for pts in values]\n", "            self._nnzIdx = self.points.size - 1 - np.unique(self.points[::-1], return_index=True)[1]\n"))
rf("L-right-elif", "C04", (L, '        if self.duplicates == "USE_RIGHT":\n', '        else:\n'))
rf("L-zer-mask", "C04", (L, "        self._zerIdx = np.setdiff1d(np.arange(self.nPoints), self._nnzIdx)\n", "        self._zerIdx = [i for i in range(self.nPoints) if i not in self._nnzIdx]\n"))
rf("L-handle-zeros", "C04", (L, "        out = matrix[:, self._invIdx]\n        out[:, self._zerIdx] = 0\n        return out\n", "        out = np.zeros((matrix.shape[0], self.nPoints))\n        out[:, self._nnzIdx] = matrix\n        return out\n"))
rf("L-handle-take", "C04", (L, "        out = matrix[:, self._invIdx]\n", "        out = np.take(matrix, self._invIdx, axis=1)\n"))
rf("L-passthrough-none", "C04 C01", (L, "            self._handleDuplicates = self._passThrough\n", "            self._handleDuplicates = lambda matrix: matrix\n"))
rf("L-interp-isinf", "C01 C04 C02", (L, "        concom = (iDiff == np.inf) | (iDiff == -np.inf)\n", "        concom = np.isinf(iDiff)\n"))
rf("L-interp-rows", "C01 C04", (L, "        i, j = np.where(concom)\n", ""), (L, "        iDiff[i, :] = concom[i, :]\n", "        rows = concom.any(axis=1)\n        iDiff[rows] = concom[rows]\n"))
rf("L-interp-where", "C01 C04", (L, "        i, j = np.where(concom)\n", ""), (L, "        iDiff[i, :] = concom[i, :]\n", "        iDiff = np.where(concom.any(axis=-1)[:, None], concom, iDiff)\n"))
rf("L-interp-any-if", "C01 C04", (L, "        i, j = np.where(concom)\n", "        i = np.where(concom)[0]\n"), (L, "        iDiff[i, :] = concom[i, :]\n", "        if i.size > 0:\n            iDiff[i, :] = concom[i, :]\n"))
rf("L-interp-keepdims", "C01 C04", (L, "        P /= P.sum(axis=-1)[:, None]\n", "        P = P / P.sum(axis=-1, keepdims=True)\n"))
rf("L-interp-sumfn", "C01 C04", (L, "        P /= P.sum(axis=-1)[:, None]\n", "        norm = np.sum(P, axis=1)\n        P /= norm[:, np.newaxis]\n"))
rf("L-interp-T", "C01 C04", (L, "        P /= P.sum(axis=-1)[:, None]\n", "        P = (P.T / P.sum(axis=1)).T\n"))
# (concom = diff == 0 instead of iDiff == inf is not an equivalence: 1/diff overflows at subnormal distances)
rf("L-interp-early", "C01 C04", (L, "        if duplicates:\n            P = self._handleDuplicates(P)\n        return P\n", "        if not duplicates:\n            return P\n        return self._handleDuplicates(P)\n"))
rf("L-interp-ternary", "C01 C04", (L, "        if duplicates:\n            P = self._handleDuplicates(P)\n        return P\n", "        return self._handleDuplicates(P) if duplicates else P\n"))
rf("L-integ-dict", "C02 C04", (L, "        integrand *= omega\n        integrand *= (bj - aj) / 2\n        Q = integrand.sum(axis=-1).T\n", "        Q = ((bj - aj)[:, 0] / 2 * (integrand * omega).sum(axis=-1)).T\n"))
rf("L-integ-half", "C02 C04", (L, "        tEval = (bj - aj) / 2 * tau + (bj + aj) / 2\n", "        half, mid = (bj - aj) / 2, (bj + aj) / 2\n        tEval = half * tau + mid\n"), (L, "        integrand *= (bj - aj) / 2\n", "        integrand *= half\n"))
rf("L-integ-einsum", "C02 C04", (L, "        integrand *= omega\n        integrand *= (bj - aj) / 2\n        Q = integrand.sum(axis=-1).T\n", "        Q = np.einsum('nmq,mq->mn', integrand, omega * (bj - aj) / 2)\n"))
rf("L-integ-reshape", "C02 C04", (L, "        integrand = self.getInterpolationMatrix(\n            tEval.ravel(), duplicates=False).T.reshape(\n            (-1,) + tEval.shape)\n", "        P = self.getInterpolationMatrix(tEval.ravel(), duplicates=False)\n        integrand = P.T.reshape((self.nUniquePoints,) + tEval.shape)\n"))
rf("L-integ-loop", "C02 C04", (L, "        # Compute quadrature nodes for each interval\n", "        # Integrate interval by interval\n        Q = np.empty((intervals.shape[0], self.nUniquePoints))\n        for m, (a, b) in enumerate(intervals):\n            P = self.getInterpolationMatrix((b - a) / 2 * iNodes + (b + a) / 2, duplicates=False)\n            Q[m] = (b - a) / 2 * (iWeights @ P)\n        return self._handleDuplicates(Q) if duplicates else Q\n        # Compute quadrature nodes for each interval\n"))
rf("L-integ-unpack", "C02 C04", (L, "        aj, bj = intervals[:, 0][:, None], intervals[:, 1][:, None]\n", "        aj, bj = intervals[:, :1], intervals[:, 1:]\n"))
rf("L-integ-T", "C02 C04", (L, "        aj, bj = intervals[:, 0][:, None], intervals[:, 1][:, None]\n", "        aj, bj = intervals.T[:, :, None]\n"))
rf("L-integ-npts", "C02 C04", (L, "computeFejerRule(self.n - ((self.n + 1) % 2))", "computeFejerRule(self.nPoints if self.nPoints % 2 else self.nPoints - 1)"))
rf("L-integ-nrule", "C02 C04", (L, "        if numQuad == 'LEGENDRE_NUMPY':\n", "        nGauss = (self.nPoints + 1) // 2\n        if numQuad == 'LEGENDRE_NUMPY':\n"), (L, "leggauss((self.n + 1) // 2)", "leggauss(nGauss)"), (L, "roots_legendre((self.n + 1) // 2)", "roots_legendre(nGauss)"))
rf("L-fejer-nodes", "C02", (L, "    nodes = np.empty(n, dtype=float)\n    weights = np.empty(n, dtype=float)\n", ""), (L, "    theta = np.arange(1, n + 1, dtype=float)[-1::-1]\n    theta *= 2\n    theta -= 1\n    theta *= np.pi / (2 * n)\n    np.cos(theta, out=nodes)\n", "    k = np.arange(n, 0, -1)\n    nodes = np.cos((2*k - 1) * np.pi / (2*n))\n"), (L, "    weights[:] = w.real\n", "    weights = w.real.copy()\n"))
rf("L-fejer-v1", "C02", (L, "    v1 = np.empty(len(v0) - 1, dtype=complex)\n    np.conjugate(v0[:0:-1], out=v1)\n    v1 += v0[:-1]\n", "    v1 = np.conj(v0[:0:-1]) + v0[:-1]\n"))
rf("L-fejer-max", "C02", (L, "    if max(w.imag) > 1.0e-15:\n", "    if np.max(w.imag) > 1.0e-15:\n"))
rf("L-fejer-len", "C02", (L, "    N = np.arange(1, n, 2)\n    lN = len(N)\n", "    lN = n // 2\n"))
rf("L-deriv-outer", "C03 C04", (L, "            iDiff = 1 / (x[:, None] - x[None, :])\n        iDiff[np.isinf(iDiff)] = 0\n        base = w[None, :]/w[:, None]\n        base *= iDiff\n", "            iDiff = 1 / np.subtract.outer(x, x)\n        np.fill_diagonal(iDiff, 0)\n        base = iDiff * w[None, :] / w[:, None]\n"))
rf("L-deriv-helper", "C03 C04", (L, "        if order in [1, \"ALL\"]:\n            D1 = base.copy()\n            np.fill_diagonal(D1, -D1.sum(axis=-1))\n            if duplicates:\n                D1 = self._handleDuplicates(D1)\n",
   "        def finalize(D):\n            np.fill_diagonal(D, -D.sum(axis=-1))\n            return self._handleDuplicates(D) if duplicates else D\n\n        if order != 2:\n            D1 = finalize(base.copy())\n"),
   (L, "            D2 *= iDiff + base.sum(axis=-1)[:, None]\n            np.fill_diagonal(D2, -D2.sum(axis=-1))\n            if duplicates:\n                D2 = self._handleDuplicates(D2)\n", "            D2 *= iDiff + base.sum(axis=-1)[:, None]\n            D2 = finalize(D2)\n"))
rf("L-deriv-diag", "C03 C04", (L, "            np.fill_diagonal(D1, -D1.sum(axis=-1))\n", "            D1 -= np.diag(D1.sum(axis=-1))\n"))
rf("L-deriv-idx", "C03 C04", (L, "            np.fill_diagonal(D1, -D1.sum(axis=-1))\n", "            D1[np.diag_indices(self.nUniquePoints)] = -D1.sum(axis=1)\n"))
rf("L-deriv-dict", "C03 C04", (L, "        if order == 1:\n            return D1\n        elif order == 2:\n            return D2\n        else:\n            return D1, D2\n", "        if order == \"ALL\":\n            return D1, D2\n        return D1 if order == 1 else D2\n"))
rf("L-sparse-enum", "C05", (L, "    for i in range(len(outPoints)):\n", "    for i, outPoint in enumerate(outPoints):\n"), (L, "np.argsort(np.abs(inPoints - outPoints[i]))[:order])\n            closestPoints = inPoints[closestPointsIdx] - outPoints[i]", "np.argsort(np.abs(inPoints - outPoint))[:order])\n            closestPoints = inPoints[closestPointsIdx] - outPoint"))
rf("L-sparse-noreuse", "C05", (L, "        if lastClosestPoints is not None and np.array_equal(closestPoints, lastClosestPoints):\n            interpolationLine = lastInterpolationLine\n        else:\n            interpolator = LagrangeApproximation(points = closestPoints)\n            interpolationLine = interpolator.getInterpolationMatrix([0])[0]\n            lastInterpolationLine = interpolationLine\n            lastClosestPoints = closestPoints\n", "        interpolator = LagrangeApproximation(points = closestPoints)\n        interpolationLine = interpolator.getInterpolationMatrix([0])[0]\n"))
rf("L-sparse-concat", "C05", (L, "            path = np.append(np.append(pathR, pathL), pathC)\n", "            path = np.concatenate([pathR, pathL, pathC])\n"))
rf("L-sparse-nin", "C05", (L, "    A = sp.lil_matrix((len(outPoints), len(inPoints)))\n", "    nIn, nOut = len(inPoints), len(outPoints)\n    A = sp.lil_matrix((nOut, nIn))\n"), (L, "_closestPointsIdx % len(inPoints)", "_closestPointsIdx % nIn"))
rf("L-sparse-helper", "C05", (L, "            interpolator = LagrangeApproximation(points = closestPoints)\n            interpolationLine = interpolator.getInterpolationMatrix([0])[0]\n", "            interpolationLine = _lineAtZero(closestPoints)\n"), (L, "def getSparseInterpolationMatrix(", "def _lineAtZero(points):\n    return LagrangeApproximation(points=points).getInterpolationMatrix([0])[0]\n\n\ndef getSparseInterpolationMatrix("))

N = "qmat/nodes.py"
rf("N-equid-dict", "C06", (N, "            if self.quadType == 'GAUSS':\n                return np.linspace(-1, 1, num=nNodes + 2)[1:-1]\n            elif self.quadType == 'LOBATTO':\n                return np.linspace(-1, 1, num=nNodes)\n            elif self.quadType == 'RADAU-RIGHT':\n                return np.linspace(-1, 1, num=nNodes + 1)[1:]\n            elif self.quadType == 'RADAU-LEFT':\n                return np.linspace(-1, 1, num=nNodes + 1)[:-1]\n",
   "            left = self.quadType in ['GAUSS', 'RADAU-RIGHT']\n            right = self.quadType in ['GAUSS', 'RADAU-LEFT']\n            grid = np.linspace(-1, 1, num=nNodes + left + right)\n            return grid[int(left):grid.size - int(right)]\n"))
rf("N-sort", "C06", (N, "        nodes = eigh_tridiagonal(alpha, np.sqrt(beta[1:]))[0]\n        nodes.sort()\n", "        nodes = np.sort(eigh_tridiagonal(alpha, beta[1:]**0.5, eigvals_only=True))\n"))
rf("N-jacobi-full", "C06", (N, "        nodes = eigh_tridiagonal(alpha, np.sqrt(beta[1:]))[0]\n", "        offDiag = np.sqrt(beta[1:])\n        J = np.diag(alpha) + np.diag(offDiag, 1) + np.diag(offDiag, -1)\n        nodes = np.linalg.eigvalsh(J)\n"))
rf("N-flags", "C06", (N, "        # Force overwrite boundary values if necessary (better precision)\n        if self.quadType in [\"LOBATTO\", \"RADAU-RIGHT\"]:\n            nodes[-1] = 1\n        if self.quadType in [\"LOBATTO\", \"RADAU-LEFT\"]:\n            nodes[0] = -1\n", "        if self.quadType in (\"LOBATTO\", \"RADAU-LEFT\"):\n            nodes[0] = -1.0\n        if self.quadType in (\"LOBATTO\", \"RADAU-RIGHT\"):\n            nodes[-1] = 1.0\n"))
rf("N-eval-plain", "C06", (N, "        pi = np.array([np.zeros_like(t) for i in range(3)])\n        pi[1:] += 1\n        for alpha_j, beta_j in zip(alpha, beta):\n            pi[2] *= t - alpha_j\n            pi[0] *= beta_j\n            pi[2] -= pi[0]\n            pi[0] = pi[1]\n            pi[1] = pi[2]\n        return pi[0], pi[1]\n",
   "        prev, cur = np.zeros_like(t), np.ones_like(t)\n        for alpha_j, beta_j in zip(alpha, beta):\n            prev, cur = cur, (t - alpha_j)*cur - beta_j*prev\n        return prev, cur\n"))
rf("N-eval-index", "C06", (N, "        for alpha_j, beta_j in zip(alpha, beta):\n            pi[2] *= t - alpha_j\n            pi[0] *= beta_j\n", "        for j in range(len(alpha)):\n            pi[2] *= t - alpha[j]\n            pi[0] *= beta[j]\n"))
rf("N-eval-zeros", "C06", (N, "        pi = np.array([np.zeros_like(t) for i in range(3)])\n        pi[1:] += 1\n", "        pi = np.zeros((3,) + t.shape)\n        pi[1:] = 1\n"))
rf("N-cheby-merge", "C06", (N, "        elif self.nodeType == 'CHEBY-3':\n            alpha = np.zeros(num_coeff)\n            alpha[0] = 0.5\n            beta = np.full(num_coeff, 0.25)\n            beta[0] = np.pi\n        elif self.nodeType == 'CHEBY-4':\n            alpha = np.zeros(num_coeff)\n            alpha[0] = -0.5\n            beta = np.full(num_coeff, 0.25)\n            beta[0] = np.pi\n", "        elif self.nodeType in ['CHEBY-3', 'CHEBY-4']:\n            alpha = np.zeros(num_coeff)\n            alpha[0] = 0.5 if self.nodeType == 'CHEBY-3' else -0.5\n            beta = np.full(num_coeff, 0.25)\n            beta[0] = np.pi\n"))
rf("N-cheby-ones", "C06", (N, "            alpha = np.zeros(num_coeff)\n            beta = np.full(num_coeff, 0.25)\n            beta[0] = np.pi\n            if num_coeff > 1:\n                beta[1] = 0.5\n", "            alpha = np.zeros(num_coeff)\n            beta = np.ones(num_coeff) / 4\n            beta[0] = np.pi\n            beta[1:2] = 0.5\n"))
rf("N-legendre", "C06", (N, "            k = np.arange(num_coeff, dtype=float)\n            alpha = 0 * k\n            beta = k**2 / (4 * k**2 - 1)\n            beta[0] = 2\n", "            alpha = np.zeros(num_coeff)\n            beta = np.empty(num_coeff)\n            beta[0] = 2.0\n            k = np.arange(1, num_coeff)\n            beta[1:] = k**2 / (4.0 * k**2 - 1)\n"))
rf("N-legendre2", "C06", (N, "            beta = k**2 / (4 * k**2 - 1)\n", "            beta = k**2 / ((2*k - 1) * (2*k + 1))\n"))
rf("N-radau-helper", "C06", (N, "            b1, b2 = self.evalOrthogPoly(b, alpha[:-1], beta[:-1])[:2]\n            alpha[-1] = b - beta[-1] * b1 / b2\n", "            pPrev, pLast = self.evalOrthogPoly(b, alpha[:-1], beta[:-1])\n            alpha[-1] = b - beta[-1] * (pPrev / pLast)\n"))
rf("N-lobatto-cramer", "C06", (N, "            alpha[-1], beta[-1] = np.linalg.solve([[a1, a2], [b1, b2]], [a * a1, b * b1])\n", "            det = a1*b2 - a2*b1\n            alpha[-1] = (a*a1*b2 - b*b1*a2) / det\n            beta[-1] = (b - a)*a1*b1 / det\n"))
rf("N-lobatto-arrays", "C06", (N, "            alpha[-1], beta[-1] = np.linalg.solve([[a1, a2], [b1, b2]], [a * a1, b * b1])\n", "            mat = np.array([[a1, a2], [b1, b2]])\n            rhs = np.array([a * a1, b * b1])\n            sol = np.linalg.solve(mat, rhs)\n            alpha[-1] = sol[0]\n            beta[-1] = sol[1]\n"))

QI = "qmat/qcoeff/__init__.py"
rf("Q-T-eye", "C08 C14", (QI, "        T = np.eye(M)\n        T[1:,:-1][np.diag_indices(M-1)] = -1\n        return T @ Q\n", "        T = np.eye(M) - np.eye(M, k=-1)\n        return T @ Q\n"))
rf("Q-T-self", "C08 C14", (QI, "        Q = np.asarray(self.Q)\n        M = self.Q.shape[0]\n        T = np.eye(M)\n        T[1:,:-1][np.diag_indices(M-1)] = -1\n        return T @ Q\n", "        return self.T @ np.asarray(self.Q)\n"))
rf("Q-S-diff", "C08 C14", (QI, "        Q = np.asarray(self.Q)\n        M = self.Q.shape[0]\n        T = np.eye(M)\n        T[1:,:-1][np.diag_indices(M-1)] = -1\n        return T @ Q\n", "        S = np.array(self.Q)\n        S[1:] -= self.Q[:-1]\n        return S\n"))
rf("Q-S-diff2", "C08 C14", (QI, "        Q = np.asarray(self.Q)\n        M = self.Q.shape[0]\n        T = np.eye(M)\n        T[1:,:-1][np.diag_indices(M-1)] = -1\n        return T @ Q\n", "        Q = np.asarray(self.Q)\n        return np.vstack([Q[:1], np.diff(Q, axis=0)])\n"))
rf("Q-S-loop", "C08 C14", (QI, "        T = np.eye(M)\n        T[1:,:-1][np.diag_indices(M-1)] = -1\n        return T @ Q\n", "        S = Q.copy()\n        for m in range(1, M):\n            S[m] = Q[m] - Q[m-1]\n        return S\n"))
rf("Q-Tinv-tril", "C08", (QI, "        M = self.Q.shape[0]\n        return np.tri(M)\n", "        return np.tril(np.ones_like(self.Q))\n"))
rf("Q-gen-dict", "C08 C14 C16", (QI, "        if form == \"Z2N\":\n            mat = self.Q\n        elif form == \"N2N\":\n            mat = self.S\n        else:\n            raise ValueError(f\"form must be Z2N or N2N, not {form}\")\n", "        if form not in (\"Z2N\", \"N2N\"):\n            raise ValueError(f\"form must be Z2N or N2N, not {form}\")\n        mat = self.Q if form == \"Z2N\" else self.S\n"))
rf("Q-gen-inline", "C08 C14 C16", (QI, "        out = [self.nodes.copy(), self.weights.copy(), mat.copy()]\n        if embedded:\n            out[1] = np.vstack([out[1], self.weightsEmbedded])\n        if hCoeffs:\n            out.append(self.hCoeffs)\n        return out\n", "        weights = np.array([self.weights, self.weightsEmbedded]) if embedded else np.array(self.weights)\n        out = [np.array(self.nodes), weights, np.array(mat)]\n        if hCoeffs:\n            out += [self.hCoeffs]\n        return out\n"))
rf("Q-gen-stack", "C08 C14", (QI, "            out[1] = np.vstack([out[1], self.weightsEmbedded])\n", "            out[1] = np.stack((out[1], self.weightsEmbedded))\n"))
rf("Q-hcoef", "C08 C10", (QI, "        approx = LagrangeApproximation(self.nodes)\n        return approx.getInterpolationMatrix([1]).ravel()\n", "        return LagrangeApproximation(self.nodes).getInterpolationMatrix([1])[0]\n"))
rf("Q-dahl-hoist", "C17", (QI, "            b = np.ones(nodes.size)*uNum[i]\n            uStages = np.linalg.solve(A, b)\n            uNum[i+1] = uNum[i] + lam*dt*weights.dot(uStages)\n", "            rhs = np.full(nodes.size, uNum[i])\n            stages = np.linalg.solve(A, rhs)\n            uNum[i+1] = uNum[i] + lam*dt*(weights @ stages)\n"))
rf("Q-dahl-factor", "C17", (QI, "        for i in range(nSteps):\n            b = np.ones(nodes.size)*uNum[i]\n            uStages = np.linalg.solve(A, b)\n            uNum[i+1] = uNum[i] + lam*dt*weights.dot(uStages)\n", "        R = 1 + lam*dt*weights.dot(np.linalg.solve(A, np.ones(nodes.size)))\n        for i in range(nSteps):\n            uNum[i+1] = R*uNum[i]\n"))
rf("Q-dahl-weights", "C17", (QI, "        nodes, weights, Q = self.nodes, self.weights, self.Q\n        if useEmbeddedWeights:\n            weights = self.weightsEmbedded\n", "        nodes, Q = self.nodes, self.Q\n        weights = self.weightsEmbedded if useEmbeddedWeights else self.weights\n"))
rf("Q-dahl-while", "C17", (QI, "        for i in range(nSteps):\n            b =", "        i = -1\n        while i < nSteps - 1:\n            i += 1\n            b ="))
rf("Q-err-max", "C17", (QI, "        times = np.linspace(0, tEnd, nSteps+1)\n        uExact = u0 * np.exp(lam*times)\n        return np.linalg.norm(uNum-uExact, ord=np.inf)\n", "        times = np.arange(nSteps+1) * (tEnd/nSteps)\n        return np.max(np.abs(uNum - u0*np.exp(lam*times)))\n"))
rf("Q-err-get", "C17", (QI, "        return np.linalg.norm(uNum-uExact, ord=np.inf)\n", "        err = np.abs(uExact - uNum)\n        return err.max()\n"))
rf("Q-genq-in", "C16 C20", (QI, "    try:\n        Generator = Q_GENERATORS[qType]\n    except KeyError:\n        raise ValueError(f\"{qType=!r} is not available\")\n    gen = Generator(**params)\n    return gen.genCoeffs(form, hCoeffs, embedded)\n", "    if qType not in Q_GENERATORS:\n        raise ValueError(f\"{qType=!r} is not available\")\n    return Q_GENERATORS[qType](**params).genCoeffs(form=form, hCoeffs=hCoeffs, embedded=embedded)\n"))
rf("Q-reg-hasattr", "C20", (QI, "        try:\n            params = cls.DEFAULT_PARAMS\n        except AttributeError:\n            raise AttributeError(\n                f\"{cls.__name__} requires DEFAULT_PARAMS attribute\"\n                \" since it has no default constructor\")\n", "        if not hasattr(cls, \"DEFAULT_PARAMS\"):\n            raise AttributeError(\n                f\"{cls.__name__} requires DEFAULT_PARAMS attribute\"\n                \" since it has no default constructor\")\n        params = cls.DEFAULT_PARAMS\n"))
rf("Q-reg-helper", "C20", (QI, "    for name in [\"nodes\", \"Q\", \"weights\", \"order\"]:\n        checkOverriding(cls, name, isProperty=True)\n", "    REQUIRED = (\"nodes\", \"Q\", \"weights\", \"order\")\n    for name in REQUIRED:\n        checkOverriding(cls, name, True)\n"))

QC = "qmat/qcoeff/collocation.py"
rf("C-affine", "C07", (QC, "        nodes += 1\n        nodes /= 2\n        # Scale to [tLeft, tRight]\n        nodes *= (tRight-tLeft)\n        nodes += tLeft\n", "        # Scale to [tLeft, tRight]\n        nodes = tLeft + (tRight-tLeft)*(nodes + 1)/2\n"))
rf("C-S-pairs", "C07 C08", (QC, "        pInts = [(self.tLeft if i == 0 else nodes[i-1], nodes[i])\n                 for i in range(nodes.shape[0])]\n", "        left = [self.tLeft] + nodes[:-1].tolist()\n        pInts = list(zip(left, nodes))\n"))
rf("C-S-loop", "C07 C08", (QC, "        pInts = [(self.tLeft if i == 0 else nodes[i-1], nodes[i])\n                 for i in range(nodes.shape[0])]\n", "        pInts = []\n        left = self.tLeft\n        for right in nodes:\n            pInts.append((left, right))\n            left = right\n"))
rf("C-S-concat", "C07 C08", (QC, "        pInts = [(self.tLeft if i == 0 else nodes[i-1], nodes[i])\n                 for i in range(nodes.shape[0])]\n", "        left = np.concatenate(([self.tLeft], nodes[:-1]))\n        pInts = np.column_stack([left, nodes])\n"))
rf("C-weights-0", "C07", (QC, "        weights = approx.getIntegrationMatrix([(tLeft, tRight)]).ravel()\n", "        weights = approx.getIntegrationMatrix([(tLeft, tRight)])[0]\n"))
rf("C-one-call", "C07", (QC, "        Q = approx.getIntegrationMatrix([(tLeft, tau) for tau in nodes])\n        weights = approx.getIntegrationMatrix([(tLeft, tRight)]).ravel()\n", "        mat = approx.getIntegrationMatrix([(tLeft, tau) for tau in nodes] + [(tLeft, tRight)])\n        Q, weights = mat[:-1], mat[-1]\n"))
rf("C-order-table", "C21 C07", (QC, "            quadType = self.quadType\n            if quadType == \"GAUSS\":\n                return 2*M\n            elif quadType.startswith(\"RADAU\"):\n                return 2*M-1\n            elif quadType == \"LOBATTO\":\n                return 2*M-2\n", "            loss = {\"GAUSS\": 0, \"RADAU-LEFT\": 1, \"RADAU-RIGHT\": 1, \"LOBATTO\": 2}\n            return 2*M - loss[quadType]\n"))
rf("C-order-early", "C21 C07", (QC, "        if nodeType != \"LEGENDRE\":\n            if quadType in [\"GAUSS\", \"LOBATTO\"] \\\n                and nodeType in [\"EQUID\", \"CHEBY-1\", \"CHEBY-2\"]:\n                return M + (M % 2)  # why ? the node symmetry I guess ...\n            return M\n        else:\n", "        symmetric = nodeType in [\"EQUID\", \"CHEBY-1\", \"CHEBY-2\"] and quadType in [\"GAUSS\", \"LOBATTO\"]\n        if symmetric and M % 2 == 1:\n            return M + 1\n        elif nodeType != \"LEGENDRE\":\n            return M\n        else:\n"))

QB = "qmat/qcoeff/butcher.py"
rf("B-pad-concat", "C10 C09", (QB, "                self.c = np.array([0] + self.c.tolist())\n                self.b = np.array([0] + self.b.tolist())\n                if self.b2 is not None: self.b2 = np.array([0] + self.b2.tolist())\n", "                self.c = np.concatenate([[0], self.c])\n                self.b = np.concatenate([[0], self.b])\n                if self.b2 is not None: self.b2 = np.concatenate([[0], self.b2])\n"))
rf("B-pad-nppad", "C10 C09", (QB, "                newA = np.zeros((self.nNodes, self.nNodes))\n                newA[1:, 1:] = self.A\n                self.A = newA\n", "                self.A = np.pad(self.A, ((1, 0), (1, 0)))\n"))
rf("B-pad-block", "C10 C09", (QB, "                newA = np.zeros((self.nNodes, self.nNodes))\n                newA[:-1, :-1] = self.A\n                newA[-1] = self.b\n                self.A = newA\n", "                s = self.A.shape[0]\n                newA = np.zeros((s+1, s+1))\n                newA[:s, :s] = self.A\n                newA[s, :] = self.b\n                self.A = newA\n"))
rf("B-pad-hstack", "C10 C09", (QB, "                self.c = np.array(self.c.tolist() + [1])\n                self.b = np.array(self.b.tolist() + [0])\n", "                self.c = np.append(self.c, 1.)\n                self.b = np.append(self.b, 0.)\n"))
rf("B-pad-insert", "C10 C09", (QB, "                self.c = np.array([0] + self.c.tolist())\n                self.b = np.array([0] + self.b.tolist())\n", "                self.c = np.insert(self.c, 0, 0)\n                self.b = np.insert(self.b, 0, 0)\n"))
rf("B-check-loop", "C09 C20", (QB, "    cls.A = np.array(cls.A, dtype=float)\n    cls.b = np.array(cls.b, dtype=float)\n    cls.c = np.array(cls.c, dtype=float)\n    if cls.b2 is not None:\n        cls.b2 = np.array(cls.b2, dtype=float)\n", "    for name in [\"A\", \"b\", \"c\", \"b2\"]:\n        value = getattr(cls, name)\n        if value is not None:\n            setattr(cls, name, np.array(value, dtype=float))\n"))
rf("B-hcoef", "C10 C14", (QB, "            hCoeffs = np.zeros_like(self.c)\n            hCoeffs[-1] = 1\n            return hCoeffs\n", "            hCoeffs = np.zeros(self.nNodes)\n            hCoeffs[self.nNodes-1] = 1.\n            return hCoeffs\n"))

DI = "qmat/qdelta/__init__.py"
rf("D-get-explicit", "C14 C15 C08", (DI, "        try:\n            QDelta = self._QDelta[k] if self._K_DEPENDENT else self._QDelta\n        except Exception as e:\n            QDelta = self.computeQDelta(k)\n            if type(e) == AttributeError:\n                self._QDelta = {k: QDelta} if self._K_DEPENDENT else QDelta\n            elif type(e) == KeyError:\n                self._QDelta[k] = QDelta\n            else:\n                raise Exception(\"some very weird bug happened ... did you do fishy stuff ?\")\n",
   "        if self._K_DEPENDENT:\n            if not hasattr(self, \"_QDelta\"):\n                self._QDelta = {}\n            if k not in self._QDelta:\n                self._QDelta[k] = self.computeQDelta(k)\n            QDelta = self._QDelta[k]\n        else:\n            if not hasattr(self, \"_QDelta\"):\n                self._QDelta = self.computeQDelta(k)\n            QDelta = self._QDelta\n"))
rf("D-get-nocache", "C14 C15 C08", (DI, "        try:\n            QDelta = self._QDelta[k] if self._K_DEPENDENT else self._QDelta\n        except Exception as e:\n            QDelta = self.computeQDelta(k)\n            if type(e) == AttributeError:\n                self._QDelta = {k: QDelta} if self._K_DEPENDENT else QDelta\n            elif type(e) == KeyError:\n                self._QDelta[k] = QDelta\n            else:\n                raise Exception(\"some very weird bug happened ... did you do fishy stuff ?\")\n", "        QDelta = self.computeQDelta(k)\n"))
rf("D-S-diff", "C08 C14 C15", (DI, "        T = np.eye(M)\n        T[1:,:-1][np.diag_indices(M-1)] = -1\n        return T @ QDelta\n", "        SDelta = QDelta.copy()\n        SDelta[1:] -= QDelta[:-1]\n        return SDelta\n"))
rf("D-S-npdiff", "C08 C14 C15", (DI, "        T = np.eye(M)\n        T[1:,:-1][np.diag_indices(M-1)] = -1\n        return T @ QDelta\n", "        return np.diff(QDelta, axis=0, prepend=0)\n"))
rf("D-S-eye", "C08 C14 C15", (DI, "        T = np.eye(M)\n        T[1:,:-1][np.diag_indices(M-1)] = -1\n        return T @ QDelta\n", "        T = np.eye(M) + np.diag(-np.ones(M-1), k=-1)\n        return T.dot(QDelta)\n"))
rf("D-gen-method", "C08 C14 C15 C16", (DI, "        if form == \"Z2N\":\n            gen = lambda k, copy=False: self.getQDelta(k, copy)\n        elif form == \"N2N\":\n            gen = lambda k, copy=None: self.getSDelta(k)\n        else:\n            raise ValueError(f\"form must be Z2N or N2N, not {form}\")\n        try:\n            k = list(k)\n            out = [np.array([gen(_k, copy=False) for _k in k])]\n        except TypeError:\n            out = [gen(k, copy=True)]\n        if dTau:\n            out += [self.dTau]\n        return out if len(out) > 1 else out[0]\n",
   "        generators = {\"Z2N\": self.getQDelta, \"N2N\": self.getSDelta}\n        if form not in generators:\n            raise ValueError(f\"form must be Z2N or N2N, not {form}\")\n        gen = generators[form]\n        if np.ndim(k) > 0:\n            coeffs = np.array([gen(kk) for kk in k])\n        else:\n            coeffs = gen(k)\n        if dTau:\n            return [coeffs, self.dTau]\n        return coeffs\n"))
rf("D-gen-iter", "C08 C14 C15 C16", (DI, "        try:\n            k = list(k)\n            out = [np.array([gen(_k, copy=False) for _k in k])]\n        except TypeError:\n            out = [gen(k, copy=True)]\n", "        if hasattr(k, '__iter__'):\n            out = [np.array([gen(_k, copy=False) for _k in k])]\n        else:\n            out = [gen(k, copy=True)]\n"))
rf("D-gen-stack", "C08 C14 C15 C16", (DI, "            out = [np.array([gen(_k, copy=False) for _k in k])]\n", "            out = [np.stack([gen(_k, copy=False) for _k in k])]\n"))
rf("D-gen-def", "C08 C14 C15 C16", (DI, "            gen = lambda k, copy=False: self.getQDelta(k, copy)\n", "            def gen(k, copy=False):\n                return self.getQDelta(k, copy)\n"), (DI, "            gen = lambda k, copy=None: self.getSDelta(k)\n", "            def gen(k, copy=None):\n                return self.getSDelta(k)\n"))
rf("D-fn-lists", "C15 C16 C14", (DI, "            qDeltaType = qDeltaType + [qDeltaType[-1]]*(nSweeps-len(qDeltaType))\n", "            qDeltaType = list(qDeltaType)\n            while len(qDeltaType) < nSweeps:\n                qDeltaType.append(qDeltaType[-1])\n"))
rf("D-fn-range", "C15 C16 C14", (DI, "                k=[k+1 for k in range(nSweeps)], form=form, dTau=dTau)\n", "                k=list(range(1, nSweeps+1)), form=form, dTau=dTau)\n"))
rf("D-fn-enum1", "C15 C16 C14", (DI, "                [gen.genCoeffs(k+1, form) for k, gen in enumerate(gens)]\n", "                [gen.genCoeffs(k=k, form=form) for k, gen in enumerate(gens, start=1)]\n"))
rf("D-fn-loop", "C15 C16 C14", (DI, "            gens = [Gen(**params) for Gen in Generators]\n            out = [np.array(\n                [gen.genCoeffs(k+1, form) for k, gen in enumerate(gens)]\n                )]\n            if dTau:\n                out += [gens[0].dTau]\n", "            gens = [Gen(**params) for Gen in Generators]\n            mats = []\n            for k in range(nSweeps):\n                mats.append(gens[k].genCoeffs(k+1, form))\n            out = [np.array(mats)]\n            if dTau:\n                out.append(gens[0].dTau)\n"))
rf("D-fn-return", "C15 C16 C14", (DI, "            if dTau:\n                out += [gens[0].dTau]\n    return out if len(out) > 1 else out[0]\n", "            if dTau:\n                return [out[0], gens[0].dTau]\n            return out[0]\n"))
rf("D-fn-lookup", "C15 C16 C14 C20", (DI, "        try:\n            Generators = [QDELTA_GENERATORS[qDT] for qDT in qDeltaType]\n        except KeyError:\n            raise ValueError(f\"qDeltaType={qDeltaType} is not available\")\n", "        missing = [qDT for qDT in qDeltaType if qDT not in QDELTA_GENERATORS]\n        if missing:\n            raise ValueError(f\"qDeltaType={missing} is not available\")\n        Generators = [QDELTA_GENERATORS[qDT] for qDT in qDeltaType]\n"))
rf("D-fn-helper", "C15 C16 C14 C20", (DI, "            Generator = QDELTA_GENERATORS[qDeltaType]\n        except KeyError:\n            raise ValueError(f\"qDeltaType={qDeltaType} is not available\")\n        gen = Generator(**params)\n        return gen.genCoeffs(form=form, dTau=dTau)\n", "            gen = _instantiate(qDeltaType, params)\n        except KeyError:\n            raise ValueError(f\"qDeltaType={qDeltaType} is not available\")\n        return gen.genCoeffs(form=form, dTau=dTau)\n"), (DI, "def genQDeltaCoeffs(qDelta", "def _instantiate(name, params):\n    Generator = QDELTA_GENERATORS[name]\n    return Generator(**params)\n\n\ndef genQDeltaCoeffs(qDelta"))
rf("D-zeros-like", "C11 C12 C14", (DI, "        M = self.size\n        return np.zeros((M, M), dtype=float)\n", "        return np.zeros((self.size, self.size))\n"))
rf("D-reg-params", "C20", (DI, "    try:\n        sig = inspect.signature(cls.computeQDelta)\n        par = sig.parameters[\"k\"]\n        assert par.kind == par.POSITIONAL_OR_KEYWORD\n        if par.default is not None:\n            cls._K_DEPENDENT = True\n    except (KeyError, AssertionError):\n        raise AssertionError(f\"{cls.__name__} class does not properly override the computeQDelta method\")\n",
   "    par = inspect.signature(cls.computeQDelta).parameters.get(\"k\")\n    if par is None or par.kind != par.POSITIONAL_OR_KEYWORD:\n        raise AssertionError(f\"{cls.__name__} class does not properly override the computeQDelta method\")\n    if par.default is not None:\n        cls._K_DEPENDENT = True\n"))

AL = "qmat/qdelta/algebraic.py"
rf("A-lu-idx", "C12", (AL, "        _, _, U = spl.lu(self.Q.T)\n        return U.T\n", "        P, L, U = spl.lu(np.transpose(self.Q))\n        return np.transpose(U)\n"))
rf("A-lu2", "C12", (AL, "        return super().computeQDelta()*2\n", "        return 2*super().computeQDelta(k)\n"))
rf("A-lu2-q", "C12", (AL, "        return super().computeQDelta()*2\n", "        _, _, U = spl.lu(2*self.Q.T)\n        return U.T\n"))
rf("A-lu-perm", "C12", (AL, "        _, _, U = spl.lu(self.Q.T)\n", "        _, U = spl.lu(self.Q.T, permute_l=True)\n"))
rf("A-qpar-eye", "C12", (AL, "        return np.diag(np.diag(self.Q))\n", "        return self.Q * np.eye(self.size)\n"))
rf("A-qpar-loop", "C12", (AL, "        return np.diag(np.diag(self.Q))\n", "        QDelta = self.zeros\n        for m in range(self.size):\n            QDelta[m, m] = self.Q[m, m]\n        return QDelta\n"))
rf("A-qpar-diagonal", "C12", (AL, "        return np.diag(np.diag(self.Q))\n", "        return np.diag(self.Q.diagonal())\n"))
rf("A-gs-loop", "C12", (AL, "        return np.tril(self.Q)\n", "        QDelta = self.zeros\n        for i in range(self.size):\n            QDelta[i, :i+1] = self.Q[i, :i+1]\n        return QDelta\n"))
rf("A-gs-tri", "C12", (AL, "        return np.tril(self.Q)\n", "        return np.where(np.tri(self.size, dtype=bool), self.Q, 0.)\n"))
rf("A-gs-triu", "C12", (AL, "        return np.tril(self.Q)\n", "        return self.Q - np.triu(self.Q, k=1)\n"))
rf("A-ldu-unpack", "C12", (AL, "        return lduFactorization(self.Q)[1]\n", "        _, D, _ = lduFactorization(self.Q)\n        return D\n"))
rf("A-exact-array", "C12", (AL, "        return self.Q.copy()  # TODO: do we really want a copy here ... ?\n", "        return np.array(self.Q)\n"))

TS = "qmat/qdelta/timestepping.py"
BEC = "        for i in range(M):\n            QDelta[i:, :M-i] += np.diag(deltas[:M-i])\n        return QDelta\n"
rf("T-be-tile", "C11", (TS, BEC, "        return np.tril(np.tile(deltas, (M, 1)))\n"))
rf("T-be-tri", "C11", (TS, BEC, "        return np.tri(M) * deltas\n"))
rf("T-be-loop", "C11", (TS, BEC, "        for i in range(M):\n            for j in range(i+1):\n                QDelta[i, j] = deltas[j]\n        return QDelta\n"))
rf("T-be-cols", "C11", (TS, BEC, "        for j in range(M):\n            QDelta[j:, j] = deltas[j]\n        return QDelta\n"))
rf("T-be-rows", "C11", (TS, BEC, "        for i in range(M):\n            QDelta[i, :i+1] = deltas[:i+1]\n        return QDelta\n"))
FEC = "        for i in range(1, M):\n            QDelta[i:, :M-i] += np.diag(deltas[1:M-i+1])\n        return QDelta\n"
rf("T-fe-cols", "C11", (TS, FEC, "        for j in range(M-1):\n            QDelta[j+1:, j] = deltas[j+1]\n        return QDelta\n"))
rf("T-fe-tril", "C11", (TS, FEC, "        QDelta[:, :-1] = deltas[1:]\n        return np.tril(QDelta, k=-1)\n"))
rf("T-fe-rows", "C11", (TS, FEC, "        for i in range(1, M):\n            QDelta[i, :i] = deltas[1:i+1]\n        return QDelta\n"))
rf("T-trap-avg", "C11", (TS, "        for i in range(0, M):\n            QDelta[i:, :M-i] += np.diag(deltas[:M-i])\n        for i in range(1, M):\n            QDelta[i:, :M-i] += np.diag(deltas[1:M-i+1])\n        QDelta /= 2.0\n        return QDelta\n", "        for i in range(M):\n            QDelta[i:, :M-i] += np.diag(deltas[:M-i])\n            if i > 0:\n                QDelta[i:, :M-i] += np.diag(deltas[1:M-i+1])\n        return QDelta/2\n"))
rf("T-trap-half", "C11", (TS, "        for i in range(0, M):\n            QDelta[i:, :M-i] += np.diag(deltas[:M-i])\n        for i in range(1, M):\n            QDelta[i:, :M-i] += np.diag(deltas[1:M-i+1])\n        QDelta /= 2.0\n        return QDelta\n", "        half = deltas/2\n        for i in range(M):\n            QDelta[i, :i+1] += half[:i+1]\n            QDelta[i, :i] += half[1:i+1]\n        return QDelta\n"))
rf("T-trap-combo", "C11", (TS, "        for i in range(0, M):\n            QDelta[i:, :M-i] += np.diag(deltas[:M-i])\n        for i in range(1, M):\n            QDelta[i:, :M-i] += np.diag(deltas[1:M-i+1])\n        QDelta /= 2.0\n        return QDelta\n", "        params = dict(nodes=self.nodes, tLeft=self.tLeft)\n        return (BE(**params).computeQDelta() + FE(**params).computeQDelta())/2\n"))
rf("T-dtau-full", "C11", (TS, "        return self.nodes*0 + self.deltas[0]\n", "        return np.full(self.size, self.deltas[0])\n"))
rf("T-dtau-ones", "C11", (TS, "        return self.nodes*0 + self.deltas[0]/2.0\n", "        return np.ones_like(self.nodes)*self.deltas[0]/2\n"))
rf("T-deltas-diff", "C11 C16", (TS, "        deltas = nodes.copy()\n        deltas[0] = nodes[0] - tLeft\n        deltas[1:] = np.ediff1d(nodes)\n", "        deltas = np.diff(nodes, prepend=tLeft)\n"))
rf("T-deltas-concat", "C11 C16", (TS, "        deltas = nodes.copy()\n        deltas[0] = nodes[0] - tLeft\n        deltas[1:] = np.ediff1d(nodes)\n", "        deltas = np.concatenate([[nodes[0] - tLeft], nodes[1:] - nodes[:-1]])\n"))
rf("T-deltas-diff1", "C11 C16", (TS, "        deltas[1:] = np.ediff1d(nodes)\n", "        deltas[1:] -= nodes[:-1]\n"))
rf("T-soe-alpha", "C11", (TS, "        alpha = [\n            LagrangeApproximation(times[i:i+3]).getDerivativeMatrix()[1]\n            for i in range(M-1)\n            ]\n        for m in range(1, M):\n            am1, a0, ap1 = alpha[m-1]\n", "        for m in range(1, M):\n            approx = LagrangeApproximation(times[m-1:m+2])\n            am1, a0, ap1 = approx.getDerivativeMatrix()[1]\n"))
rf("T-soe-vec", "C11", (TS, "            for j in range(m-1):\n                QDelta[m, j] = -a0/ap1*QDelta[m-1, j]\n                if m > 1:\n                    QDelta[m, j] -= am1/ap1*QDelta[m-2, j]\n", "            QDelta[m, :m-1] = -a0/ap1*QDelta[m-1, :m-1]\n            if m > 1:\n                QDelta[m, :m-1] -= am1/ap1*QDelta[m-2, :m-1]\n"))
rf("T-bepar", "C11", (TS, "        return np.diag(self.nodes - self.tLeft)\n", "        return np.diag(np.cumsum(self.deltas))\n"))
rf("T-trapar", "C11", (TS, "        return np.diag((self.nodes - self.tLeft)/2)\n", "        return np.diag(self.nodes - self.tLeft)/2\n"))

DG = "qmat/qdelta/diag.py"
rf("G-check", "C13 C14", (DG, "    if k is None: k = 1\n    if k < 1: raise ValueError(f\"k must be greater than 0 ({k})\")\n    return k\n", "    k = 1 if k is None else k\n    if not k >= 1:\n        raise ValueError(f\"k must be greater than 0 ({k})\")\n    return k\n"))
rf("G-table-nested", "C13", (DG, "            coeffs = table[self.nodeType][self.quadType][self.size]\n            coeffs = np.asarray(coeffs, dtype=float)\n", "            byQuad = table[self.nodeType]\n            coeffs = np.array(byQuad[self.quadType][self.nNodes], dtype=float)\n"))
rf("G-table-helper", "C13 C14", (DG, "        name = self.__class__.__name__\n        try:\n            table = getattr(tables, name)\n", "        name = type(self).__name__\n        try:\n            table = vars(tables)[name]\n"))
rf("G-ns", "C13", (DG, "        return np.diag(self.nodes)/self.size\n", "        return np.diag(self.nodes/len(self.nodes))\n"))
rf("G-jumper", "C13 C14", (DG, "        k = check(k)\n        return np.diag(self.nodes)/(2*k)\n", "        return np.diag(self.nodes/(2*check(k)))\n"))
rf("G-flexj", "C13 C14", (DG, "        divider = 1 if k == 1 else 2*(k-1)\n        return np.diag(self.nodes)/divider\n", "        if k == 1:\n            return np.diag(self.nodes)\n        return super().computeQDelta(k-1)\n"))
rf("G-flexj-max", "C13 C14", (DG, "        divider = 1 if k == 1 else 2*(k-1)\n", "        divider = max(1, 2*(k-1))\n"))
rf("G-dnodes", "C13", (DG, "        return np.diag(self.nodes)/self.divider\n", "        coeffs = self.nodes/self.divider\n        return np.diag(coeffs)\n"))
rf("G-flex-early", "C13 C14", (DG, "        if k <= self.size:\n            return np.diag(self.coll.nodes/k)\n        else:\n            try:\n                self._QDelta_MIN_SR_S\n            except AttributeError:\n                self._QDelta_MIN_SR_S = super().computeQDelta()\n            return self._QDelta_MIN_SR_S\n", "        if k > self.size:\n            if not hasattr(self, \"_QDelta_MIN_SR_S\"):\n                self._QDelta_MIN_SR_S = super().computeQDelta()\n            return self._QDelta_MIN_SR_S\n        return np.diag(self.coll.nodes)/k\n"))
rf("G-coll-one", "C13 C14", (DG, "        if M == self.size:\n            collM = self.coll\n        else:\n            collM = Collocation(nNodes=M, nodeType=nodeType, quadType=quadType)\n", "        collM = self.coll if M == self.size else Collocation(M, nodeType, quadType)\n"))
rf("G-nilp", "C13 C14", (DG, "                kMats = [(1 - z) * np.eye(nCoeffs) + z * np.diag(1 / coeffs) @ QM for z in nodesM]\n                vals = [np.linalg.det(K) - 1 for K in kMats]\n                return np.array(vals)\n", "                vals = []\n                for z in nodesM:\n                    K = (1 - z)*np.eye(nCoeffs) + z*QM/coeffs[:, None]\n                    vals.append(np.linalg.det(K) - 1)\n                return np.array(vals)\n"))
rf("G-zero-first", "C13 C14", (DG, "            coeffs = np.asarray([0.0] + list(coeffs))\n            nodesM = np.asarray([0.0] + list(nodesM))\n", "            coeffs = np.concatenate([[0.0], coeffs])\n            nodesM = np.concatenate([[0.0], nodesM])\n"))

U = "qmat/utils/__init__.py"
rf("U-store-set", "C20", (U, "    for i, name in enumerate(names):\n        assert name not in dico and name not in names[:i], \\\n            f\"{name} alias already registered in {dico}\"\n", "    assert len(set(names)) == len(names), f\"duplicated names for {cls.__name__}\"\n    for name in names:\n        assert name not in dico, f\"{name} alias already registered in {dico}\"\n"))
rf("U-store-update", "C20", (U, "    for name in names:\n        storeAlias(cls, dico, name)\n", "    dico.update({name: cls for name in names})\n"))
rf("U-store-hasattr", "C20", (U, "    names = [cls.__name__]\n    aliases = getattr(cls, \"aliases\", None)\n    if aliases:\n        assert isinstance(aliases, list), \\\n            f\"aliases must be a list in class {cls.__name__}\"\n        names += aliases\n", "    aliases = getattr(cls, \"aliases\", None) or []\n    assert isinstance(aliases, list), \\\n        f\"aliases must be a list in class {cls.__name__}\"\n    names = [cls.__name__, *aliases]\n"))
rf("U-classes-set", "C20", (U, "    for key, cls in dico.items():\n        if cls not in classes.values() and check(cls):\n            classes[key] = cls\n    return classes\n", "    seen = set()\n    for key in dico:\n        cls = dico[key]\n        if cls in seen or not check(cls):\n            continue\n        seen.add(cls)\n        classes[key] = cls\n    return classes\n"))
rf("U-classes-split", "C20", (U, "        check = lambda cls: cls.__module__.endswith(\".\"+module)\n", "        check = lambda cls: (\".\" + cls.__module__.split(\".\", 1)[-1]).endswith(\".\" + module) and \".\" in cls.__module__\n"))
rf("U-useq-dict", "C16", (U, "        params = {name: value for name, value in zip(pNames, args)}\n        qGen = kwargs.pop(\"qGen\", None)\n        params.update(kwargs)\n        if qGen is not None:\n            qGenParams = self.extractParams(qGen)\n            qGenParams.update(params)\n            params = qGenParams\n        __init__(self, **params)\n", "        qGen = kwargs.pop(\"qGen\", None)\n        params = {} if qGen is None else self.extractParams(qGen)\n        params.update(zip(pNames, args))\n        params.update(kwargs)\n        __init__(self, **params)\n"))
rf("U-useq-merge", "C16", (U, "            qGenParams = self.extractParams(qGen)\n            qGenParams.update(params)\n            params = qGenParams\n", "            params = {**self.extractParams(qGen), **params}\n"))
rf("U-override", "C20", (U, "    assert method != parent, \\\n        f\"{name} method must be overriden in {cls.__name__} class\"\n    if isProperty:\n        assert type(method) == property, \\\n            f\"{name} method must be a property in {cls.__name__} class\"\n    else:\n        pass\n", "    if method == parent:\n        raise AssertionError(f\"{name} method must be overriden in {cls.__name__} class\")\n    if isProperty and not isinstance(method, property):\n        raise AssertionError(f\"{name} method must be a property in {cls.__name__} class\")\n"))

NU = "qmat/utils/num.py"
rf("M-order-ln", "C19", (NU, "    x, y = np.log10(1/nSteps), np.log10(err)\n", "    x, y = -np.log10(nSteps), np.log10(err)\n"))
rf("M-order-dot", "C19", (NU, "    sX = ((x-xMean)**2).sum()\n    sXY = ((x-xMean)*(y-yMean)).sum()\n", "    dx, dy = x - xMean, y - yMean\n    sX, sXY = np.dot(dx, dx), np.dot(dx, dy)\n"))
rf("M-order-rmse", "C19", (NU, "    yHat = alpha + beta*x\n    rmse = ((y-yHat)**2).sum()**0.5\n    rmse /= x.size**0.5\n    return beta, rmse\n", "    residuals = y - (alpha + beta*x)\n    rmse = np.sqrt(np.mean(residuals**2))\n    return beta, rmse\n"))
rf("M-order-norm", "C19", (NU, "    rmse = ((y-yHat)**2).sum()**0.5\n    rmse /= x.size**0.5\n", "    rmse = np.linalg.norm(y-yHat)/np.sqrt(x.size)\n"))
rf("M-ldu-dot", "C19", (NU, "np.sum(L[i, :i] * D[:i, :i].diagonal() * U[:i, i])\n        for j", "np.dot(L[i, :i] * np.diag(D)[:i], U[:i, i])\n        for j"))
rf("M-ldu-vec1d", "C19", (NU, "        D[i, i] = A[i, i] - np.sum(L[i, :i] * D[:i, :i].diagonal() * U[:i, i])\n        for j", "        d = D[:i, :i].diagonal()\n        D[i, i] = A[i, i] - np.sum(L[i, :i] * d * U[:i, i])\n        for j"), (NU, "np.sum(L[j, :i] * D[:i, :i].diagonal() * U[:i, i])", "np.sum(L[j, :i] * d * U[:i, i])"), (NU, "np.sum(L[i, :i] * D[:i, :i].diagonal() * U[:i, j])", "np.sum(L[i, :i] * d * U[:i, j])"))
rf("M-ldu-twoloops", "C19", (NU, "            # Compute elements for U above the diagonal\n", "        for j in range(i + 1, n):\n            # Compute elements for U above the diagonal\n"))
rf("M-ldu-vec", "C19", (NU, "            L[j, i] = (A[j, i] - np.sum(L[j, :i] * D[:i, :i].diagonal() * U[:i, i])) / D[i, i]\n", "            s = 0.0\n            for k in range(i):\n                s += L[j, k] * D[k, k] * U[k, i]\n            L[j, i] = (A[j, i] - s) / D[i, i]\n"))
rf("M-extra-pinv", "C19", (NU, "    P = T @ np.linalg.solve(X.T @ X, X.T)\n    return P", "    normal = X.T @ X\n    return np.dot(T, np.linalg.solve(normal, X.T))\n"))
rf("M-extra-len", "C19", (NU, "    if pOrder is None: pOrder = np.size(nodes)-1\n", "    nodes = np.asarray(nodes)\n    if pOrder is None:\n        pOrder = nodes.size - 1\n"))
rf("M-extra-pow", "C19", (NU, "    X = np.vander(nodes, N=pOrder+1, increasing=True)\n", "    X = np.asarray(nodes)[:, None]**np.arange(pOrder+1)\n"))

SD = "qmat/utils/sdc.py"
rf("S-list", "C18", (SD, "        QDelta = np.repeat(QDelta[None, ...], nSweeps, axis=0)\n", "        QDelta = np.array([QDelta]*nSweeps).reshape((nSweeps, nNodes, nNodes))\n"))
rf("S-broadcast", "C18", (SD, "        QDelta = np.repeat(QDelta[None, ...], nSweeps, axis=0)\n", "        QDelta = np.broadcast_to(QDelta, (nSweeps, nNodes, nNodes))\n"))
rf("S-tile", "C18", (SD, "        QDelta = np.repeat(QDelta[None, ...], nSweeps, axis=0)\n", "        QDelta = np.tile(QDelta, (nSweeps, 1, 1))\n"))
rf("S-perloop", "C18", (SD, "    P = np.eye(nNodes)[None, ...] - lam*dt*QDelta\n", ""), (SD, "            uNodes = np.linalg.solve(P[k], b)\n", "            uNodes = np.linalg.solve(np.eye(nNodes) - lam*dt*QDelta[k], b)\n"))
rf("S-helper", "C18", (SD, "    for i in range(nSteps):\n\n        uNodes", "    def record(k, i, uNodes):\n        if monitors:\n            if \"residuals\" in monitors:\n                monitors[\"residuals\"][k, i] = uNum[i] + lam*dt*Q @ uNodes - uNodes\n            if \"errors\" in monitors:\n                monitors[\"errors\"][k, i] = uNodes - u0*np.exp(lam*(times[i] + dt*nodes))\n\n    for i in range(nSteps):\n\n        uNodes"),
   (SD, "        # Monitoring\n        if monitors:\n            if \"residuals\" in monitors:\n                monitors[\"residuals\"][0, i] = uNum[i] + lam*dt*Q @ uNodes - uNodes\n            if \"errors\" in monitors:\n                monitors[\"errors\"][0, i] = uNodes - u0*np.exp(lam*(times[i] + dt*nodes))\n", "        record(0, i, uNodes)\n"),
   (SD, "            # Monitoring\n            if monitors:\n                if \"residuals\" in monitors:\n                    monitors[\"residuals\"][k+1, i] = uNum[i] + lam*dt*Q @ uNodes - uNodes\n                if \"errors\" in monitors:\n                    monitors[\"errors\"][k+1, i] = uNodes - u0*np.exp(lam*(times[i] + dt*nodes))\n", "            record(k+1, i, uNodes)\n"))
rf("S-full", "C18", (SD, "        uNodes = np.ones(nNodes)*uNum[i]\n", "        uNodes = np.full(nNodes, uNum[i])\n"))
rf("S-last-ternary", "C18", (SD, "        if weights is None:\n            uNum[i+1] = uNodes[-1]\n        else:\n            uNum[i+1] = uNum[i] + lam*dt*weights.dot(uNodes)\n", "        uNum[i+1] = uNodes[nNodes-1] if weights is None else uNum[i] + lam*dt*np.dot(weights, uNodes)\n"))
rf("S-prev", "C18", (SD, "            b = uNum[i] + lam*dt*(Q-QDelta[k]) @ uNodes\n", "            b = uNum[i] + lam*dt*(Q @ uNodes - QDelta[k] @ uNodes)\n"))
rf("S-z", "C18", (SD, "    P = np.eye(nNodes)[None, ...] - lam*dt*QDelta\n", "    z = lam*dt\n    P = np.eye(nNodes) - z*QDelta\n"), (SD, "            b = uNum[i] + lam*dt*(Q-QDelta[k]) @ uNodes\n", "            b = uNum[i] + z*((Q-QDelta[k]) @ uNodes)\n"))
rf("S-mon-dict", "C18", (SD, "        tmp = {}\n        for key in monitors:\n            assert key in [\"residuals\", \"errors\"], f\"unknown key '{key}' for monitors\"\n            tmp[key] = np.zeros((nSweeps+1, nSteps, nNodes), dtype=complex)\n        monitors = tmp\n", "        for key in monitors:\n            assert key in [\"residuals\", \"errors\"], f\"unknown key '{key}' for monitors\"\n        monitors = {key: np.zeros((nSweeps+1, nSteps, nNodes), dtype=complex) for key in monitors}\n"))
rf("S-err", "C18", (SD, "    return np.linalg.norm(uNum-uExact, ord=np.inf)\n", "    return np.abs(uNum-uExact).max()\n"))
rf("S-order-max", "C18 C21", (SD, "    order = 0\n    if nSweeps > 0:\n        # first sweep\n        if qDelta in ['TRAPAR', 'TRAP']:\n            order += 2\n        else:\n            order += 1\n        # rest of sweeps\n        order += nSweeps-1\n", "    order = 0\n    if nSweeps > 0:\n        order = nSweeps + (1 if qDelta in ['TRAPAR', 'TRAP'] else 0)\n"))
rf("S-nodes-dot", "C18", (SD, "    nodes = Q.sum(axis=1)\n", "    nodes = Q @ np.ones(Q.shape[0])\n"))
rf("S-order-max3", "C23", (SD, "    order = 0\n    if nSweeps > 0:\n        # first sweep\n        if qDelta in ['TRAPAR', 'TRAP']:\n            order += 2\n        else:\n            order += 1\n        # rest of sweeps\n        order += nSweeps-1\n", "    order = 0\n    if nSweeps > 0:\n        order = nSweeps + (1 if qDelta in ['TRAPAR', 'TRAP'] else 0)\n"))
rf("S-order-int", "C23", (SD, "            if nSweeps == 3 and nNodes == 4 and nodeType == \"EQUID\":\n                order += 1\n", "            order += int(nSweeps == 3 and nNodes == 4 and nodeType == \"EQUID\")\n"))
rf("S-order-early", "C23", (SD, "    order = min(maxOrder, order)\n", "    if order > maxOrder:\n        order = maxOrder\n    if stepUpdate not in (\"QUADRATURE\", \"LASTNODE\"):\n        return order\n"))
rf("S-order-tuple", "C23", (SD, "            if nSweeps == 4 and nNodes == 3 and nodeType == \"CHEBY-4\" and quadType == \"RADAU-RIGHT\":\n                order += 1\n        if qDelta == \"FE\":\n            if nSweeps == 3 and nNodes == 3 and nodeType == \"EQUID\"", "            if (nSweeps, nNodes, nodeType, quadType) == (4, 3, \"CHEBY-4\", \"RADAU-RIGHT\"):\n                order += 1\n        if qDelta == \"FE\":\n            if nSweeps == 3 and nNodes == 3 and nodeType == \"EQUID\""))
rf("S-order-dict", "C23", (SD, "    if stepUpdate == \"LASTNODE\":        # 85 special combinations\n        if qDelta == \"BE\":\n            if nSweeps == 4 and nNodes == 3 and nodeType == \"CHEBY-4\" and quadType == \"RADAU-RIGHT\":\n                order += 1\n", "    if stepUpdate == \"LASTNODE\":        # 85 special combinations\n        bonus = {(4, 3, \"CHEBY-4\", \"RADAU-RIGHT\"): 1}\n        if qDelta == \"BE\":\n            order += bonus.get((nSweeps, nNodes, nodeType, quadType), 0)\n"))
rf("S-order-helper", "C23 C21", (SD, "    # Maximum order from the collocation problem\n    maxOrder = coll.order\n", "    def capped(value):\n        return min(coll.order, value)\n"), (SD, "    order = min(maxOrder, order)\n", "    order = capped(order)\n"))
rf("S-order-in", "C23", (SD, "            if nSweeps == 4 and nNodes == 4 and nodeType == \"LEGENDRE\" and quadType == \"RADAU-RIGHT\":\n                order += 2\n", "            if nSweeps in (4,) and nNodes in {4} and nodeType.startswith(\"LEG\") and quadType == \"RADAU-RIGHT\":\n                order += 2\n"))
