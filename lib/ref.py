"""Reference model of the nine indices, in extended precision and straight from the definitions.

Nothing here is shared with the code under test.  Every value comes with an error bound `tol`: how far a
correct double-precision implementation (batch or incremental, any summation order) may be from it, first
order, with generous constants.  status is
  ok     the definition is defined and the bound is small: values can be compared
  ill    defined, but too ill-conditioned for double precision to say anything
  undef  the definition divides by zero (up to rounding)
"""
import numpy as np

LD = np.longdouble
EPS = 2.220446049250313e-16
NAMES = ("CH", "cSIL", "DB", "GD43", "GD53", "PS", "rCIP", "WB", "XB")


class Ref:
    def __init__(self, X, y):
        X = np.asarray(X, dtype=LD)
        y = np.asarray(y)
        self.n, self.d = X.shape
        self.X = X
        _, inv = np.unique(y, return_inverse=True)
        self.inv = inv.reshape(-1)
        self.k = int(self.inv.max()) + 1 if self.n else 0
        k, d = self.k, self.d
        self.size = np.bincount(self.inv, minlength=k)
        self.mu = X.mean(axis=0)
        self.v = np.zeros((k, d), dtype=LD)
        self.CP = np.zeros(k, dtype=LD)
        self.groups = []
        for i in range(k):
            G = X[self.inv == i]
            self.groups.append(G)
            self.v[i] = G.mean(axis=0)
            self.CP[i] = ((G - self.v[i]) ** 2).sum()
        self.S = self.CP / self.size
        self.W = self.CP.sum()
        self.B = (self.size * ((self.v - self.mu) ** 2).sum(axis=1)).sum()
        diff = self.v[:, None, :] - self.v[None, :, :]
        self.D = (diff ** 2).sum(axis=2)
        self.M = float(np.sqrt((X ** 2).sum(axis=1).max())) if self.n else 0.0
        self.KE = 8.0 * (8 + self.n) * EPS
        # error of a mean squared distance, and of a distance between means
        self.R = 2 * float(np.sqrt(((X - self.mu) ** 2).sum(axis=1).max())) if self.n else 0.0
        self.eN = self.KE * self.M
        self.eS = self.eN * (self.R + self.eN)
        self._cache = {}

    # ---- helpers
    def _eD(self, D):
        return 2 * self.eN * (np.sqrt(np.asarray(D, dtype=float)) + self.eN)

    def _offdiag(self, A):
        return A[np.triu_indices(self.k, 1)]

    def get(self, name):
        if name not in self._cache:
            if self.k < 2:
                self._cache[name] = (0.0, 0.0, "ok")
            else:
                val, tol = getattr(self, "_" + name)()
                if val is None:
                    self._cache[name] = (float("nan"), float("inf"), "undef")
                else:
                    val = float(val)
                    tol = 4 * float(tol) + 1e-9 * abs(val) + 1e-250
                    if name in ("cSIL", "PS"):
                        tol += 1e-9
                    if not np.isfinite(val) or not np.isfinite(tol):
                        st = "ill"
                    elif name == "rCIP":
                        st = "ok" if tol <= 1e-4 * abs(val) + 2e-250 else "ill"
                    else:
                        st = "ok" if tol <= 1e-4 * max(abs(val), 1e-4) else "ill"
                    self._cache[name] = (val, tol, st)
        return self._cache[name]

    # ---- definitions
    def _CH(self):
        e = self.n * self.eS
        if self.W <= e:
            return None, None
        f = LD(self.n - self.k) / (self.k - 1)
        val = self.B / self.W * f
        return val, float((e + (self.B / self.W) * e) / self.W * f)

    def _WB(self):
        e = self.n * self.eS
        if self.B <= e:
            return None, None
        val = self.k * self.W / self.B
        return val, float((self.k * e + val * e) / self.B)

    def _minD(self):
        D = self._offdiag(self.D)
        m = D.min()
        return m, float(self._eD(m))

    def _XB(self):
        m, eD = self._minD()
        if m <= eD:
            return None, None
        val = self.W / (self.n * m)
        return val, float((self.eS + val * eD) / m)

    def _DB(self):
        k = self.k
        eD = self._eD(self.D)
        off = ~np.eye(k, dtype=bool)
        if (self.D[off] <= eD[off]).any():
            return None, None
        Dsafe = np.where(off, self.D, LD(1))
        R = (self.S[:, None] + self.S[None, :]) / Dsafe
        R[~off] = 0
        err = (2 * self.eS + R.astype(float) * eD) / Dsafe.astype(float)
        err[~off] = 0
        return R.max(axis=0).mean(), err.max(axis=0).mean()

    def _GD43(self):
        m, _ = self._minD()
        intra = 2 * self.S.max()
        if intra <= 2 * self.eS:
            return None, None
        val = np.sqrt(m) / intra
        return val, float((2 * self.eN + val * 2 * self.eS) / intra)

    def _GD53(self):
        CP, n = self.CP, self.size
        inter = self._offdiag((CP[:, None] + CP[None, :]) / (n[:, None] + n[None, :])).min()
        intra = 2 * self.S.max()
        if intra <= 2 * self.eS:
            return None, None
        val = inter / intra
        return val, float((self.eS + val * 2 * self.eS) / intra)

    def _PS(self):
        k = self.k
        vb = self.v.mean(axis=0)
        beta = ((self.v - vb) ** 2).sum() / k
        eb = float(self._eD(beta)) + 2 * self.eN ** 2
        if beta <= eb:
            return None, None
        D = self.D.copy()
        D[np.arange(k), np.arange(k)] = np.inf
        m = D.min(axis=1)
        t = m / beta
        ex = np.exp(-t)
        val = (LD(1) * self.size / self.size.max() - ex).sum()
        err = (ex.astype(float) * (self._eD(m) + t.astype(float) * eb) / float(beta)).sum()
        return val, float(err) + k * 4 * EPS

    def _cSIL(self):
        # S[j, i]: mean squared distance of cluster j's samples to the mean of cluster i
        S = self.S[:, None] + self.D
        k = self.k
        val, err = LD(0), 0.0
        for i in range(k):
            a = S[i, i]
            b = np.delete(S[:, i], i).min()
            m = max(a, b)
            if m <= 2 * self.eS:
                return None, None
            val += (b - a) / m
            err += float(4 * self.eS / m)
        return val / k, err / k

    def _sigmas(self):
        if not hasattr(self, "_sig"):
            d = self.d
            delta = LD(10) ** (-LD(12) / d)
            self._sig = np.zeros((self.k, d, d), dtype=LD)
            for i, G in enumerate(self.groups):
                if len(G) > 1:
                    Z = G - self.v[i]
                    self._sig[i] = (Z[:, :, None] * Z[:, None, :]).sum(axis=0) / (len(G) - 1)
                self._sig[i] += np.eye(d, dtype=LD) * delta
        return self._sig

    def _rCIP(self):
        d, k = self.d, self.k
        sig = self._sigmas()
        I, J = np.triu_indices(k, 1)
        Q = sig[I] + sig[J]                     # P x d x d
        m = self.v[I] - self.v[J]
        # Cholesky, vectorised over pairs, and z = L^-1 m
        L = np.zeros_like(Q)
        z = np.zeros_like(m)
        for c in range(d):
            s = Q[:, c, c] - (L[:, c, :c] ** 2).sum(axis=1)
            if (s <= 0).any():
                return None, None
            L[:, c, c] = np.sqrt(s)
            for r in range(c + 1, d):
                L[:, r, c] = (Q[:, r, c] - (L[:, r, :c] * L[:, c, :c]).sum(axis=1)) / L[:, c, c]
            z[:, c] = (m[:, c] - (L[:, c, :c] * z[:, :c]).sum(axis=1)) / L[:, c, c]
        q = (z ** 2).sum(axis=1) / 2
        logdet_half = np.log(np.abs(np.diagonal(L, axis1=1, axis2=2))).sum(axis=1)
        logval = -q - logdet_half - LD(d) / 2 * np.log(2 * LD(np.pi))
        pair = np.exp(logval)
        lam = np.linalg.eigvalsh(Q.astype(float))
        delta = 10.0 ** (-12.0 / d)
        lmin = np.maximum(lam[:, 0], 2 * delta * 0.999)
        lmax = lam[:, -1]
        qf = q.astype(float)
        e_rel = (d * 4 * self.eS + 8 * d * EPS * lmax) / lmin
        if (e_rel > 0.05).any():        # rounding can make the determinant zero or negative
            return pair.sum(), float("inf")
        e_rel = e_rel * (1 + 2 * qf) + np.sqrt(2 * qf / lmin) * 2 * self.eN + 1e-14 * (d + qf)
        if (e_rel > 30).any():
            e_rel = np.minimum(e_rel, 600)
        tol = (pair.astype(float) * np.expm1(e_rel)).sum()
        return pair.sum(), float(tol)


def close(got, val, tol):
    return bool(np.isfinite(got)) and abs(float(got) - val) <= tol
