"""Reference model of polynomial functions: coefficients in centred, scaled
monomials, with exact rules for evaluation, differentiation and products."""
import itertools
import math
from functools import lru_cache

import numpy as np

from . import cells


def exps_total(n, k):
    if k < 0:
        return []
    out = [e for e in itertools.product(range(k + 1), repeat=n) if sum(e) <= k]
    return sorted(out, key=lambda e: (sum(e), e))


class Space(object):
    """Polynomials on a product of simplices, total degree <= ks[i] in factor i."""

    def __init__(self, dims, ks, centre, scale):
        self.dims, self.ks = tuple(dims), tuple(ks)
        self.sd = sum(dims)
        sets = [exps_total(n, k) for n, k in zip(dims, ks)]
        self.exps = [sum(c, ()) for c in itertools.product(*sets)]
        self.index = {e: i for i, e in enumerate(self.exps)}
        self.N = len(self.exps)
        self.c = np.asarray(centre, float)
        self.s = float(scale)
        self._D = {}

    def V(self, pts):
        x = (np.asarray(pts, float).reshape(-1, self.sd) - self.c) / self.s
        kmax = max(self.ks) if self.ks else 0
        P = np.ones((kmax + 1,) + x.shape)
        for i in range(1, kmax + 1):
            P[i] = P[i - 1] * x
        out = np.ones((x.shape[0], self.N))
        for j, e in enumerate(self.exps):
            for d, i in enumerate(e):
                if i:
                    out[:, j] *= P[i][:, d]
        return out

    def D(self, d):
        """matrix M with coeffs(df/dx_d) = M @ coeffs(f)"""
        if d not in self._D:
            M = np.zeros((self.N, self.N))
            for j, e in enumerate(self.exps):
                if e[d]:
                    f = e[:d] + (e[d] - 1,) + e[d + 1:]
                    M[self.index[f], j] = e[d] / self.s
            self._D[d] = M
        return self._D[d]

    def deriv(self, C, alpha):
        for d, k in enumerate(alpha):
            for _ in range(k):
                C = C @ self.D(d).T
        return C

    def unit(self, e):
        v = np.zeros(self.N)
        v[self.index[tuple(e)]] = 1.0
        return v


@lru_cache(None)
def space(cellname, ks):
    c = cells.cell(cellname)
    if isinstance(ks, int):
        ks = (ks,) * len(c.dims)
    lo, hi = c.verts.min(axis=0), c.verts.max(axis=0)
    scale = max(0.5, float(np.max(hi - lo)) / 2) if c.sd else 1.0
    return Space(c.dims, ks, (lo + hi) / 2, scale)


@lru_cache(None)
def fit_setup(cellname, ks):
    """Sampling points (closed lattice of one degree more + generic interior)
    and the least-squares operator onto the model space."""
    c = cells.cell(cellname)
    sp = space(cellname, ks)
    kk = [k + 1 for k in sp.ks]
    pts = cells.product_points(c.dims, kk, lambda n, k: cells.spread_points(k) if n == 1 and k > 7 else cells.generic_points(n, k))
    V = sp.V(cells.to_cell(c, pts))
    return cells.to_cell(c, pts), V, np.linalg.pinv(V)


def fit(cellname, ks, values):
    """values: (..., npts) on fit_setup points -> (coeffs (..., N), residual)."""
    pts, V, P = fit_setup(cellname, ks)
    C = values @ P.T
    res = float(np.max(np.abs(C @ V.T - values))) if values.size else 0.0
    return C, res


def alphas(sd, k):
    return [a for a in itertools.product(range(k + 1), repeat=sd) if sum(a) == k]


def mult(sp_from, C, sp_to, factor):
    """coefficients in sp_to of f * factor, factor: {exps: coeff} in centred coordinates."""
    C = np.asarray(C)
    out = np.zeros(C.shape[:-1] + (sp_to.N,))
    for j, e in enumerate(sp_from.exps):
        if not np.any(C[..., j]):
            continue
        for g, w in factor.items():
            t = tuple(a + b for a, b in zip(e, g))
            out[..., sp_to.index[t]] += w * C[..., j]
    return out


def integrate_simplex(exps):
    """exact integral of prod x_i^e_i over the UFC simplex"""
    n = len(exps)
    num = 1.0
    for e in exps:
        num *= math.factorial(e)
    return num / math.factorial(sum(exps) + n)
