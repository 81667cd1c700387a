"""Helpers shared by the drivers."""
from collections import OrderedDict

import numpy as np

from . import catalog, cells, poly

_cache = OrderedDict()


def element(expr, fresh=False):
    if fresh:
        return catalog.build(expr)
    if expr not in _cache:
        while len(_cache) > 60:
            _cache.popitem(last=False)
        _cache[expr] = catalog.build(expr)
    return _cache[expr]


def flat(tab, nbf, shape):
    """(nbf, *shape, npts) -> (nbf, ncomp, npts)"""
    a = np.asarray(tab, dtype=float)
    nc = int(np.prod(shape)) if shape else 1
    if a.shape[0] != nbf or a.ndim != 2 + len(shape) or a.shape[1:-1] != tuple(shape):
        raise AssertionError("table has shape %s, expected (%d, *%s, npts)" % (a.shape, nbf, shape))
    return a.reshape(nbf, nc, a.shape[-1])


def tab0(el, pts, entity=None):
    sd = el.get_reference_element().get_spatial_dimension()
    t = el.tabulate(0, pts) if entity is None else el.tabulate(0, pts, entity)
    return flat(t[(0,) * sd], el.space_dimension(), el.value_shape())


_poly = OrderedDict()


def primal(e, el=None, key=None):
    """Model polynomials of all basis functions of entry e: (coeffs, residual)."""
    k = key or e.expr
    if k not in _poly:
        while len(_poly) > 6:
            _poly.popitem(last=False)
        el = el or element(e.expr)
        pts, _, _ = poly.fit_setup(e.cell, e.D)
        vals = tab0(el, [tuple(p) for p in pts])
        _poly[k] = poly.fit(e.cell, e.D, vals)
    return _poly[k]


def sp(e):
    return poly.space(e.cell, e.D)


def magnitude(C):
    return max(1.0, float(np.max(np.abs(C)))) if C.size else 1.0


def undefined(f):
    return not f.get_point_dict() and not f.deriv_dict


def apply_dual(dual, tabulate, sd, nbf, shape):
    """Apply every functional of `dual` to every basis function by plain
    summation of its point and derivative parts.  tabulate(order, pts) -> dict."""
    ell = list(dual)
    pts = OrderedDict()
    order = 0
    for f in ell:
        if undefined(f):
            continue
        for p in f.get_point_dict():
            pts.setdefault(tuple(p), len(pts))
        for p, terms in f.deriv_dict.items():
            pts.setdefault(tuple(p), len(pts))
            for (w, alpha, comp) in terms:
                order = max(order, sum(alpha))
    if not pts:
        pts[tuple([0.1] * sd)] = 0
    table = tabulate(order, list(pts))
    F = {}
    for a, t in table.items():
        F[a] = np.asarray(t, float)
    zero = (0,) * sd
    M = np.zeros((len(ell), nbf))
    mag = np.zeros((len(ell), nbf))
    npt = 0
    for i, f in enumerate(ell):
        if undefined(f):
            continue
        for p, terms in f.get_point_dict().items():
            j = pts[tuple(p)]
            for (w, comp) in terms:
                v = float(w) * F[zero][(slice(None),) + tuple(comp) + (j,)]
                M[i] += v
                mag[i] += abs(v)
                npt += 1
        for p, terms in f.deriv_dict.items():
            j = pts[tuple(p)]
            for (w, alpha, comp) in terms:
                v = float(w) * F[tuple(alpha)][(slice(None),) + tuple(comp) + (j,)]
                M[i] += v
                mag[i] += abs(v)
                npt += 1
    return M, mag, npt


def entries(tier, **kw):
    return OrderedDict((e.expr, e) for e in catalog.simplicial(tier, **kw))


def rank(A, tol=1e-9):
    s = np.linalg.svd(A, compute_uv=False)
    return int(np.sum(s > tol * max(1e-300, s[0]))) if s.size else 0


def in_span(A, B, tol=1e-8):
    """max residual of rows of A w.r.t. row space of B (rows normalised)."""
    if A.shape[0] == 0:
        return 0.0
    A = A / np.maximum(1e-300, np.linalg.norm(A, axis=1))[:, None]
    U, s, Vt = np.linalg.svd(B, full_matrices=False)
    Vt = Vt[s > 1e-10 * s[0]]
    R = A - (A @ Vt.T) @ Vt
    return float(np.max(np.abs(R)))
