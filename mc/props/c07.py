"""Quadrature: exactness, weights, containment, for every rule that can be made."""
import itertools
import math
from functools import lru_cache

import numpy as np
from FIAT import quadrature as Q
from FIAT.quadrature_schemes import create_quadrature

from .. import catalog, cells, poly

BOUNDS = {"quick": "create_quadrature (default, canonical, KMV schemes): degrees 0..100 on intervals, 0..36 on triangles, 0..20 on tetrahedra, "
                   "0..12/8 on product cells and hypercubes with per-direction degrees; make_quadrature, Gauss-Jacobi, Lobatto, Legendre, Radau, "
                   "face rules with 1..30 / 10 / 7 points per direction; all monomials up to the degree",
          "thorough": "degrees twice as high; line rules to 64 points"}
LIMIT_S = 300
ASSUMPTIONS = ["exact integrals of monomials are computed in rational arithmetic and rounded once"]

KMV = {"T": range(1, 6), "S": range(1, 4)}


def configs(tier):
    b = tier == "thorough"
    out = []
    for c, m in (("P", 6), ("I", 100), ("T", 36), ("S", 20), ("DI", 60), ("DT", 24), ("DS", 14), ("NT", 24), ("NS", 14)):
        for k in range(0, m * (2 if b else 1) + 1):
            for s in ("default", "canonical"):
                out.append(("create", c, k, s))
    for c, ks in KMV.items():
        for k in ks:
            out.append(("create", c, k, "KMV"))
    for c, m in (("Q", 14), ("H", 8), ("IxI", 10), ("TxI", 9), ("IxT", 7), ("QxI", 6), ("IxIxI", 6), ("SxI", 5), ("TxT", 5),
                 ("(IxI)xI", 5), ("(TxI)xI", 4), ("DTxDI", 6)):
        for k in range(0, m * (3 if b else 2) // 2 + 1):
            for s in ("default", "canonical"):
                out.append(("create", c, k, s))
    for c, m in (("IxI", 6), ("TxI", 6), ("IxT", 6), ("Q", 5), ("SxI", 4)):
        for d in itertools.product(range(m + 1), repeat=2):
            out.append(("create", c, d, "default"))
    for d in itertools.product(range(0, 7, 2), repeat=3):
        out.append(("create", "IxIxI", d, "default"))
        out.append(("create", "H", d, "default"))
        out.append(("create", "(TxI)xI", ((d[0], d[1]), d[2]), "default"))
    for c, m in (("P", 4), ("I", 30), ("T", 10), ("S", 7), ("Q", 7), ("H", 4), ("DI", 20), ("DT", 8), ("DS", 5), ("NT", 8), ("NS", 5)):
        for k in range(1, m * (2 if b else 1) + 1):
            out.append(("make", c, k, ""))
    for c in ("I", "DI"):
        for k in range(1, 65 if b else 31):
            for r in ("jacobi", "legendre", "lobatto", "radau-right", "radau-left"):
                if r != "lobatto" or k > 1:
                    out.append(("line", c, k, r))
    for k in range(1, 12 if b else 7):
        for f in range(4):
            out.append(("face", "S", k, f))
    return out


def cost(cfg):
    k = cfg[2] if isinstance(cfg[2], int) else 6
    return k * {"S": 5, "H": 20, "T": 2}.get(cfg[1], 1) + 10 * len(cfg[1])


def simplex_degrees(cellname, deg):
    """degree per simplex factor"""
    c = cells.cell(cellname)
    if not isinstance(deg, tuple):
        return (deg,) * len(c.factors)
    if c.flat:
        return deg
    return sum((simplex_degrees(s.name, d) for s, d in zip(c.subs, deg)), ())


@lru_cache(None)
def moments(n, k):
    """exponents and exact integrals over the UFC simplex"""
    from fractions import Fraction
    ex = poly.exps_total(n, k)
    out = []
    for e in ex:
        num = 1
        for i in e:
            num *= math.factorial(i)
        out.append(float(Fraction(num, math.factorial(sum(e) + n))))
    return np.array(ex).reshape(len(ex), n), np.array(out)


def mono(x, ex):
    out = np.ones((x.shape[0], len(ex)))
    kmax = int(ex.max()) if ex.size else 0
    P = np.ones((kmax + 1,) + x.shape)
    for i in range(1, kmax + 1):
        P[i] = P[i - 1] * x
    for d in range(x.shape[1]):
        out *= P[ex[:, d], :, d].T
    return out


def check(ctx, c, deg, pts, wts, vol=1.0, tol=1e-11):
    """all products of simplex monomials up to degree deg[i] on factor i"""
    A, b = c.transform(c.top, 0)
    x = (np.linalg.inv(A) @ (pts - b).T).T if c.sd else pts
    jac = abs(np.linalg.det(A)) * vol if c.sd else vol
    V = np.ones((len(pts), 1))
    exact = np.ones(1)
    r = 0
    for f, k in zip(c.factors, deg):
        ex, m = moments(f.n, k)
        M = mono(x[:, r:r + f.n], ex)
        V = (V[:, :, None] * M[:, None, :]).reshape(len(pts), -1)
        exact = (exact[:, None] * m[None, :]).reshape(-1)
        r += f.n
    got = wts @ V
    err = np.abs(got / (jac * exact) - 1.0)
    j = int(np.argmax(np.where(np.isnan(err), np.inf, err)))
    ctx.compares += len(exact)
    ctx.ok(err[j] <= tol, "monomial-not-integrated", lambda: "monomial %d of degree %s: got %.16g want %.16g" % (j, deg, got[j], jac * exact[j]))


def run(cfg, ctx):
    kind, name, k, extra = cfg
    c = cells.cell(name)
    el = catalog.fiat_cell(name)
    ctx.step()
    vol = 1.0
    if kind == "create":
        rule = create_quadrature(el, k, extra) if extra != "default" else create_quadrature(el, k)
        deg = simplex_degrees(name, k)
    elif kind == "make":
        rule = Q.make_quadrature(el, k)
        deg = simplex_degrees(name, 2 * k - 1)
        ctx.eq(len(rule.get_points()), k ** c.sd, "number-of-points")
    elif kind == "line":
        rule, d = {"jacobi": lambda: (Q.GaussJacobiQuadratureLineRule(el, k), 2 * k - 1),
                   "legendre": lambda: (Q.GaussLegendreQuadratureLineRule(el, k), 2 * k - 1),
                   "lobatto": lambda: (Q.GaussLobattoLegendreQuadratureLineRule(el, k), 2 * k - 3),
                   "radau-right": lambda: (Q.RadauQuadratureLineRule(el, k), 2 * k - 2),
                   "radau-left": lambda: (Q.RadauQuadratureLineRule(el, k, right=False), 2 * k - 2)}[extra]()
        deg = (d,)
        ctx.eq(len(rule.get_points()), k, "number-of-points")
        x = rule.get_points()[:, 0]
        lo, hi = c.verts[0][0], c.verts[1][0]
        if extra in ("lobatto", "radau-left"):
            ctx.close(x.min(), lo, "left-end", tol=1e-14)
        if extra in ("lobatto", "radau-right"):
            ctx.close(x.max(), hi, "right-end", tol=1e-14)
    else:
        rule = Q.UFCTetrahedronFaceQuadratureRule(extra, k)
        A, b = c.transform(2, extra)
        g = math.sqrt(np.linalg.det(A.T @ A))
        pts = rule.get_points()
        ref = (np.linalg.pinv(A) @ (pts - b).T).T
        ctx.close(ref @ A.T + b, pts, "off-face", tol=1e-12)
        ctx.close(rule.jacobian(), A, "face-jacobian", tol=1e-13)
        ctx.close(rule.reference_rule().get_points(), ref, "reference-rule", tol=1e-12)
        ctx.close(rule.get_weights(), g * rule.reference_rule().get_weights(), "reference-rule", tol=1e-12)
        check(ctx, cells.cell("T"), (2 * k - 1,), ref, rule.get_weights(), vol=g)
        ctx.observe(pts)
        return
    pts, wts = np.asarray(rule.get_points(), float), np.asarray(rule.get_weights(), float)
    ctx.eq(pts.shape, (len(wts), c.sd), "shape")
    if not c.product:
        ctx.ok(rule.ref_el == el, "cell-of-rule", lambda: str(rule.ref_el))
    for p in pts:
        ctx.ok(c.contains(p, 1e-12), "point-outside", lambda: str(p))
    ctx.close(wts.sum(), c.volume, "weights-sum", tol=1e-11)
    if kind != "create" or extra == "canonical":
        ctx.ok(bool(np.all(wts > 0)), "weight-not-positive", lambda: str(wts.min()))
    check(ctx, c, deg, pts, wts)
    # the rule applied to a callable is the same sum
    f = (lambda x: 1.0 + sum(x)) if c.sd else (lambda x: 1.0)
    want = sum(w * f(p) for p, w in zip(pts, wts))
    ctx.close(rule.integrate(f), want, "integrate", tol=1e-12)
    ctx.observe(pts, wts)
