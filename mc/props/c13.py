"""Expansion sets and Jacobi polynomials against exact moments, closed forms and rational arithmetic."""
import itertools
import math
from fractions import Fraction as Fr

import numpy as np
from FIAT import expansions, jacobi, orthopoly, polynomial_set

from .. import catalog, cells, poly

BOUNDS = {"quick": "8 simplices (UFC, default, Intrepid) x degree <= 12/8/6 (I/T/S; sympy derivatives <= 10/6/4, jets of order <= 3 for degree <= 4/3) x "
                   "points (generic, vertices, edges, faces, lattice, outside) ; Jacobi weights a, b in {-1/2, 0, 1/2, 1, ..., 5} (81 pairs), "
                   "degrees 0..14, Gauss/Lobatto rules with 2..10 points, all integer weights given as ints and as floats; logarithmic weights a in {0..5, -1/2, -1/4, 1/2, 3/2, 11/4} with their modified moments",
          "thorough": "degrees +4/+3/+2 (derivatives +2), jets for degree <= 6/4, weights up to 9, Jacobi degrees 0..20, rules to 16 points"}
ASSUMPTIONS = ["'orthonormal' is with respect to the default (biunit) base cell: on another cell the norm is that of the volume ratio"]
SIMPLICES = ["I", "DI", "T", "DT", "NT", "S", "DS", "NS"]
W = [Fr(-1, 2), Fr(0), Fr(1, 2), Fr(1), Fr(3, 2), Fr(2), Fr(3), Fr(4), Fr(5)]


def degrees(n, tier, deriv=False):
    k = {1: 10, 2: 6, 3: 4}[n] if deriv else {1: 12, 2: 8, 3: 6}[n]
    if tier != "quick":
        k += 2 if deriv else {1: 4, 2: 3, 3: 2}[n]
    return range(k + 1)


def configs(tier):
    out = [("jacobi", str(a), str(b)) for a in W for b in W]
    if tier != "quick":
        out += [("jacobi", str(a), str(b)) for a in (6, 7, 9) for b in W] + [("jacobi", str(b), str(a)) for a in (6, 7, 9) for b in W]
    out += [("jaclog", a) for a in [0, 1, 2, 3, 5, 0.0, 1.0, 2.0, 4.0, -0.5, -0.25, 0.5, 1.5, 2.75]]
    out.append(("point",))
    for c in SIMPLICES:
        n = cells.cell(c).sd
        out += [("values", c, k) for k in degrees(n, tier)]
        out += [("derivs", c, k) for k in degrees(n, tier, True)]
        if n > 1:
            jk = {2: 4, 3: 3}[n] if tier == "quick" else {2: 6, 3: 4}[n]
            out += [("jet", c, k) for k in range(jk + 1)]
    return out


def cost(c):
    if c[0] in ("values", "derivs", "jet"):
        return (c[2] + 1) ** cells.cell(c[1]).sd * {"values": 1, "derivs": 20, "jet": 60}[c[0]]
    return 1


# ---- exact Jacobi polynomials -------------------------------------------------

def gbin(x, k):
    """binomial coefficient for rational x"""
    r = Fr(1)
    for i in range(k):
        r = r * (x - i) / (i + 1)
    return r


def P(n, a, b, x):
    """exact value at a rational x"""
    a, b, x = Fr(a), Fr(b), Fr(x)
    return sum(gbin(n + a, n - s) * gbin(n + b, s) * ((x - 1) / 2) ** s * ((x + 1) / 2) ** (n - s) for s in range(n + 1))


def dP(n, a, b, x):
    """derivative of the closed form by the product rule"""
    a, b, x = Fr(a), Fr(b), Fr(x)
    r = Fr(0)
    for s in range(n + 1):
        c = gbin(n + a, n - s) * gbin(n + b, s)
        u, v = (x - 1) / 2, (x + 1) / 2
        if s:
            r += c * Fr(s, 2) * u ** (s - 1) * v ** (n - s)
        if n - s:
            r += c * Fr(n - s, 2) * u ** s * v ** (n - s - 1)
    return r


def norm2(n, a, b):
    g = math.gamma
    if n == 0:
        return 2 ** (a + b + 1) * g(a + 1) * g(b + 1) / g(a + b + 2)
    return 2 ** (a + b + 1) / (2 * n + a + b + 1) * g(n + a + 1) * g(n + b + 1) / (g(n + a + b + 1) * math.factorial(n))


X = [Fr(-1), Fr(1), Fr(0), Fr(-5, 7), Fr(2, 9), Fr(9, 10), Fr(3, 2)]


def run_jacobi(a, b, ctx):
    a, b = Fr(a), Fr(b)
    fa, fb = (int(a), int(b)) if a.denominator == b.denominator == 1 else (float(a), float(b))
    N = 14 if ctx.tier == "quick" else 20
    if isinstance(fa, int) and ctx.choose("weights as", ["int", "float"]) == "float":
        fa, fb = float(fa), float(fb)
    op = ctx.choose("function", ["eval", "batch", "deriv", "deriv_batch", "orthopoly", "orthopolyD", "normalised", "monic", "gauss", "lobatto", "unit"])
    xs = np.array([[float(x)] for x in X])
    if op in ("eval", "deriv"):
        n = ctx.choose("n", range(N + 1))
        for x in X:
            f, g = (jacobi.eval_jacobi, P) if op == "eval" else (jacobi.eval_jacobi_deriv, dP)
            w = float(g(n, a, b, x))
            ctx.close(f(fa, fb, n, float(x)), w, "jacobi-" + op, "n=%d x=%s" % (n, x), tol=1e-11)
        ctx.step(len(X))
        v = f(fa, fb, n, xs[:, 0])
        if n > 0:
            ctx.close(np.zeros(len(X)) + v, [float(g(n, a, b, x)) for x in X], "jacobi-array-" + op, tol=1e-11)
    elif op in ("batch", "deriv_batch"):
        n = ctx.choose("n", range(N + 1))
        f, g = (jacobi.eval_jacobi_batch, P) if op == "batch" else (jacobi.eval_jacobi_deriv_batch, dP)
        got = f(fa, fb, n, xs)
        ctx.step()
        ctx.eq(got.shape, (n + 1, len(X)), "jacobi-batch-shape")
        for k in range(n + 1):
            ctx.close(got[k], [float(g(k, a, b, x)) for x in X], "jacobi-" + op, "n=%d row %d" % (n, k), tol=1e-11)
        ctx.observe(got)
    elif op in ("orthopoly", "orthopolyD", "normalised"):
        n = ctx.choose("n", range(N + 1))
        opt = 1 if op != "normalised" else 2
        if opt == 2 and fa + fb == -1:
            return     # the formula of the norm of degree 0 has a removable singularity there
        for f, g in ((orthopoly.jacobi, P), (orthopoly.jacobiD, dP)):
            if (f is orthopoly.jacobi) == (op == "orthopolyD"):
                if opt == 1:
                    continue
            got = f(n, fa, fb, xs[:, 0], opt)
            ctx.step()
            ctx.eq(got.shape, (len(X), n + 1), "orthopoly-shape")
            for k in range(n + 1):
                s = 1 / math.sqrt(norm2(k, fa, fb)) if opt == 2 else 1.0
                ctx.close(got[:, k], [s * float(g(k, a, b, x)) for x in X], "orthopoly-" + op, "n=%d column %d" % (n, k), tol=1e-11)
    elif op == "monic":
        n = ctx.choose("n", range(2, N + 1))
        al, be = orthopoly.rec_jacobi(n, fa, fb)
        ctx.close(be[0], norm2(0, fa, fb), "recursion-mass", tol=1e-12)
        got = orthopoly.polyval(al, be, xs[:, 0])
        ctx.step(2)
        for k in range(n + 1):
            lead = gbin(2 * k + a + b, k) / 2 ** k if k else Fr(1)
            ctx.close(got[:, k], [float(P(k, a, b, x) / lead) for x in X], "recursion", "column %d" % k, tol=1e-10)
    elif op in ("gauss", "lobatto", "unit"):
        n = ctx.choose("points", range(2, (10 if ctx.tier == "quick" else 16) + 1))
        if op == "unit":
            al, be = orthopoly.rec_jacobi01(n, fa, fb)
            x, w = orthopoly.gauss(al, be)
            x, w = 2 * x - 1, w * 2 ** (fa + fb + 1)
        else:
            al, be = orthopoly.rec_jacobi(n, fa, fb)
            keep = np.array(al), np.array(be)
            x, w = orthopoly.gauss(al, be) if op == "gauss" else orthopoly.lobatto(al, be, -1.0, 1.0)
            ctx.ok(np.array_equal(keep[0], al) and np.array_equal(keep[1], be), "coefficients-modified")
        ctx.step(2)
        ctx.ok(np.all(np.diff(x) > 0) and np.all(w > 0) and np.all(np.abs(x) <= 1 + 1e-12), "gauss-points", "%s" % x)
        top = 2 * n - 1 if op != "lobatto" else 2 * n - 3
        for k in range(top + 1):     # orthogonal polynomials of degree >= 1 have mean zero
            Pk = np.array([float(P(k, a, b, Fr(float(t)))) for t in x])
            size = max(1.0, float(np.max(np.abs(Pk)))) * norm2(0, fa, fb)
            ctx.close(np.dot(w, Pk), norm2(0, fa, fb) if k == 0 else 0.0, "gauss-moment", "P_%d with %d points" % (k, n), tol=1e-10, scale=size)
        if op == "lobatto":
            ctx.close([x[0], x[-1]], [-1.0, 1.0], "lobatto-ends", tol=1e-12)
        ctx.observe(x, w)


def run_jaclog(a, ctx):
    """weight x^a log(1/x) on [0, 1]: moments 1/(k+a+1)^2"""
    n = ctx.choose("points", range(1, 9))
    al, be = orthopoly.rec_jaclog(n, a)
    mm = orthopoly.mm_log(2 * n, a)
    mom = [1 / (Fr(a) + k + 1) ** 2 for k in range(2 * n)]
    p, q = [Fr(0)], [Fr(1)]         # monic shifted Legendre polynomials
    for k in range(2 * n):
        exact = float(sum(c * m for c, m in zip(q, mom)))
        ctx.close(mm[k] / exact, 1.0, "log-modified-moment", "moment %d" % k, tol=1e-9)
        r = [Fr(0)] + q
        for i, c in enumerate(q):
            r[i] -= c / 2
        for i, c in enumerate(p):
            r[i] -= c * (Fr(k * k, 4 * (4 * k * k - 1)) if k else 0)
        p, q = q, r
    ctx.eq((len(al), len(be)), (n, n), "log-recursion-length")
    ctx.close(be[0], float(mom[0]), "log-recursion-mass", tol=1e-13)
    if n == 1:
        return
    x, w = orthopoly.gauss(al, be)
    ctx.step(3)
    ctx.ok(np.all(x > 0) and np.all(x < 1) and np.all(w > 0), "log-gauss-points", "%s" % x)
    for k in range(2 * n):
        ctx.close(np.dot(w, x ** k), 1.0 / (k + a + 1) ** 2, "log-gauss-moment", "x^%d with %d points" % (k, n), tol=1e-11)
    ctx.observe(x, w)


# ---- expansions ---------------------------------------------------------------

def order(n, k):
    """documented (Karniadakis-Sherwin) numbering: multi-index of each function"""
    if n == 1:
        return [(p,) for p in range(k + 1)]
    if n == 2:
        return [(s - q, q) for s in range(k + 1) for q in range(s + 1)]
    return [(s - t, t - r, r) for s in range(k + 1) for t in range(s + 1) for r in range(t + 1)]


def principal(n, idx, eta):
    """closed form in collapsed coordinates (rational eta)"""
    h = lambda e: (1 - Fr(e)) / 2
    if n == 1:
        return float(P(idx[0], 0, 0, eta[0])) * math.sqrt(idx[0] + 0.5)
    if n == 2:
        p, q = idx
        return float(P(p, 0, 0, eta[0]) * h(eta[1]) ** p * P(q, 2 * p + 1, 0, eta[1])) * math.sqrt((p + .5) * (p + q + 1.))
    p, q, r = idx
    v = P(p, 0, 0, eta[0]) * h(eta[1]) ** p * P(q, 2 * p + 1, 0, eta[1]) * h(eta[2]) ** (p + q) * P(r, 2 * p + 2 * q + 2, 0, eta[2])
    return float(v) * math.sqrt((p + .5) * (p + q + 1.) * (p + q + r + 1.5))


def uncollapse(n, eta):
    """collapsed -> biunit coordinates (exact)"""
    e = [Fr(x) for x in eta]
    if n == 1:
        return [e[0]]
    if n == 2:
        return [(1 + e[0]) * (1 - e[1]) / 2 - 1, e[1]]
    return [(1 + e[0]) * (1 - e[1]) * (1 - e[2]) / 4 - 1, (1 + e[1]) * (1 - e[2]) / 2 - 1, e[2]]


ETA = [Fr(-1), Fr(-2, 5), Fr(1, 3), Fr(1)]


def all_points(m):
    """generic, vertices, points of every face, lattice, outside"""
    out = [tuple(p) for p in cells.to_cell(m, cells.generic_points(m.sd, 2))]
    out += [tuple(p) for p in m.verts]
    for (d, e) in m.entities():
        A, b = m.transform(d, e)
        if 0 < d < m.sd:
            out += [tuple(A @ np.array(x)[:d] + b) for x in ([.3, .2], [.5, .5])]
    out += [tuple(p) for p in cells.to_cell(m, cells.simplex_lattice(m.sd, 3))]
    out.append(tuple(cells.to_cell(m, np.array([[1.4, -.3, .8][:m.sd]]))[0]))
    return [tuple(float(x) for x in p) for p in out]


_fit = {}


def model(cname, k):
    """fitted expansion functions of degree k (values checked in 'values')"""
    key = (cname, k)
    if key not in _fit:
        if len(_fit) > 20:
            _fit.clear()
        es = expansions.get_expansion_set(catalog.fiat_cell(cname))
        pts, V, _ = poly.fit_setup(cname, k)
        vals = np.asarray(es.tabulate(k, [tuple(map(float, p)) for p in pts]), float)
        _fit[key] = poly.fit(cname, k, vals)
    return _fit[key]


def run(cfg, ctx):
    if cfg[0] == "jacobi":
        return run_jacobi(cfg[1], cfg[2], ctx)
    if cfg[0] == "jaclog":
        return run_jaclog(cfg[1], ctx)
    if cfg[0] == "point":
        c = catalog.fiat_cell("P")
        es = expansions.get_expansion_set(c)
        ctx.eq(es.get_num_members(0), 1, "point-members")
        ctx.eq(expansions.polynomial_dimension(c, 0), 1, "point-dimension")
        ctx.close(es.tabulate(0, [()]), np.ones((1, 1)), "point-values")
        ctx.close(es.tabulate(0, [(), ()]), np.ones((1, 2)), "point-values")
        try:
            expansions.polynomial_dimension(c, 1)
            ctx.ok(False, "point-degree")
        except ValueError:
            pass
        ctx.step(4)
        return
    kind, cname, k = cfg
    m, c = cells.cell(cname), catalog.fiat_cell(cname)
    n = m.sd
    es = expansions.get_expansion_set(c)
    sp = poly.space(cname, k)
    dim = math.comb(k + n, n)
    if kind == "values":
        op = ctx.choose("check", ["space", "orthogonal", "closed-form", "points", "nested", "onset"])
        C, res = model(cname, k)
        ctx.step()
        size = max(1.0, np.max(np.abs(C)))
        if op == "space":
            ctx.eq(es.get_num_members(k), dim, "members")
            ctx.eq(expansions.polynomial_dimension(c, k), dim, "dimension")
            ctx.eq(C.shape[0], dim, "functions")
            ctx.ok(res < 1e-10 * size, "not-polynomial", "residual %g" % res)
            for d in range(k + 1):
                nd = math.comb(d + n, n)
                hi = [j for j, e in enumerate(sp.exps) if sum(e) > d]
                ctx.ok(not hi or np.max(np.abs(C[:nd, hi])) < 1e-9 * size, "not-hierarchical", "degree %d" % d)
                top = [j for j, e in enumerate(sp.exps) if sum(e) == d]
                lo = math.comb(d - 1 + n, n) if d else 0
                s = np.linalg.svd(C[lo:nd][:, top], compute_uv=False)
                ctx.ok(s[-1] > 1e-8 * s[0], "degree-not-attained", "degree %d" % d)
            ctx.observe(C)
        elif op == "orthogonal":
            # exact Gauss rule of the model
            from .c12 import gauss
            x, w = gauss(n, k + n + 1)
            V = np.asarray(es.tabulate(k, [tuple(p) for p in cells.to_cell(m, x)]), float)
            A, b = m.transform(m.top, 0)
            G = np.einsum("ip,jp,p->ij", V, V, w * abs(np.linalg.det(A)))
            ctx.step()
            ratio = m.volume / (2.0 ** n / math.factorial(n))
            one = k == 0 and n > 1 and np.allclose(V, 1.0, rtol=1e-13, atol=0)
            ctx.close(G / ratio, np.eye(dim), "constant-is-one-not-orthonormal" if one else "orthonormal", tol=1e-10)
        elif op == "closed-form":
            A, b = m.transform(m.top, 0)
            etas = list(itertools.product(ETA, repeat=n))
            if n == 3:
                etas = [e for i, e in enumerate(etas) if i % 3 == 0 or Fr(1) in e]
            pts = [tuple(float(v) for v in A @ ((np.array([float(x) for x in uncollapse(n, e)]) + 1) / 2) + b) for e in etas]
            got = np.asarray(es.tabulate(k, pts), float)
            ctx.step()
            if k == 0:      # the normalisation of the constant is the subject of 'orthogonal'
                ctx.ok(np.ptp(got) < 1e-14 and got[0, 0] > 0, "principal-function", "degree 0")
                return
            for i, idx in enumerate(order(n, k)):
                ctx.close(got[i], [principal(n, idx, e) for e in etas], "principal-function", "function %d = %s" % (i, idx), tol=1e-11)
        elif op == "points":
            pts = all_points(m)
            got = np.asarray(es.tabulate(k, pts), float)
            ctx.step()
            ctx.close(got, C @ sp.V(pts).T, "values", tol=1e-9)
            ctx.eq(len(es.tabulate(k, [])), 0, "empty-points")
        elif op == "nested":
            pts = all_points(m)
            big = np.asarray(es.tabulate(k, pts), float)
            for d in range(k):
                small = np.asarray(es.tabulate(d, pts), float)
                ctx.step()
                if d == 0:
                    small = small * big[0, 0] / small[0, 0]
                ctx.close(small, big[:len(small)], "nested", "degree %d in %d" % (d, k), tol=1e-12)
        elif op == "onset":
            if k > {1: 8, 2: 5, 3: 3}[n]:
                return
            s = polynomial_set.ONPolynomialSet(c, k)
            ctx.eq(s.get_num_members(), dim, "onset-members")
            ctx.close(s.get_coeffs(), np.eye(dim), "onset-coefficients", tol=1e-14)
            pts = all_points(m)
            for a in range(0, 4):
                t = s.tabulate(pts, a)
                ctx.step()
                ctx.eq(sorted(t), sorted(x for o in range(a + 1) for x in poly.alphas(n, o)), "onset-keys")
                for al, v in t.items():
                    w = sp.deriv(C, al) @ sp.V(pts).T
                    ctx.close(v, w, "onset-derivative", "%s" % (al,), tol=1e-7)
    elif kind == "derivs":
        C, res = model(cname, k)
        pts = all_points(m) if n < 3 else all_points(m)[::2]
        rep = ctx.choose("points", ["all", "reversed", "single"])
        pts = pts[::-1] if rep == "reversed" else [m.verts[-1].tolist()] if rep == "single" else pts
        pts = [tuple(p) for p in pts]
        got = es.tabulate_derivatives(k, np.array(pts))
        ctx.step()
        ctx.eq((len(got), len(got[0])), (dim, len(pts)), "derivatives-shape")
        val = np.array([[float(g[0]) for g in row] for row in got])
        grad = np.array([[np.asarray(g[1], float) for g in row] for row in got])
        ctx.close(val, C @ sp.V(pts).T, "derivatives-values", tol=1e-9)
        for d in range(n):
            al = tuple(int(i == d) for i in range(n))
            ctx.close(grad[:, :, d], sp.deriv(C, al) @ sp.V(pts).T, "first-derivatives", "direction %d" % d, tol=1e-8)
        ctx.observe(grad)
    else:
        C, res = model(cname, k)
        o = ctx.choose("order", range(0, 4 if n == 2 else 3))
        pts = all_points(m)[::3 if n == 3 else 1]
        got = es.tabulate_jet(k, np.array(pts), o)
        ctx.step()
        ctx.eq(len(got), o + 1, "jet-length")
        for r in range(o + 1):
            J = np.asarray(got[r], float)
            ctx.eq(J.shape, (dim, len(pts)) + (n,) * r, "jet-shape")
            for ds in itertools.product(range(n), repeat=r):
                al = tuple(ds.count(i) for i in range(n))
                ctx.close(J[(slice(None), slice(None)) + ds], sp.deriv(C, al) @ sp.V(pts).T, "jet", "%s" % (ds,), tol=1e-8)
        ctx.observe(got[o])
