"""Polynomial sets: orthonormal sets, take, union, projection, differentiation-matrix products."""
import itertools
from math import comb

import numpy as np
from FIAT import polynomial_set
from FIAT.functional import index_iterator

from .. import catalog, cells, h, poly
from .c12 import gauss

BOUNDS = {"quick": "8 simplices; scalar, vector (1..4), tensor and symmetric tensor (size 1..4) sets; degree <= 5/4/3 scalar, 3/3/2 shaped; jets of order <= 3; "
                   "take: all ordered selections with repetition of length <= 2, all slices, empty, masks as lists/arrays/ranges; union: all pairs of "
                   "subsets of sets with at most 4 members, and all pairs from a menu of slices, mixtures and dependent combinations; projection of "
                   "every monomial of degree <= d + 2 in every component; all multi-indices of order <= 4 for matrix products",
          "thorough": "degree <= 8/6/4 scalar, 5/4/3 shaped; selections of length 3"}
CELLS = ["I", "DI", "T", "DT", "NT", "S", "DS", "NS"]
LIMIT_S = 300


def configs(tier):
    big = tier == "thorough"
    out = [("mis",), ("indices",)]
    for c in CELLS:
        n = cells.cell(c).sd
        top = ({1: 8, 2: 6, 3: 4} if big else {1: 5, 2: 4, 3: 3})[n]
        if c not in ("I", "T", "S"):
            top -= 1
        out += [("set", c, k, ()) for k in range(top + 1)]
        shaped = ({1: 5, 2: 4, 3: 3} if big else {1: 3, 2: 3, 3: 2})[n]
        for k in range(shaped + 1):
            out += [("set", c, k, s) for s in ((1,), (2,), (3,), (4,), (2, 2), (3, 3), (2, 3))
                    if big or n * k < 6 or s in ((3,), (2, 2))]
            out += [("set", c, k, "sym%d" % m) for m in (0, 1, 2, 3, 4)]
    return out


def cost(c):
    return 1 if len(c) == 1 else (c[2] + 1) ** cells.cell(c[1]).sd * (3 if c[3] else 1)


_c = {}


def setup(cname, k, shape):
    key = (cname, k, shape)
    if key not in _c:
        _c.clear()
        T = catalog.fiat_cell(cname)
        c = cells.cell(cname)
        if isinstance(shape, str):
            m = int(shape[3:])
            U = polynomial_set.ONSymTensorPolynomialSet(T, k, m) if m else polynomial_set.ONSymTensorPolynomialSet(T, k)
            m = m or c.sd
            sh = (m, m)
        else:
            U = polynomial_set.ONPolynomialSet(T, k, shape) if shape else polynomial_set.ONPolynomialSet(T, k)
            sh = shape
        pts, V, P = poly.fit_setup(cname, k)
        vals = np.asarray(U.tabulate([tuple(p) for p in pts])[(0,) * c.sd], float)
        n = vals.shape[0]
        C, res = poly.fit(cname, k, vals.reshape(n, -1, len(pts)))
        q = gauss(c.sd, k + 4)
        A, b = c.transform(c.top, 0)
        Q = q[0] @ A.T + b
        w = q[1] * abs(np.linalg.det(A))
        _c[key] = (T, c, U, sh, C, res, Q, w)
    return _c[key]


def values(S, pts, sd):
    t = np.asarray(S.tabulate([tuple(p) for p in pts])[(0,) * sd], float)
    return t


def run(cfg, ctx):
    if cfg[0] == "mis":
        return mis(ctx)
    if cfg[0] == "indices":
        shape = ctx.choose("shape", [(1,), (2,), (3,), (2, 2), (3, 3), (2, 3), (2, 2, 2)])
        ctx.eq([tuple(i) for i in index_iterator(shape)], list(itertools.product(*[range(s) for s in shape])), "index_iterator")
        ctx.step()
        return
    _, cname, k, shape = cfg
    T, c, U, sh, C, res, Q, w = setup(cname, k, shape)
    sym = isinstance(shape, str)
    ctx.ok(res < 1e-9, "not-polynomials-of-the-degree", lambda: "%g" % res)
    n = U.get_num_members()
    nc = int(np.prod(sh)) if sh else 1
    N = comb(k + c.sd, c.sd)
    sp = poly.space(cname, k)
    ops = ["basis", "jet", "take", "union menu", "project", "products"]
    if n <= 4:
        ops.append("union all")
    op = ctx.choose("operation", ops)
    if op == "basis":
        want = N * (sh[0] * (sh[0] + 1) // 2 if sym else nc)
        ctx.eq((n, U.get_shape(), U.get_degree(), U.get_embedded_degree()), (want, tuple(sh), k, k), "metadata")
        ctx.eq(np.asarray(U.get_coeffs()).shape, (n,) + tuple(sh) + (N,), "coefficients")
        v = np.einsum("icN,pN->icp", C, sp.V(Q))
        G = np.einsum("icp,jcp,p->ij", v, v, w)
        D = np.diag(np.diag(G))
        ctx.ok(np.diag(G).min() > 1e-9, "zero-member")
        ctx.close(G, D, "not-orthogonal", tol=1e-10)
        ctx.eq(h.rank(C.reshape(n, -1)), n, "dependent")
        if sym:
            C4 = C.reshape(n, sh[0], sh[0], -1)
            ctx.close(C4, C4.transpose(0, 2, 1, 3), "not-symmetric", tol=1e-11)
        # consistent norms on the biunit cell (degree 0 on triangles: known finding of C13)
        if cname[0] == "D" and k > 0 and not sym:
            ctx.close(np.diag(G), np.ones(n), "not-orthonormal", tol=1e-9)
        t = np.asarray(U.tabulate_new([tuple(p) for p in Q]), float)
        ctx.close(t.reshape(n, nc, -1), v, "tabulate_new", tol=1e-9)
        ctx.step(3)
        ctx.observe(G)
    elif op == "jet":
        order = ctx.choose("order", [0, 1, 2, 3])
        P = cells.to_cell(c, np.vstack([cells.ref_points(c.dims, 2, "generic"), cells.ref_points(c.dims, 1, "lattice")]))
        t = U.tabulate([tuple(p) for p in P], order)
        ctx.step()
        ctx.eq(sorted(t), sorted(a for o in range(order + 1) for a in poly.alphas(c.sd, o)), "keys")
        for a in t:
            want = np.einsum("icN,pN->icp", sp.deriv(C, a), sp.V(P)).reshape((n,) + tuple(sh) + (len(P),))
            ctx.close(t[a], want, "derivative", a, tol=1e-8, scale=max(1.0, np.abs(want).max(), 4.0 ** order * np.abs(C).max()))
    elif op == "take":
        if ctx.tier == "thorough" and n <= 12:
            L = 3
        else:
            L = 2
        r = range(min(n, 8))
        sel = [list(s) for m in range(0, L + 1) for s in itertools.product(r, repeat=m)]
        sel += [list(range(a, b)) for a in range(0, n, max(1, n // 4)) for b in range(a + 1, n + 1, max(1, n // 4))]
        sel += [list(reversed(range(n))), [n - 1], [n - 1, 0], [-1], [0, -1]]
        how = ctx.choose("as", ["list", "tuple", "array", "range"])
        if how == "range":
            sel = [range(a, b, s) for a in range(min(n, 3)) for b in (n, n - 1) for s in (1, 2) if b > a]
        before = np.array(U.get_coeffs())
        for s in sel:
            if len(s) == 0 and how != "list":
                continue
            items = {"list": list, "tuple": tuple, "array": lambda x: np.array(x, dtype=int), "range": lambda x: x}[how](s)
            if len(s) == 0:
                items = np.array([], dtype=int)
            S = U.take(items)
            ctx.step()
            ctx.eq((S.get_num_members(), S.get_shape(), S.get_degree(), S.get_embedded_degree()), (len(s), tuple(sh), k, k), "take-metadata", s)
            if len(s):
                t = np.asarray(S.tabulate_new([tuple(p) for p in Q[:4]]), float)
                want = np.einsum("icN,pN->icp", C[list(s)], sp.V(Q[:4])).reshape((len(s),) + tuple(sh) + (-1,))
                ctx.close(t, want, "take", s, tol=1e-9)
        S = U.take([0])
        a = (1,) + (0,) * (c.sd - 1)
        t = S.tabulate([tuple(p) for p in Q[:4]], 1)
        ctx.close(np.asarray(t[a], float).reshape(1, nc, -1), np.einsum("icN,pN->icp", sp.deriv(C[:1], a), sp.V(Q[:4])), "take-derivative", tol=1e-8,
                  scale=10 * max(1.0, np.abs(C).max()))
        ctx.ok(np.array_equal(before, U.get_coeffs()), "take-modified-the-set")
    elif op.startswith("union"):
        if op == "union all":
            subs = [list(s) for m in range(1, n + 1) for s in itertools.combinations(range(n), m)]
            menu = [("take %s" % s, np.eye(n)[s]) for s in subs]
        else:
            rs = np.random.RandomState(5)
            R = rs.rand(3, n) - .5
            half = max(1, n // 2)
            menu = [("all", np.eye(n)), ("first half", np.eye(n)[:half]), ("second half", np.eye(n)[half - 1:]), ("one", np.eye(n)[:1]),
                    ("mixtures", R[:2]), ("dependent", np.vstack([R[:2], R[0] + 2 * R[1], R[1]])), ("small", 1e-4 * R[2:]), ("large", 1e4 * R[:1]),
                    ("odd", np.eye(n)[::2] if n > 1 else np.eye(n)), ("mixture", R[2:])]
        (na, Ma), (nb, Mb) = ctx.choose("A", menu), ctx.choose("B", menu)
        make = lambda M: polynomial_set.PolynomialSet(T, k, k, U.get_expansion_set(), np.tensordot(M, np.asarray(U.get_coeffs(), float), axes=(1, 0)), U.get_dmats())
        A, B = make(Ma), make(Mb)
        ca, cb = np.array(A.get_coeffs()), np.array(B.get_coeffs())
        S = polynomial_set.polynomial_set_union_normalized(A, B)
        ctx.step()
        M = np.vstack([Ma, Mb])
        M = M / np.maximum(1e-300, np.linalg.norm(M, axis=1))[:, None]
        rk = h.rank(M)
        ctx.eq((S.get_num_members(), S.get_shape(), S.get_embedded_degree()), (rk, tuple(sh), k), "union-dimension", (na, nb))
        s = np.asarray(S.tabulate_new([tuple(p) for p in Q]), float).reshape(rk, -1)
        parts = np.tensordot(M, np.einsum("icN,pN->icp", C, sp.V(Q)), axes=(1, 0)).reshape(len(M), -1)
        ctx.ok(h.rank(s) == rk, "union-dependent")
        ctx.ok(h.in_span(parts, s) < 1e-7, "union-misses-a-member", lambda: repr((na, nb)))
        ctx.ok(h.in_span(s, parts) < 1e-7, "union-too-big", lambda: repr((na, nb)))
        K = np.asarray(S.get_coeffs()).reshape(rk, -1)
        ctx.close(K @ K.T, np.eye(rk), "union-not-normalized", tol=1e-9)
        ctx.ok(np.array_equal(ca, A.get_coeffs()) and np.array_equal(cb, B.get_coeffs()), "arguments-modified")
        # derivatives of the union are those of its members
        if (na, nb) == ("mixtures", "one") or op == "union all":
            pts = [tuple(p) for p in Q[:3]]
            a = (0,) * (c.sd - 1) + (1,)
            Cs, r = poly.fit(cname, k, np.asarray(S.tabulate_new([tuple(p) for p in poly.fit_setup(cname, k)[0]]), float).reshape(rk, nc, -1))
            ctx.close(np.asarray(S.tabulate(pts, 1)[a], float).reshape(rk, nc, -1), np.einsum("icN,pN->icp", sp.deriv(Cs, a), sp.V(Q[:3])), "union-derivative",
                      tol=1e-7, scale=10 * max(1.0, np.abs(C).max()))
    elif op == "project":
        if sym:
            return
        comp = ctx.choose("component", list(range(nc)))
        which = ctx.choose("set", ["all", "some"])
        idx = list(range(n)) if which == "all" else sorted({0, n - 1, n // 2})
        S = U if which == "all" else U.take(idx)
        fq = poly.exps_total(c.sd, k + 2)
        from FIAT.quadrature import make_quadrature
        R = make_quadrature(T, k + 4)
        for e in fq:
            def f(x):
                v = float(np.prod([(x[i] - .3) ** e[i] for i in range(c.sd)]))
                if not sh:
                    return v
                o = np.zeros(sh)
                o.flat[comp] = v
                return o
            x = polynomial_set.project(f, S, R)
            ctx.step()
            v = np.einsum("icN,pN->icp", C[idx], sp.V(Q))
            G = np.einsum("icp,jcp,p->ij", v, v, w)
            F = np.prod((Q - .3) ** np.array(e), axis=1)
            want = np.linalg.solve(G, np.einsum("ip,p,p->i", v[:, comp], F, w))
            ctx.close(np.asarray(x, float), want, "projection", (e, comp), tol=1e-9)
    else:
        mats = [np.asarray(m, float) for m in U.get_dmats()]
        o = ctx.choose("order", [0, 1, 2, 3, 4])
        for a in poly.alphas(c.sd, o):
            got = polynomial_set.form_matrix_product(mats, a)
            ctx.step()
            want = np.eye(len(mats[0]))
            for i in range(c.sd):
                want = np.linalg.matrix_power(mats[i], a[i]) @ want
            ctx.close(got, want, "matrix-product", a, tol=1e-9)
            # matrices represent the derivatives: D^T applied to the expansion coefficients
            if not sh:
                P = Q[:5]
                v = np.asarray(U.get_coeffs(), float) @ got.T @ np.asarray(U.get_expansion_set().tabulate(k, [tuple(p) for p in P]), float)
                ctx.close(v, np.einsum("icN,pN->icp", sp.deriv(C, a), sp.V(P))[:, 0], "matrix-is-not-the-derivative", a, tol=1e-7,
                          scale=5.0 ** o * max(1.0, np.abs(C).max()))


def mis(ctx):
    m = ctx.choose("length", list(range(1, 6)))
    s = ctx.choose("sum", list(range(0, 7)))
    got = polynomial_set.mis(m, s)
    ctx.step()
    got = [tuple(g) for g in got]
    ctx.eq(sorted(got), sorted(t for t in itertools.product(range(s + 1), repeat=m) if sum(t) == s), "multi-indices")
    ctx.observe(repr(got))
