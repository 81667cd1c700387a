"""Exact sequences between element families and the descriptive data of every element."""
from math import comb

import numpy as np

from .. import catalog, cells, h, poly
from ..catalog import FAC, enr, flat, rtce, rtcf, tp, wrap

BOUNDS = {"quick": "de Rham sequences of both kinds on 7 simplices (degree <= 6 / 5 / 3), all dof variants of the inner elements, quadrilateral, hexahedral, "
                   "prismatic and unflattened product sequences (degree <= 4 / 2 / 3), the elasticity / Hessian / stress sequences of the tensor families; "
                   "each composition, image and kernel; descriptive data of every element of the catalogue",
          "thorough": "degree <= 10 / 7 / 5, products <= 6 / 3 / 4"}
LIMIT_S = 600


class E(object):
    def __init__(self, expr, cell, D):
        self.expr, self.cell, self.D = expr, cell, D


def F(f):
    return (f.expr, f.cell, tuple(f.D))


def fac(n):
    return FAC[n]


def chains(tier):
    """name -> list of (expr, cell, D) and operators"""
    big = tier == "thorough"
    out = []
    for c in ("I", "DI"):
        for k in range(1, (11 if big else 7)):
            out.append((["grad1"], [("CG(%s, %d)" % (c, k), c, k), ("DG(%s, %d)" % (c, k - 1), c, k - 1)]))
            out.append((["grad1"], [("GLL(%s, %d)" % (c, k), c, k), ("GL(%s, %d)" % (c, k - 1), c, k - 1)]))
    for c in ("T", "DT", "NT", "S", "DS", "NS"):
        n = cells.cell(c).sd
        top = ({2: 7, 3: 5} if big else {2: 5, 3: 3})[n]
        if len(c) > 1:
            top = 3 if n == 2 else 2
        for k in range(1, top + 1):
            vs = ["", ", variant='point'", ", variant='integral(%d)'" % (k + 2)] + ([", variant='integral'"] if k < 3 else [])
            x = lambda f, d, v="": ("%s(%s, %d%s)" % (f, c, d, v), c, d)
            for v in vs:
                if n == 2:
                    out.append((["grad", "rot"], [x("CG", k), x("N1", k, v), x("DG", k - 1)]))
                    out.append((["curls", "div"], [x("CG", k), x("RT", k, v), x("DG", k - 1)]))
                    out.append((["grad", "rot"], [x("CG", k + 1), x("N2", k, v), x("DG", k - 1)]))
                    out.append((["curls", "div"], [x("CG", k + 1), x("BDM", k, v), x("DG", k - 1)]))
                    if not v:
                        out.append((["curls", "div"], [x("Bernstein", k + 1), x("BDM", k, v), x("Taylor", k - 1)]))
                        out.append((["curls", "div"], [x("CG", k), x("DRT", k, v), x("DG", k - 1)]))
                else:
                    out.append((["grad", "curl", "div"], [x("CG", k), x("N1", k, v), x("RT", k, v), x("DG", k - 1)]))
                    if k > 1 and c == "S":
                        # N2_k -> BDM_{k-1} and N2_k -> RT_k
                        out.append((["grad", "curl", "div"], [x("CG", k + 1), x("N2", k, v), x("BDM", k - 1, ""), x("DG", k - 2)]))
                    if c == "S" or k == 1:
                        out.append((["grad", "curl", "div"], [x("CG", k + 1), x("N2", k, v), x("RT", k, v), x("DG", k - 1)]))
                    if k > 1:
                        out.append((["div"], [x("BDM", k, v), x("DG", k - 1)]))
        for r in range(0, ({2: 5, 3: 2}[n] + (1 if big else 0)) if len(c) == 1 else 2):
            y = ("CG(%s, %d)" % (c, r + 1), c, r + 1)
            if n == 2:
                out.append((["def", "inc"], [y, ("Regge(%s, %d)" % (c, r), c, r)] + ([("DG(%s, %d)" % (c, r - 2), c, r - 2)] if r > 1 else [None])))
                out.append((["symcurl", "divdiv"], [y, ("HHJ(%s, %d)" % (c, r), c, r)] + ([("DG(%s, %d)" % (c, r - 2), c, r - 2)] if r > 1 else [None])))
                out.append((["hess"], [("CG(%s, %d)" % (c, r + 2), c, r + 2), ("Regge(%s, %d)" % (c, r), c, r)]))
            else:
                out.append((["def"], [y, ("Regge(%s, %d)" % (c, r), c, r)]))
        if c == "T":
            out.append((["airy", "divt"], [("Argyris(T, 5)", "T", 5), ("AW(T, 3)", "T", 3), ("DG(T, 1)", "T", 1)]))
            out.append((["airy", "divt"], [("CG(T, 4)", "T", 4), ("HHJ(T, 2)", "T", 2), ("DG(T, 1)", "T", 1)]))
            out.append((["divt"], [("AWnc(T, 2)", "T", 2), ("DG(T, 1)", "T", 1)]))
            out.append((["div"], [("MTW(T, 3)", "T", 3), ("DG(T, 0)", "T", 0)]))
            out.append((["div"], [("BDFM(T, 2)", "T", 2), ("DG(T, 1)", "T", 1)]))
    # products
    for k in range(1, 7 if big else 5):
        for g, d in (("CG", "DG"), ("GLL", "GL")):
            a, b = fac("%s(I, %d)" % (g, k)), fac("%s(I, %d)" % (d, k - 1))
            for w in (flat, lambda z: z):
                out.append((["grad", "rot"], [F(w(tp(a, a))), F(w(rtce(k, g, d))), F(w(tp(b, b)))]))
                out.append((["curls", "div"], [F(w(tp(a, a))), F(w(rtcf(k, g, d))), F(w(tp(b, b)))]))
    for k in range(1, 4 if big else 3):
        g, d = fac("CG(I, %d)" % k), fac("DG(I, %d)" % (k - 1))
        q, dq = flat(tp(g, g)), flat(tp(d, d))
        f, e = flat(rtcf(k)), flat(rtce(k))
        V0, V3 = tp(q, g), tp(dq, d)
        for V1 in (enr(wrap("Hcurl", tp(e, g)), wrap("Hcurl", tp(q, d))), enr(wrap("Hcurl", tp(f, g)), wrap("Hcurl", tp(q, d)))):
            for V2 in (enr(wrap("Hdiv", tp(f, d)), wrap("Hdiv", tp(dq, g))), enr(wrap("Hdiv", tp(e, d)), wrap("Hdiv", tp(dq, g)))):
                out.append((["grad", "curl", "div"], [F(flat(V0)), F(flat(V1)), F(flat(V2)), F(flat(V3))]))
                if k == 1:
                    out.append((["grad", "curl", "div"], [F(V0), F(V1), F(V2), F(V3)]))
    for k in range(1, 4):
        for m in ((1, 2, 3) if big else (1, 2)):
            g, d = fac("CG(I, %d)" % m), fac("DG(I, %d)" % (m - 1))
            for va in ("", ", variant='integral'"):
                cg, dg = fac("CG(T, %d)" % k), fac("DG(T, %d)" % (k - 1))
                for n1, rt in (("N1", "RT"), ("RT", "N1"), ("N1", "N1"), ("RT", "RT")):
                    V1 = enr(wrap("Hcurl", tp(fac("%s(T, %d%s)" % (n1, k, va)), g)), wrap("Hcurl", tp(cg, d)))
                    V2 = enr(wrap("Hdiv", tp(fac("%s(T, %d%s)" % (rt, k, va)), d)), wrap("Hdiv", tp(dg, g)))
                    out.append((["grad", "curl", "div"], [F(tp(cg, g)), F(V1), F(V2), F(tp(dg, d))]))
                if k < 3:
                    cg, dg = fac("CG(T, %d)" % (k + 1)), fac("DG(T, %d)" % (k - 1))
                    V1 = enr(wrap("Hcurl", tp(fac("N2(T, %d%s)" % (k, va)), g)), wrap("Hcurl", tp(cg, d)))
                    V2 = enr(wrap("Hdiv", tp(fac("BDM(T, %d%s)" % (k, va)), d)), wrap("Hdiv", tp(dg, g)))
                    out.append((["grad", "curl", "div"], [F(tp(cg, g)), F(V1), F(V2), F(tp(dg, d))]))
    return out


def configs(tier):
    out = [("sequence", ops, [list(s) if s else None for s in seq]) for ops, seq in chains(tier)]
    out += [("data", e.expr) for e in catalog.everything(tier).values() if e.cost < (20 if tier == "quick" else 1e9)]
    seen = {}
    for c in out:
        seen.setdefault(repr(c), c)
    return list(seen.values())


def cost(c):
    if c[0] == "data":
        return catalog.lookup(c[1]).cost
    n = cells.cell(c[2][0][1]).sd
    return sum(len(s[0]) for s in c[2] if s) * n ** 2


def embed(C, a, b):
    out = np.zeros(C.shape[:-1] + (b.N,))
    for j, e in enumerate(a.exps):
        out[..., b.index[e]] = C[..., j]
    return out


LEAD = {"AW": 24, "AWnc": 15, "MTW": 9}


def functions(spec, big):
    e = E(*[tuple(x) if isinstance(x, list) else x for x in spec])
    el = h.element(e.expr)
    C, res = h.primal(e, el)
    fam = e.expr.split("(")[0]
    if fam in LEAD:
        C = C[:LEAD[fam]]
    return embed(C, h.sp(e), big), res / h.magnitude(C), el


def apply(op, sp, C):
    """C (m, nc, N) -> (m', nc', N)"""
    n = sp.sd
    d = lambda X, *ax: sp.deriv(X, tuple(ax.count(i) for i in range(n)))
    st = lambda *x: np.stack(x, axis=1)
    if op == "grad1":
        return st(d(C[:, 0], 0))
    if op == "grad":
        return st(*[d(C[:, 0], i) for i in range(n)])
    if op == "curls":
        return st(d(C[:, 0], 1), -d(C[:, 0], 0))
    if op == "rot":
        return st(d(C[:, 1], 0) - d(C[:, 0], 1))
    if op == "div":
        return st(sum(d(C[:, i], i) for i in range(n)))
    if op == "curl":
        return st(d(C[:, 2], 1) - d(C[:, 1], 2), d(C[:, 0], 2) - d(C[:, 2], 0), d(C[:, 1], 0) - d(C[:, 0], 1))
    if op in ("def", "symcurl"):
        out = []
        for j in range(n):                     # vector fields C e_j
            g = [d(C[:, 0], i) for i in range(n)]
            if op == "symcurl":
                g = [-g[1], g[0]]
            T = np.zeros((len(C), n, n, sp.N))
            for i in range(n):
                T[:, i, j] += g[i] / 2
                T[:, j, i] += g[i] / 2
            out.append(T.reshape(len(C), n * n, -1))
        return np.vstack(out)
    if op == "hess":
        return st(*[d(C[:, 0], i, j) for i in range(n) for j in range(n)])
    if op == "inc":
        return st(d(C[:, 0], 1, 1) + d(C[:, 3], 0, 0) - d(C[:, 1], 0, 1) - d(C[:, 2], 0, 1))
    if op == "divdiv":
        return st(d(C[:, 0], 0, 0) + d(C[:, 3], 1, 1) + d(C[:, 1], 0, 1) + d(C[:, 2], 0, 1))
    if op == "airy":
        return st(d(C[:, 0], 1, 1), -d(C[:, 0], 0, 1), -d(C[:, 0], 0, 1), d(C[:, 0], 0, 0))
    if op == "divt":
        return st(d(C[:, 0], 0) + d(C[:, 1], 1), d(C[:, 2], 0) + d(C[:, 3], 1))
    raise KeyError(op)


def kernel0(op, n, k):
    """documented dimension of the kernel of the first operator on its argument of degree k"""
    return {"grad1": 1, "grad": 1, "curls": 1, "def": n * (n + 1) // 2, "symcurl": 3, "hess": n + 1, "airy": n + 1}.get(op)


ONTO = ("grad1", "rot", "div", "divdiv", "inc", "divt")


def run(cfg, ctx):
    if cfg[0] == "data":
        return data(cfg[1], ctx)
    _, ops, seq = cfg
    cname = seq[0][1]
    c = cells.cell(cname)
    n = c.sd
    K = [np.max([np.atleast_1d(s[2])[min(i, len(np.atleast_1d(s[2])) - 1)] for s in seq if s]) for i in range(len(c.dims))]
    K = K[0] if len(c.dims) == 1 else tuple(K)
    big = poly.space(cname, int(K) if len(c.dims) == 1 else tuple(int(x) for x in K))
    V = []
    for s in seq:
        if s is None:
            V.append(None)
            continue
        C, res, el = functions(s, big)
        ctx.step()
        ctx.ok(res < 1e-7, "not-polynomials", lambda: "%s %g" % (s[0], res))
        C = C / np.maximum(1e-300, np.abs(C).max(axis=(1, 2)))[:, None, None]
        V.append(C)
    i = ctx.choose("operator", list(range(len(ops))))
    op = ops[i]
    A, B = V[i], V[i + 1]
    dA = apply(op, big, A)
    if op == "divt" and B is not None:          # vectors of the scalar element
        Z = np.zeros((len(B), 1, big.N))
        B = np.vstack([np.concatenate([B, Z], axis=1), np.concatenate([Z, B], axis=1)])
    fA = lambda X: X.reshape(len(X), -1)
    if B is None:
        ctx.close(dA, np.zeros_like(dA), "image-not-zero", op, tol=1e-8)
        return
    scale = max(1.0, np.abs(dA).max())
    small = np.abs(dA).max(axis=(1, 2)) < 1e-8 * scale
    if np.any(~small):
        ctx.ok(h.in_span(fA(dA[~small]), fA(B)) < 1e-6, "image-outside-the-next-space", lambda: "%s: %g" % (op, h.in_span(fA(dA[~small]), fA(B))))
    rank = h.rank(fA(dA), 1e-8)
    nA = h.rank(fA(A), 1e-8) * (n if op in ("def", "symcurl") else 1)
    ker = nA - rank
    if i == 0:
        k0 = kernel0(op, n, None)
        if k0 is not None:
            ctx.eq(ker, k0, "kernel-of-the-first-operator", op)
    else:
        # kernel = image of the previous operator
        prev = h.rank(fA(apply(ops[i - 1], big, V[i - 1])), 1e-8)
        ctx.eq(ker, prev, "kernel-is-not-the-previous-image", op)
        # composition is zero
        dd = apply(op, big, apply(ops[i - 1], big, V[i - 1]))
        ctx.close(dd, np.zeros_like(dd), "composition-not-zero", op, tol=1e-7 * max(1.0, np.abs(V[i - 1]).max() * 100))
    if i == len(ops) - 1 and op in ONTO:
        ctx.eq(rank, h.rank(fA(B), 1e-8), "not-onto", op)
    ctx.observe([rank, ker])


def data(expr, ctx):
    e = catalog.lookup(expr)
    c = cells.cell(e.cell)
    el = h.element(expr)
    ctx.step()
    view = ctx.choose("view", ["cell", "functions"])
    ref = el.get_reference_element()
    if view == "cell":
        ctx.eq(ref.get_spatial_dimension(), c.sd, "cell-dimension")
        top = ref.get_topology()
        ctx.eq({d: {i: tuple(v) for i, v in m.items()} for d, m in top.items()}, {d: {i: tuple(v) for i, v in m.items()} for d, m in c.topo.items()}, "topology")
        ctx.close(np.array(ref.get_vertices(), float), c.verts, "vertices", tol=1e-14)
        ids = el.entity_dofs()
        ctx.eq(sorted(ids, key=str), sorted(c.topo, key=str), "entity-dimensions")
        ctx.eq({d: sorted(m) for d, m in ids.items()}, {d: sorted(m) for d, m in c.topo.items()}, "entities")
        clo = el.entity_closure_dofs()
        ctx.eq({d: sorted(m) for d, m in clo.items()}, {d: sorted(m) for d, m in c.topo.items()}, "closure-entities")
        return
    n = el.space_dimension()
    P = c.verts.mean(axis=0) + .01
    t = np.asarray(el.tabulate(0, [tuple(P)])[(0,) * c.sd])
    ctx.eq(t.shape, (n,) + tuple(el.value_shape()) + (1,), "value-shape-of-the-table")
    mp = el.mapping()
    ctx.eq(len(mp), n, "mapping-length")
    base = h.element(expr[4:-1]) if expr.startswith("Dis(Mixed") else el      # a broken element reports the parts of what it breaks
    ctx.eq(el.num_sub_elements(), len(base.elements()) if expr.startswith(("Mixed", "Dis(Mixed")) else 1, "sub-elements")
    ctx.eq(len(el.dual_basis()), n, "dual-length")
    if e.family != "combo":
        ctx.eq(el.value_shape(), tuple(e.shape), "value-shape")
        if e.family != "other-cell":
            ctx.eq(set(mp), {e.mapping}, "mapping")
            # families that declare no form degree
            silent = e.family in ("CR", "Hermite", "DRT", "Morley", "Argyris", "QArgyris", "Bell", "MTW") and el.get_formdegree() is None
            if e.formdegree is not None and not silent:
                ctx.eq(el.get_formdegree(), e.formdegree, "form-degree")
    # the reported degree bounds the functions
    C, res = h.primal(e, el)
    ctx.ok(res <= 1e-7 * h.magnitude(C), "fit")
    sp = h.sp(e)
    mag = np.abs(C).max(axis=(0, 1))
    reach = max([max(a if len(c.dims) > 1 and set(c.dims) == {1} else [sum(a)]) for a, m in zip(sp.exps, mag) if m > 1e-7 * mag.max()])
    if len(c.dims) == 1 or set(c.dims) == {1}:
        ctx.ok(el.degree() >= reach, "degree-too-small", lambda: "%d < %d" % (el.degree(), reach))
