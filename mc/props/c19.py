"""Serendipity and DPC elements on hypercubes: spaces, geometric decomposition, matching traces, derivatives, duals."""
import itertools

import numpy as np

from .. import cells, h, poly
from ..catalog import pk

BOUNDS = {"quick": "serendipity: quadrilateral degree <= 9, IxI <= 5, hexahedron <= 7, IxIxI / QxI <= 5; DPC: interval <= 8, quadrilateral / IxI <= 6, "
                   "hexahedron / IxIxI <= 4; all entities, all pairs of entities, derivative orders 0..3 (all histories of two requests)",
          "thorough": "serendipity: quadrilateral <= 11, hexahedron <= 8; DPC: <= 10, 8, 5; derivative orders 0..4"}
LIMIT_S = 700


def configs(tier):
    big = tier == "thorough"
    out = []
    for c, top in (("Q", 11 if big else 9), ("IxI", 7 if big else 5), ("H", 8 if big else 7), ("IxIxI", 6 if big else 5), ("QxI", 5)):
        out += [("Ser", c, k) for k in range(1, top + 1)]
    for c, top in (("I", 10 if big else 8), ("DI", 4), ("Q", 8 if big else 6), ("IxI", 5), ("H", 5 if big else 4), ("IxIxI", 3)):
        out += [("DPC", c, k) for k in range(top + 1)]
    out += [("Ser", c, k) for c in ("I", "DI") for k in (1, 2, 3)]
    return out


def cost(c):
    n = cells.cell(c[1]).sd
    return (c[2] + 1) ** n * (10 if c[0] == "Ser" else 1) * (5 if n == 3 else 1)


def superlinear(e):
    return sum(i for i in e if i > 1)


class E(object):
    def __init__(self, fam, cname, k):
        self.expr = "%s(%s, %d)" % (fam, cname, k)
        self.cell = cname
        self.D = (k,) * len(cells.cell(cname).dims)


def ser_counts(k):
    tr = (k - 3) * (k - 2) // 2 if k >= 4 else 0
    return {0: 1, 1: k - 1, 2: tr, 3: (k - 5) * (k - 4) * (k - 3) // 6 if k >= 6 else 0}


def run(cfg, ctx):
    fam, cname, k = cfg
    e = E(fam, cname, k)
    c = cells.cell(cname)
    n = c.sd
    el = h.element(e.expr)
    C, res = h.primal(e, el)
    C = C[:, 0, :]
    sp = h.sp(e)
    ctx.step()
    ctx.ok(res < 1e-7 * h.magnitude(C), "not-polynomials-of-the-degree", lambda: "%g" % res)
    ztol = 1e-9 if k < 8 else 1e-7
    line = fam == "Ser" and n == 1
    view = ctx.choose("view", ["space", "layout", "jets", "dual"] + (["decomposition", "traces"] if fam == "Ser" else []))
    if view == "space":
        if fam == "Ser" and not line:
            want = [a for a in sp.exps if superlinear(a) <= k]
        else:
            want = [a for a in sp.exps if sum(a) <= k]
        ctx.eq(el.space_dimension(), len(want), "dimension")
        W = np.array([sp.unit(a) for a in want])
        ctx.eq(h.rank(C), len(want), "dependent")
        ctx.ok(h.in_span(C, W) < 1e-7, "function-outside-the-space", lambda: "%g" % h.in_span(C, W))
        ctx.ok(h.in_span(W, C) < 1e-6, "space-not-spanned", lambda: "%g" % h.in_span(W, C))
        ctx.eq(tuple(el.value_shape()), (), "value-shape")
        ctx.eq(set(el.mapping()), {"affine"}, "mapping")
        ctx.eq(len(el.mapping()), len(want), "mapping")
        ctx.eq(el.get_formdegree(), 0 if fam == "Ser" else n, "form-degree")
        ctx.ok(el.degree() >= k, "degree")
        if fam == "DPC":
            ctx.eq(el.degree(), k, "degree")
        ctx.observe(np.linalg.svd(C, compute_uv=False))
    elif view == "layout":
        ids = el.entity_dofs()
        ctx.eq(sorted(ids, key=str), sorted(c.topo, key=str), "entity-dimensions")
        seen = []
        for d in c.topo:
            ctx.eq(sorted(ids[d]), sorted(c.topo[d]), "entities", d)
            for i in c.topo[d]:
                t = c.tdim(d)
                want = ser_counts(k)[t] if fam == "Ser" else (pk(n, k) if t == n else 0)
                if line:
                    want = 1 if t == 0 else k - 1
                ctx.eq(len(ids[d][i]), want, "dofs-of-entity", (d, i))
                seen += ids[d][i]
        ctx.eq(sorted(seen), list(range(len(C))), "not-a-partition")
        clo = el.entity_closure_dofs()
        for d, i in c.ents:
            ctx.eq(sorted(clo[d][i]), sorted(x for dd, ii in c.closure(d, i) for x in ids[dd][ii]), "closure-dofs", (d, i))
            ctx.step()
    elif view == "jets":
        top = 4 if ctx.tier == "thorough" else 3
        if n == 3 and fam == "Ser":
            top = min(top, 3 if k <= 2 else 2 if k <= 5 else 1)
        fresh = ctx.choose("start", ["shared", "fresh"] if k <= 3 and n < 3 else ["shared"])
        if fresh == "fresh":
            el = h.element(e.expr, fresh=True)
        first, order = ctx.choose("first order", list(range(top + 1))), ctx.choose("order", list(range(top + 1)))
        P = cells.to_cell(c, np.vstack([cells.ref_points(c.dims, 1, "lattice"), cells.ref_points(c.dims, 2, "generic")[:7],
                                        cells.ref_points(c.dims, 1, "generic")[:3] * (2.5 if k * n <= 12 else 1.0) - (.7 if k * n <= 12 else 0.01)]))
        el.tabulate(first, [tuple(p) for p in P[:2]])
        t = el.tabulate(order, [tuple(p) for p in P])
        ctx.step(2)
        ctx.eq(sorted(t), sorted(a for o in range(order + 1) for a in poly.alphas(n, o)), "keys")
        for a in t:
            want = sp.deriv(C, a) @ sp.V(P).T
            ctx.close(t[a], want, "derivative", a, tol=1e-7, scale=max(1.0, np.abs(want).max(), h.magnitude(C) * (2.0 * k) ** sum(a)))
        ctx.observe(t[(0,) * n])
    elif view == "dual":
        M, mag, cnt = h.apply_dual(el.dual_basis(), lambda o, p: el.tabulate(o, p), n, len(C), ())
        ctx.step(cnt)
        ctx.close(M, np.eye(len(C)), "dual-is-not-dual", tol=1e-7 * max(1.0, mag.max()))
        for j, f in enumerate(el.dual_basis()):
            for p in f.get_point_dict():
                ctx.ok(c.contains(p, 1e-10), "dof-point-outside", lambda: "%d %s" % (j, p))
            if fam == "DPC":
                ctx.eq([[float(w) for w, _ in v] for v in f.get_point_dict().values()], [[1.0]], "dof-is-not-a-point-value", j)
        if fam == "DPC":
            pts = [tuple(np.round(list(f.get_point_dict())[0], 9)) for f in el.dual_basis()]
            ctx.eq(len(set(pts)), len(C), "points-coincide")
    elif view == "decomposition":
        ids = el.entity_dofs()
        d, i = ctx.choose("entity", c.entities())
        A, b = c.transform(d, i)
        X = cells.ref_points(c.entity_dims(d, i), k + 1, "generic") @ A.T + b
        v = C @ sp.V(X).T
        inside = c.closure(d, i)
        on = [x for dd, ii in inside for x in ids[dd][ii]]
        off = [x for x in range(len(C)) if x not in on]
        s = h.magnitude(C)
        ctx.close(v[off], np.zeros_like(v[off]), "function-of-another-entity-lives-on-this-one", (d, i), tol=ztol * s)
        ctx.eq(h.rank(v[on]), len(on), "traces-dependent", (d, i))
        if c.tdim(d) == 0:
            ctx.close(v[on], np.ones((1, v.shape[1])), "vertex-function", tol=ztol)
        # the traces are the whole space on the entity
        ed = c.entity_dims(d, i)
        t = sum(ed)
        if t:
            esp = poly.Space((1,) * t, (k,) * t, [.5] * t, .5)
            W = np.array([esp.unit(a) for a in esp.exps if (superlinear(a) if t > 1 else sum(a)) <= k]) @ esp.V(cells.ref_points(ed, k + 1, "generic")).T
            ctx.eq(len(W), len(on), "number-of-traces", (d, i))
            ctx.ok(h.in_span(v[on], W) < 1e-7, "traces-outside-the-facet-space", lambda: repr((d, i)))
        ctx.observe(v[on])
    elif view == "traces":
        # functions of entities glued by identifying their coordinates have identical traces, dof by dof
        ids = el.entity_dofs()
        ents = [(d, i) for d, i in c.entities() if 0 < c.tdim(d) < n]
        if not ents:
            return
        a, b = ctx.choose("A", ents), ctx.choose("B", ents)
        (A, p), (B, q) = c.transform(*a), c.transform(*b)
        if A.shape != B.shape:
            return
        ref = cells.ref_points(c.entity_dims(*a), k + 1, "generic")
        va, vb = C @ sp.V(ref @ A.T + p).T, C @ sp.V(ref @ B.T + q).T
        s = h.magnitude(C)
        ctx.close(va[ids[a[0]][a[1]]], vb[ids[b[0]][b[1]]], "traces-of-the-entity-functions-differ", (a, b), tol=ztol * s)
        # sub-entities matched through the reference coordinates
        for (sa, sb) in itertools.product(c.closure(*a), c.closure(*b)):
            (S, s0), (U, u0) = c.transform(*sa), c.transform(*sb)
            if S.shape != U.shape:
                continue
            pa, pb = np.linalg.pinv(A), np.linalg.pinv(B)
            if np.allclose(pa @ S, pb @ U) and np.allclose(pa @ (s0 - p), pb @ (u0 - q)):
                ctx.step()
                ctx.close(va[ids[sa[0]][sa[1]]], vb[ids[sb[0]][sb[1]]], "traces-on-the-glued-entity-differ", (a, b, sa, sb), tol=ztol * s)
