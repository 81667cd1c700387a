"""Nodality: applying dof i (as published by the element) to basis function j gives delta_ij."""
import numpy as np

from .. import h, catalog

BOUNDS = {"quick": "all families; degree <= 9 (interval) / 6 (triangle) / 4 (tetrahedron), H(div)/H(curl) <= 5/3, "
                   "all dof variants; tensor products and combinators listed in extra()",
          "thorough": "as quick with degree <= 14/8/6, H(div)/H(curl) <= 7/5"}


def extra(tier):
    """(expr, how) for nodal elements outside the simplicial catalogue."""
    out = []
    L = ["CG(I, 1)", "CG(I, 2)", "CG(I, 3)", "DG(I, 0)", "DG(I, 1)", "DG(I, 2)", "GLL(I, 3)", "GLL(I, 4)", "GL(I, 2)", "GR(I, 3)",
         "Hermite(I)"]
    for a in L:
        for b in L:
            if "Hermite" in a or "Hermite" in b:
                continue
            out.append("TP(%s, %s)" % (a, b))
    for a in ["CG(T, 1)", "CG(T, 2)", "CG(T, 3)", "DG(T, 0)", "DG(T, 1)", "DG(T, 2)", "CG(I, 1)"]:
        for b in ["CG(I, 1)", "CG(I, 2)", "DG(I, 0)", "DG(I, 1)", "GLL(I, 3)", "GL(I, 1)", "CG(T, 2)"]:
            if "T" in a + b:
                out.append("TP(%s, %s)" % (a, b))
    for a in ["CG(I, 1)", "DG(I, 1)"]:
        for b in ["CG(I, 2)", "DG(I, 0)"]:
            for c in ["CG(I, 1)", "GL(I, 1)", "CG(I, 3)"]:
                out.append("TP(Flat(TP(%s, %s)), %s)" % (a, b, c))
                out.append("Flat(TP(Flat(TP(%s, %s)), %s))" % (a, b, c))
                out.append("TP(TP(%s, %s), %s)" % (a, b, c))
    for w, fam in (("Hdiv", ("RT(T, %d)", "BDM(T, %d)", "RT(T, %d, variant='integral')", "BDM(T, %d, variant='integral')")),
                   ("Hcurl", ("N1(T, %d)", "N2(T, %d)", "N1(T, %d, variant='integral')", "N2(T, %d, variant='integral')"))):
        for a in fam:
            for k in (1, 2, 3):
                for b in (["DG(I, 0)", "DG(I, 1)", "DG(I, 2)"] if w == "Hdiv" else ["CG(I, 1)", "CG(I, 2)"]):
                    out.append("%s(TP(%s, %s))" % (w, a % k, b))
    for k in (1, 2, 3, 4):
        out.append("Flat(TP(CG(I, %d), CG(I, %d)))" % (k, k))
    for e in ["CG(I, 2)", "CG(T, 2)", "CG(T, 3)", "CG(T, 4)", "CG(S, 2)", "CG(S, 3)", "RT(T, 2)", "RT(S, 2)", "N1(T, 2)", "N1(S, 2)",
              "N1(S, 3)", "BDM(T, 3)", "N2(S, 2)", "Regge(T, 1)", "Regge(S, 1)", "HHJ(T, 1)", "Hermite(T)", "Argyris(T, 5)", "Morley(T)"]:
        sd = {"I": 1, "T": 2, "S": 3}[e[e.index("(") + 1]]
        q = _entries("quick")
        n = (q.get(e) or q[e[:-1] + ", variant='point')"]).counts
        ent = {1: (2, 1), 2: (3, 3, 1), 3: (4, 6, 4, 1)}[sd]
        for dom in ["interior", "vertex", "edge", "face", "facet"]:
            hi = {"vertex": 0, "edge": 1, "face": 2, "facet": sd - 1, "interior": None}[dom]
            if hi is not None and hi > sd:
                continue
            cnt = n.get(sd, 0) if hi is None else sum(n.get(d, 0) * ent[d] for d in range(hi + 1))
            if cnt:
                out.append("Res(%s, restriction_domain=%r)" % (e, dom))
        out.append("Res(%s, indices=[1])" % e if sd > 1 else "Res(%s, indices=[0, 2])" % e)
        out.append("Dis(%s)" % e)
    out += ["Res(CG(T, 2), indices=[3, 0, 5])", "Res(CG(T, 2), indices=[5, 4, 3, 2, 1, 0])",
            "Res(RT(T, 2), indices=[7, 0])", "Dis(TP(CG(I, 1), CG(I, 2)))", "Dis(Flat(TP(CG(I, 1), CG(I, 2))))"]
    out += ["NEnr(CG(I, 1), Bubble(I, 2))", "NEnr(CG(I, 1), Bubble(I, 3))", "NEnr(CG(T, 1), Bubble(T, 3))", "NEnr(CG(T, 2), Bubble(T, 3))",
            "NEnr(CG(T, 1), FBubble(T, 2))", "NEnr(CG(T, 1), FBubble(T, 2), Bubble(T, 3))",
            "NEnr(CG(S, 1), Bubble(S, 4))", "NEnr(CG(S, 1), FBubble(S, 3))", "NEnr(CG(T, 2), Bubble(T, 4))",
            "NEnr(RT(T, 1), Res(RT(T, 2), restriction_domain='interior'))",
            "NEnr(N1(S, 1), Res(N1(S, 2), restriction_domain='face'))" if False else
            "NEnr(N1(T, 1), Res(N1(T, 2), restriction_domain='interior'))",
            "NEnr(Regge(S, 1), Res(Regge(S, 2), restriction_domain='interior'))",
            "NEnr(Res(BDM(T, 2), restriction_domain='facet'), Res(BDM(T, 2), restriction_domain='interior'))",
            "NEnr(Res(CG(T, 3), restriction_domain='vertex'), Res(CG(T, 3), indices=[3, 4, 5, 6, 7, 8]), Bubble(T, 3))"]
    return list(dict.fromkeys(out))


_ENT = {}


def _entries(tier):
    if tier not in _ENT:
        _ENT[tier] = h.entries(tier)
    return _ENT[tier]


def configs(tier):
    return [k for k, e in _entries(tier).items() if e.nodal] + extra(tier)


def cost(c):
    e = _entries("thorough").get(c)
    return e.cost if e else 0.3


def run(expr, ctx):
    el = h.element(expr)
    n = el.space_dimension()
    shape = el.value_shape()
    ref = el.get_reference_element()
    sd = ref.get_spatial_dimension()
    ctx.step()
    dual = el.dual_basis()
    ctx.eq(len(dual), n, "number-of-functionals", "dual basis length")
    view = ctx.choose("view", ["tabulate", "entity", "nodal_basis"])
    if view == "tabulate":
        tabulate = lambda o, p: el.tabulate(o, p)
    elif view == "entity":
        top = ref.get_dimension()
        tabulate = lambda o, p: el.tabulate(o, p, (top, 0))
    else:
        try:
            ps = el.get_nodal_basis()
        except NotImplementedError:
            from ..engine import Skip
            raise Skip("no nodal basis view")
        tabulate = lambda o, p: ps.tabulate(p, o)
    M, mag, npt = h.apply_dual(dual, tabulate, sd, n, shape)
    ctx.step(2)
    ctx.observe(str(mag.shape), np.sort(np.diag(mag)))
    d = np.abs(M - np.eye(n))
    # products with a factor dof that is not a point evaluation publish a
    # placeholder ("Undefined") functional: no claim for those rows
    for i, f in enumerate(dual):
        if h.undefined(f):
            d[i] = 0.0
            M[i] = 0.0
    bad = d > 1e-9 * np.maximum(1.0, mag.max(axis=1, keepdims=True)) * 10
    ctx.ok(not bad.any() and np.isfinite(M).all(), "dual-on-primal:" + view,
           lambda: "dof %d applied to basis function %d gives %r" % (tuple(map(int, np.unravel_index(np.argmax(d), d.shape)))
                                                                     + (float(M.flat[int(np.argmax(d))]),)))
    if view == "tabulate":
        # the published functionals are linearly independent on the space, and
        # the element's bookkeeping agrees with them
        seen = sorted(i for m in el.entity_dofs().values() for l in m.values() for i in l)
        ctx.eq(seen, list(range(n)), "dof-numbering", "dofs attached to entities")
        ctx.ok(el.get_dual_set().get_nodes() is not None and len(el.get_dual_set().get_nodes()) == n,
               "dual-set-size", "dual set and dual basis differ")
        ctx.ok(el.is_nodal() is True, "is_nodal", "nodal element says it is not nodal")
