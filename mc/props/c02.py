"""Every element spans exactly its documented polynomial space."""
import math

import numpy as np

from .. import h, catalog, cells, poly, spaces

BOUNDS = {"quick": "every simplicial family (degree <= 9/6/4, single elements to 9/9/6; H(div), H(curl) <= 5/3, single elements to 6/4; all variants), serendipity, DPC, products and hypercubes",
          "thorough": "degrees <= 14/8/6, H(div)/H(curl) <= 7/5"}
LIMIT_S = 400


def configs(tier):
    return [e.expr for e in catalog.everything(tier).values() if e.family not in ("combo", "other-cell")
            and (tier != "quick" or e.cost < 20)] + [e.expr for e in catalog.combos(tier) if e.family == "other-cell"]


def cost(c):
    return catalog.lookup(c).cost


def expected(e):
    if e.family == "product":
        return spaces.product(e.kw["f1"], e.D), None
    if e.family == "other-cell":
        fam, rest = e.expr.split("(", 1)
        if fam == "TP":
            sp = h.sp(e)
            return np.eye(sp.N)[:, None, :], None
        args = [a.strip() for a in rest.rstrip(")").split(",")]
        x = spaces._Leaf()
        x.family, x.cell, x.D = fam, args[0], e.D
        x.degree = int(args[1]) if len(args) > 1 else e.D
        return spaces.simplicial(x)
    return spaces.simplicial(e)


def run(expr, ctx):
    e = catalog.lookup(expr)
    c = cells.cell(e.cell)
    el = h.element(expr)
    ctx.step()
    view = ctx.choose("view", ["tabulate", "nodal_basis", "degree"])
    n = el.space_dimension()
    E, lead = expected(e)
    E = E.reshape(len(E), -1)
    dim = h.rank(E)
    if view == "degree":
        ctx.eq(tuple(el.value_shape()), tuple(e.shape), "value-shape")
        ctx.eq(n, dim if lead is None else ELL[e.family], "dimension", "space_dimension")
        ctx.eq(len(el.dual_basis()), n, "dual-basis-length")
        # the reported degree bounds every function
        top = e.D if isinstance(e.D, int) else e.degree
        if e.family in ("product", "Ser") or "x" in e.cell:
            ctx.ok(el.degree() >= max(e.D), "degree", lambda: "%r < %r" % (el.degree(), e.D))
        else:
            ctx.eq(el.degree(), top, "degree")
        return
    if view == "tabulate":
        C, res = h.primal(e, el)
    else:
        if not hasattr(el, "get_nodal_basis"):
            return
        try:
            ps = el.get_nodal_basis()
        except NotImplementedError:
            from ..engine import Skip
            raise Skip("no nodal basis")
        pts, _, _ = poly.fit_setup(e.cell, e.D)
        t = ps.tabulate([tuple(p) for p in pts])[(0,) * c.sd]
        ctx.step()
        C, res = poly.fit(e.cell, e.D, h.flat(t, n, el.value_shape()))
        ctx.eq(ps.get_num_members(), n, "num-members")
        ctx.eq(tuple(ps.get_shape()), tuple(e.shape), "set-shape")
        ctx.eq(ps.get_reference_element(), el.get_reference_element(), "set-cell")
        # the coefficients and derivative matrices of the element are those of its nodal basis
        co, D = np.asarray(el.get_coeffs(), float), el.dmats()
        ex, k = ps.get_expansion_set(), ps.get_embedded_degree()
        ctx.ok(np.array_equal(co, np.asarray(ps.get_coeffs(), float)), "element-coefficients")
        ctx.eq(len(D), c.sd, "derivative-matrices")
        N = math.comb(k + c.sd, c.sd)
        ctx.eq((co.shape[-1], el.get_num_members(k), ex.get_num_members(k)), (N, N, N), "expansion-members")
        P = [tuple(p) for p in pts[:7]]
        V = np.asarray(ex.tabulate(k, P), float)
        tab = el.tabulate(1, P)
        for i in range(c.sd):
            for M, name in ((np.eye(N), "coefficients"), (np.asarray(D[i], float).T, "derivative-matrix")):
                a = tuple(int(q == i and name != "coefficients") for q in range(c.sd))
                want = np.asarray(tab[a], float)
                ctx.close(np.tensordot(co, M @ V, axes=(-1, 0)), want, name, "order %s" % (a,), tol=1e-9, scale=max(1.0, float(np.max(np.abs(want)))))
    ctx.ok(res <= 1e-7 * h.magnitude(C), "not-in-polynomial-space", "residual %g" % res)
    C = C.reshape(n, -1)
    R = C / np.maximum(1e-300, np.linalg.norm(C, axis=1))[:, None]
    s = np.linalg.svd(R, compute_uv=False)
    ctx.ok(s[-1] > 1e-9 * s[0], "dependent-basis", lambda: "singular values %.3g ... %.3g" % (s[0], s[-1]))
    L = C if lead is None else C[:lead]
    ctx.eq(len(L), dim, "dimension", "number of basis functions")
    ctx.ok(h.in_span(L, E) < 1e-7, "outside-documented-space", lambda: "basis function outside by %g" % h.in_span(L, E))
    ctx.ok(h.in_span(E, L) < 1e-6, "documented-space-not-spanned", lambda: "missed by %g" % h.in_span(E, L))
    ctx.observe(str((n, dim)))


# number of functions including those of the constraint dofs (documented extended elements)
ELL = {"Bell": 21, "MTW": 20, "AW": 30, "AWnc": 18}
