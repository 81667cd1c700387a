"""Derivative tables: complete, of the right shape, and exact."""
import numpy as np

from .. import h, catalog, cells, poly

BOUNDS = {"quick": "every element of the catalogue (degree <= 9/6/4 on interval/triangle/tetrahedron, single elements to 9/9/6, vector and tensor families, products, "
                   "hypercubes, combinations, other vertex conventions); derivative order 0..3; interior, boundary, vertex and outside points",
          "thorough": "same with degrees <= 14/8/6 and derivative order 0..4"}
LIMIT_S = 400


def configs(tier):
    return list(catalog.everything(tier)) if tier == "thorough" else [
        e.expr for e in catalog.everything(tier).values() if e.cost < 20]


def cost(c):
    return catalog.lookup(c).cost * (2 if "Ser" in c or "Bernstein" in c else 1)


def maxorder(e):
    if e.family == "Ser":
        return 3 if e.cell == "Q" or e.degree < 3 else 2
    if e.family == "Bernstein":
        return 3 if e.cell != "S" else 2
    return 3


def points(c, which, far=True):
    dims = c.dims
    if which == "interior":
        p = cells.ref_points(dims, 2 if c.sd < 3 else 1, "generic")
    elif which == "closed":
        p = cells.ref_points(dims, 2, "lattice")
    else:
        # (closer to the cell for high degrees on hypercubes, where the model itself extrapolates badly)
        p = cells.ref_points(dims, 1, "generic")
        p = p * 1.7 - 0.5 if far else p * 1.2 - 0.1
    return cells.to_cell(c, p)


def run(expr, ctx):
    e = catalog.lookup(expr)
    c = cells.cell(e.cell)
    el = h.element(expr)
    n, shape = el.space_dimension(), el.value_shape()
    ctx.eq(tuple(shape), tuple(e.shape), "value-shape")
    C, res = h.primal(e, el)
    S = h.sp(e)
    ctx.ok(res <= 1e-7 * h.magnitude(C), "not-in-polynomial-space", "residual %g" % res)
    order = ctx.choose("order", list(range(maxorder(e) + 1 + (ctx.tier == "thorough"))))
    which = ctx.choose("points", ["interior", "closed", "outside"])
    pts = points(c, which, e.family != "Ser" or e.degree < (8 if c.sd == 2 else 6))
    tab = el.tabulate(order, [tuple(p) for p in pts])
    ctx.step()
    want = [a for k in range(order + 1) for a in poly.alphas(c.sd, k)]
    ctx.eq(sorted(tab), sorted(want), "multi-indices")
    V = S.V(pts)
    row = np.max(np.abs(C), axis=(1, 2)).reshape(-1, 1, 1) if C.size else 1.0
    row = np.where(row > 0, row, 1.0)
    Cn = C / row                    # every basis function on its own scale
    for a in want:
        ctx.eq(tuple(np.shape(tab[a])), (n,) + tuple(shape) + (len(pts),), "table-shape", a)
        got = h.flat(tab[a], n, shape)
        exp = S.deriv(Cn, a) @ V.T
        # conditioning of the model itself: size of the terms that are summed
        sc = max(1.0, float(np.max(np.abs(exp))), 1e-2 * float(np.max(np.abs(S.deriv(np.abs(Cn), a)) @ np.abs(V).T)))
        ctx.close(got / row, exp, "derivative", "%s at %s points" % (a, which), tol=2e-7, scale=sc)
    ctx.observe(*[tab[a].astype(float) for a in want[-2:]])
