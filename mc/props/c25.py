"""entity_support_dofs against the model polynomials restricted to every entity."""
import numpy as np

from .. import h, catalog, cells
from FIAT.finite_element import entity_support_dofs

BOUNDS = {"quick": "every element of the catalogue (cost-limited), every dimension in every order of asking (first call and repeated call), every entity, "
                   "every basis function",
          "thorough": "every element of the thorough catalogue"}
ASSUMPTIONS = ["a function whose size on the entity is between 1e-5 and 1e-3 of its size on the cell is not judged"]
LIMIT_S = 400


def configs(tier):
    return [e.expr for e in catalog.everything(tier).values() if tier == "thorough" or e.cost < 12]


def cost(c):
    return catalog.lookup(c).cost


def run(expr, ctx):
    e = catalog.lookup(expr)
    c = cells.cell(e.cell)
    el = h.element(expr)
    C, res = h.primal(e, el)
    sp = h.sp(e)
    ctx.ok(res < 1e-6 * h.magnitude(C), "fit", lambda: "%g" % res)
    dims = list(c.topo)
    first = ctx.choose("dimension", dims)
    then = ctx.choose("then", dims if len(dims) < 5 or ctx.tier == "thorough" else [first, dims[0], dims[-1]])
    if hasattr(el, "_entity_support_dofs"):
        del el._entity_support_dofs
    K = cells.to_cell(c, np.vstack([cells.ref_points(c.dims, 1, "lattice"), cells.ref_points(c.dims, max(sp.ks) + 1, "generic")]))
    size = np.max(np.abs(C @ sp.V(K).T), axis=(1, 2))
    for d in (first, then):
        got = entity_support_dofs(el, d)
        ctx.step()
        ctx.eq(sorted(got), sorted(c.topo[d]), "entities", d)
        for i in got:
            A, b = c.transform(d, i)
            P = cells.ref_points(c.entity_dims(d, i), max(sp.ks), "generic") @ A.T + b
            r = np.max(np.abs(C @ sp.V(P).T), axis=(1, 2)) / size
            mine = sorted(int(j) for j in got[i])
            ctx.eq(len(set(mine)), len(mine), "repeated")
            for j in range(len(r)):
                if r[j] > 1e-3:
                    ctx.ok(j in mine, "missing", lambda: "dof %d on %s: relative size %g" % (j, (d, i), r[j]))
                elif r[j] < 1e-5:
                    ctx.ok(j not in mine, "spurious", lambda: "dof %d on %s: relative size %g" % (j, (d, i), r[j]))
            ctx.observe(repr((d, i, mine)))
