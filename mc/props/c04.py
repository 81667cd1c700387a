"""Tabulating on an entity equals tabulating at the mapped points."""
import numpy as np

from .. import h, catalog, cells, poly

BOUNDS = {"quick": "every element of the catalogue (cost-limited degrees), every entity of every dimension, derivative orders 0..2, "
                   "interior and vertex points of the entity, entity given or omitted",
          "thorough": "all catalogue degrees, orders 0..3"}
LIMIT_S = 400


def configs(tier):
    return [e.expr for e in catalog.everything(tier).values() if tier == "thorough" or e.cost < 12]


def cost(c):
    return catalog.lookup(c).cost


def run(expr, ctx):
    e = catalog.lookup(expr)
    c = cells.cell(e.cell)
    el = h.element(expr)
    n, shape = el.space_dimension(), tuple(el.value_shape())
    C, res = h.primal(e, el)
    S = h.sp(e)
    ent = ctx.choose("entity", c.entities() + [None])
    order = ctx.choose("order", [0, 1, 2] if ctx.tier == "quick" else [0, 1, 2, 3])
    d, i = ent if ent else (c.top, 0)
    dims = c.entity_dims(d, i)
    A, b, R, t0 = c.ref_transform(d, i)
    pts = np.vstack([cells.ref_points(dims, 1, "generic"), cells.ref_points(dims, 1, "lattice"),
                     cells.ref_points(dims, 1, "generic") * 0.31 + 0.17]) @ R.T + t0
    phys = pts @ A.T + b
    if not sum(dims):
        pts, phys = pts[:2], phys[:2]
    arg = [tuple(p) for p in pts]
    tab = el.tabulate(order, arg, ent) if ent else el.tabulate(order, arg)
    ctx.step()
    want = [a for k in range(order + 1) for a in poly.alphas(c.sd, k)]
    ctx.eq(sorted(tab), sorted(want), "multi-indices")
    V = S.V(phys)
    row = np.max(np.abs(C), axis=(1, 2)).reshape(-1, 1, 1)
    row = np.where(row > 0, row, 1.0)
    for a in want:
        got = h.flat(tab[a], n, shape)
        exp = S.deriv(C / row, a) @ V.T
        sc = max(1.0, float(np.max(np.abs(exp))), 1e-2 * float(np.max(np.abs(S.deriv(np.abs(C / row), a)) @ np.abs(V).T)))
        ctx.close(got / row, exp, "entity-table", "entity %s derivative %s" % (ent, a), tol=2e-7, scale=sc)
    # and the real thing on the cell gives the same numbers
    if ent:
        cell_tab = el.tabulate(order, [tuple(p) for p in phys])
        ctx.step()
        for a in want:
            ctx.close(np.asarray(tab[a], float), np.asarray(cell_tab[a], float), "entity-vs-cell", "entity %s %s" % (ent, a),
                      tol=1e-7, scale=max(1.0, float(np.max(np.abs(np.asarray(cell_tab[a], float))))))
    ctx.observe(*[h.flat(tab[a], n, shape)[:, :, 0] for a in want[:2]])
