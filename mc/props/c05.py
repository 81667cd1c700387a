"""Dof layout: partition over entities, documented counts, closures, sample locations."""
import numpy as np

from .. import h, catalog, cells

BOUNDS = {"quick": "every element of the catalogue (cost-limited degrees), every entity",
          "thorough": "every element of the thorough catalogue, every entity"}
LIMIT_S = 400


def configs(tier):
    return [e.expr for e in catalog.everything(tier).values() if tier == "thorough" or e.cost < 20]


def cost(c):
    return catalog.lookup(c).cost


def norm(d):
    return {k: {int(e): [int(i) for i in v] for e, v in m.items()} for k, m in d.items()}


def counts(e, c):
    """documented number of dofs of every entity, or None"""
    if e.kw.get("pcounts") is not None:
        return {k: e.kw["pcounts"].get(c.ents[k][0], 0) for k in c.ents}
    if e.counts is None or e.family in ("MTW", "AW", "AWnc"):
        if e.family in COUNTS:
            return {k: COUNTS[e.family].get(k[0], 0) for k in c.ents}
        return None
    return {k: e.counts.get(k[0], 0) for k in c.ents}


# including the dofs that only express the constraints of the space
COUNTS = {"MTW": {1: 5, 2: 5}, "AW": {0: 3, 1: 4, 2: 9}, "AWnc": {1: 5, 2: 3}}
# families whose dofs are by design not local evaluations
NONLOCAL = ("Ser", "Bernstein")


def run(expr, ctx):
    e = catalog.lookup(expr)
    c = cells.cell(e.cell)
    el = h.element(expr)
    ctx.step()
    n = el.space_dimension()
    ed = norm(el.entity_dofs())
    view = ctx.choose("view", ["partition", "closure", "location"])
    keys = {d: sorted(m) for d, m in c.topo.items()}
    if view == "partition":
        ctx.eq({d: sorted(m) for d, m in ed.items()}, keys, "entities")
        flat = [i for m in ed.values() for v in m.values() for i in v]
        ctx.eq(sorted(flat), list(range(n)), "partition", "dof numbers")
        want = counts(e, c)
        if want is not None:
            ctx.eq({k: len(ed[k[0]][k[1]]) for k in c.ents}, want, "count-per-entity")
        if hasattr(el, "dual") and e.family != "Ser":
            ctx.eq(norm(el.dual.get_entity_ids()), ed, "dual-set-entity-ids")
        ctx.eq(len(el.mapping()), n, "mapping-length")
        ctx.observe(repr(sorted((str(k), len(ed[k[0]][k[1]])) for k in c.ents)))
        return
    ent = ctx.choose("entity", c.entities())
    d, i = ent
    if view == "closure":
        got = norm(el.entity_closure_dofs())
        ctx.step()
        ctx.eq({x: sorted(m) for x, m in got.items()}, keys, "closure-entities")
        want = sorted(j for x, y in c.closure(d, i) for j in ed[x][y])
        ctx.eq(sorted(got[d][i]), want, "closure", ent)
        if hasattr(el, "dual") and e.family != "Ser":
            ctx.eq(sorted(norm(el.dual.get_entity_closure_ids())[d][i]), want, "dual-set-closure", ent)
        ctx.observe(repr(got[d][i]))
        return
    if e.family in NONLOCAL or "Bernstein" in expr or "Ser" in expr:
        return
    nodes = el.dual_basis()
    A, b = c.transform(d, i)
    pin = np.linalg.pinv(A) if A.shape[1] else np.zeros((0, c.sd))
    dims = c.entity_dims(d, i)
    local = ed[d][i]
    for j in local:
        f = nodes[j]
        if h.undefined(f):
            continue
        for p in list(f.get_point_dict()) + list(f.deriv_dict):
            p = np.asarray(p, float)
            x = pin @ (p - b)
            ctx.close(A @ x + b, p, "sample-point-off-entity", "dof %d of entity %s" % (j, ent), tol=1e-9)
            r = 0
            for m in dims:
                y = x[r:r + m]
                ctx.ok(m == 0 or (y.min() >= -1e-9 and y.sum() <= 1 + 1e-9), "sample-point-outside-entity",
                       lambda: "dof %d of entity %s samples %s" % (j, ent, p))
                r += m
        ctx.step()
