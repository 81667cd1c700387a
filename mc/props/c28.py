"""Quadrature elements: identity at their points, nothing else."""
import itertools

import numpy as np

from .. import cells, catalog, h
from FIAT.quadrature_element import QuadratureElement
from FIAT.quadrature_schemes import create_quadrature
from FIAT.quadrature import make_quadrature

BOUNDS = {"quick": "18 cells (simplices of all conventions, quadrilateral, hexahedron, products, nested products); rules of degree 0..5 (KMV rules, plain point "
                   "sets, a single point, vertices); containers list/tuple/array; every entity; orders 0..2; point sets that are permuted, "
                   "truncated, extended or moved in any one coordinate of any one point by 1e-9 .. 1",
          "thorough": "degrees 0..12"}
CELLS = ("I", "T", "S", "DI", "DT", "DS", "NT", "NS", "Q", "H", "IxI", "TxI", "IxT", "SxI", "IxIxI", "QxI", "(IxI)xI", "TxT")
BOX = {"list": lambda p: [tuple(x) for x in p], "lists": lambda p: [list(x) for x in p], "tuple": lambda p: tuple(tuple(x) for x in p),
       "array": lambda p: np.array(p)}


def configs(tier):
    out = []
    for c in CELLS:
        n = cells.cell(c).sd
        for d in range((13 if n < 3 else 7) if tier == "thorough" else (6 if n < 3 else 3)):
            out.append((c, "rule", d))
        out += [(c, "points", k) for k in (1, 2, 3)] + [(c, "vertices", 0)]
    out += [("T", "KMV", k) for k in range(1, 6)] + [("S", "KMV", k) for k in range(1, 4)]
    return out


def cost(c):
    return (c[2] + 1) ** cells.cell(c[0]).sd


def points(c, cname, kind, d):
    T = catalog.fiat_cell(cname)
    if kind == "rule":
        q = create_quadrature(T, d)
        return q.get_points(), q.get_weights()
    if kind == "KMV":
        q = create_quadrature(T, d, scheme="KMV")
        return q.get_points(), q.get_weights()
    if kind == "vertices":
        return c.verts, None
    return cells.to_cell(c, cells.ref_points(c.dims, 2, "generic")[:d]), None


def refused(ctx, what, key, f):
    ctx.step()
    try:
        f()
    except Exception:
        ctx.compares += 1
        return
    ctx.ok(False, key, what)


def run(cfg, ctx):
    cname, kind, d = cfg
    c = cells.cell(cname)
    P, w = points(c, cname, kind, d)
    P = np.array(P, float).reshape(-1, c.sd)
    n = len(P)
    box = ctx.choose("construct from", list(BOX))
    el = QuadratureElement(catalog.fiat_cell(cname), BOX[box](P), w)
    zero = (0,) * c.sd
    op = ctx.choose("request", ["own points", "layout", "derivative", "entity", "permuted", "truncated", "extended", "moved"])
    if op == "own points":
        rep = ctx.choose("container", list(BOX))
        ent = ctx.choose("entity", [None, (c.top, 0)])
        eps = ctx.choose("off by", [0.0, 1e-15])
        t = el.tabulate(0, BOX[rep](P + eps), *([] if ent is None else [ent]))
        ctx.step()
        ctx.eq(sorted(t), [zero], "keys")
        ctx.close(t[zero], np.eye(n), "not-the-identity", tol=0.0)
        ctx.observe([n])
    elif op == "layout":
        ctx.eq(el.space_dimension(), n, "dimension")
        ctx.eq(el.value_shape(), (), "value-shape")
        ctx.ok(el.is_nodal(), "nodal")
        ctx.eq(list(el.mapping()), ["affine"] * n, "mapping")
        ed = el.entity_dofs()
        ctx.eq({k: sorted(m) for k, m in ed.items()}, {k: sorted(m) for k, m in c.topo.items()}, "entities")
        for k, m in ed.items():
            for e, v in m.items():
                ctx.eq([int(i) for i in v], list(range(n)) if k == c.top else [], "entity-dofs", (k, e))
        cl = el.entity_closure_dofs()
        ctx.eq(sorted(int(i) for i in cl[c.top][0]), list(range(n)), "closure")
        nodes = el.dual_basis()
        ctx.eq(len(nodes), n, "number-of-dofs")
        for i, f in enumerate(nodes):
            (p, t), = f.get_point_dict().items()
            ctx.close(np.array(p, float), P[i], "dof-at-other-point", i, tol=0.0)
            ctx.eq(([(float(a), tuple(b)) for a, b in t], dict(f.deriv_dict)), ([(1.0, ())], {}), "dof-not-a-point-value", i)
            ctx.close(f(lambda x: 1.0 + sum((j + 2) * y for j, y in enumerate(x))),
                      1.0 + sum((j + 2) * y for j, y in enumerate(P[i])), "dof-value", i, tol=1e-14)
        ctx.step(6)
    elif op == "derivative":
        k = ctx.choose("order", [1, 2, 3])
        refused(ctx, k, "derivative-not-refused", lambda: el.tabulate(k, BOX[box](P)))
    elif op == "entity":
        e = ctx.choose("entity", [k for k in c.entities() if k[0] != c.top])
        m = sum(c.entity_dims(*e))
        refused(ctx, e, "entity-not-refused", lambda: el.tabulate(0, BOX[box](P), e))
        refused(ctx, e, "entity-not-refused", lambda: el.tabulate(0, [(.3,) * m] * n, e))
    elif op == "permuted":
        if n < 2:
            return
        i = ctx.choose("swap", list(range(n - 1)))
        Q = P.copy()
        Q[[i, i + 1]] = Q[[i + 1, i]]
        refused(ctx, i, "permutation-accepted", lambda: el.tabulate(0, BOX[box](Q)))
    elif op == "truncated":
        i = ctx.choose("without", list(range(n)))
        if n > 1:
            refused(ctx, i, "subset-accepted", lambda: el.tabulate(0, BOX[box](np.delete(P, i, axis=0))))
    elif op == "extended":
        i = ctx.choose("repeat", list(range(n)))
        refused(ctx, i, "superset-accepted", lambda: el.tabulate(0, BOX[box](np.vstack([P, P[i:i + 1]]))))
    else:
        i = ctx.choose("point", list(range(n)))
        j = ctx.choose("coordinate", list(range(c.sd)))
        for s in (1e-9, -1e-9, 1e-4, -1e-2, 0.5, -1.0):
            Q = P.copy()
            Q[i, j] += s
            refused(ctx, "%d %d %g" % (i, j, s), "moved-point-accepted", lambda: el.tabulate(0, BOX[box](Q)))
