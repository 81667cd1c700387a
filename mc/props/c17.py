"""HDivTrace: facet-wise discontinuous Lagrange functions, and nothing else."""
import itertools

import numpy as np

from .. import cells, poly, h
from ..catalog import fiat_cell
from FIAT.hdiv_trace import HDivTrace, TraceError

BOUNDS = {"quick": "triangle degrees 0..6, tetrahedron 0..4, quadrilateral 0..4, default/Intrepid simplices 0..3, products IxI, TxI, IxT, IxIxI, QxI, IxQ, TxT, "
                   "(IxI)xI, Ix(IxI), (TxI)xI with every degree tuple over 0..2 and single degrees; every entity; orders 0..2; enriched, mixed and broken elements with trace parts on every facet; point sets on a "
                   "facet, on two facets, at vertices, on edges, inside, outside, off by 1e-13 / 1e-7",
          "thorough": "triangle degrees 0..9, tetrahedron 0..6, quadrilateral 0..7, tuples over 0..4"}
ASSUMPTIONS = ["facet functions are those of equispaced lattice nodes in the order of the published dofs"]
SIMP = ("T", "S", "DT", "DS", "NT", "NS")


def configs(tier):
    big = tier == "thorough"
    out = []
    for c, q, t in (("T", 6, 9), ("S", 4, 6), ("Q", 4, 7), ("DT", 3, 5), ("DS", 3, 4), ("NT", 3, 5), ("NS", 3, 4)):
        out += [(c, k) for k in range((t if big else q) + 1)]
    for c, m in (("IxI", 2), ("TxI", 2), ("IxT", 2), ("IxIxI", 3), ("QxI", 2), ("IxQ", 2), ("TxT", 2)):
        out += [(c, k) for k in range(4)]
        top = (4 if m == 2 else 3) if big else 2
        if c == "TxT":
            top = 1
        out += [(c, ks) for ks in itertools.product(range(top + 1), repeat=m)]
    for c in ("(IxI)xI", "Ix(IxI)", "(TxI)xI"):
        out += [(c, k) for k in range(3)]
    for cname in ("T", "S", "Q", "IxI", "TxI"):
        g = "DG(%s, %%d)" % cname if cname in "TS" else "DPC(Q, %d)" if cname == "Q" else "TP(DG(%s, %%d), DG(I, 0))" % cname[0]
        t = ["Trace(%s, %d)" % (cname, j) for j in (0, 1)]
        for parts in (t, t[::-1], [t[1], t[1]]):
            out.append(("Enr", cname, tuple(parts)))
        for parts in ([g % 0, t[0]], [t[1], g % 1, t[0]], [g % 1, g % 0, t[1]]):
            out.append(("Mixed", cname, tuple(parts)))
        out += [("Dis", cname, (t[1],)), ("Dis", cname, (t[0],))]
    out += [("(IxI)xI", ((1, 2), 0)), ("(IxI)xI", ((0, 1), 2)), ("Ix(IxI)", (1, (0, 2))), ("(IxI)xI", (1, 2))]
    return out


def cost(c):
    if c[0] in COMBINED:
        return 9
    k = c[1]
    return 1 + cells.cell(c[0]).sd ** 2 * (k if isinstance(k, int) else max(k) if all(isinstance(x, int) for x in k) else 2)


def split(c, k):
    """degree per simplex factor"""
    if isinstance(k, int):
        return (k,) * len(c.dims)
    out = ()
    for s, d in zip(c.subs, k):
        out += split(s, d)
    return out


def lattice(d, k):
    """the nodes of a discontinuous Lagrange simplex of degree k, any order (UFC shape)"""
    return cells.simplex_lattice(d, k) if k else np.full((1, d), 1.0 / (d + 1))


_el = {}


def setup(cname, k):
    if (cname, k) not in _el:
        _el.clear()
        c = cells.cell(cname)
        el = HDivTrace(fiat_cell(cname), k)
        _el[(cname, k)] = (c, el, split(c, k))
    return _el[(cname, k)]


def facet_model(ctx, c, el, ks, facet):
    """(dofs, inverse Vandermonde, space on the UFC shape) with nodes from the published dofs"""
    dims = c.entity_dims(*facet)
    dk = tuple(k for k, d in zip(ks, dims))
    A, b, S, s = c.ref_transform(*facet)
    AU, bU = c.transform(*facet)
    dofs = [int(i) for i in el.entity_dofs()[facet[0]][facet[1]]]
    nodes = el.dual_basis()
    pin = np.linalg.pinv(AU)
    X = []
    for i in dofs:
        (p, terms), = nodes[i].get_point_dict().items()
        ctx.eq([(float(w), tuple(q)) for w, q in terms], [(1.0, ())], "dof-is-not-a-point-value")
        x = pin @ (np.asarray(p, float) - bU)
        ctx.close(AU @ x + bU, np.asarray(p, float), "node-off-facet", tol=1e-10)
        X.append(x)
    X = np.array(X).reshape(len(dofs), sum(dims))
    # nodes are exactly the product lattice
    want = np.array([np.concatenate(t) for t in itertools.product(*[lattice(d, k) for d, k in zip(dims, dk)])]).reshape(-1, sum(dims))
    ctx.eq(sorted(map(tuple, np.round(X, 9) + 0.0)), sorted(map(tuple, np.round(want, 9) + 0.0)), "facet-nodes", facet)
    sp = poly.Space(dims, dk, np.full(sum(dims), 0.4), 0.7)
    V = sp.V(X)
    return dofs, np.linalg.inv(V), sp, (A, b, S, s), X


def nan_or_error(v):
    return isinstance(v, Exception) or bool(np.all(np.isnan(np.asarray(v, float))))


COMBINED = ("Enr", "Mixed", "Dis")


def combined(cfg, ctx):
    """traces as parts of other elements, on facets"""
    kind, cname, exprs = cfg
    c = cells.cell(cname)
    parts = [h.element(e) for e in exprs]
    el = h.element("%s(%s)" % (kind, "[%s]" % ", ".join(exprs) if kind == "Mixed" else ", ".join(exprs)))
    f = ctx.choose("facet", c.entities(1))
    dims = c.entity_dims(*f)
    U = [tuple(p) for p in cells.ref_points(dims, 2, "generic")]
    zero = (0,) * c.sd
    got = np.asarray(el.tabulate(0, U, f)[zero])
    tabs = [np.asarray(p.tabulate(0, U, f)[zero]) for p in parts]
    ctx.step(1 + len(parts))
    if kind == "Mixed":
        tabs = [np.stack([t if i == j else 0 * t for j in range(len(parts))], axis=1) for i, t in enumerate(tabs)]
    ctx.close(got, np.concatenate(tabs), "table-of-the-combination", f, tol=1e-12)
    ed, off = el.entity_dofs(), 0
    want = []
    for p in parts:
        want += [off + i for i in p.entity_dofs()[f[0]][f[1]]]
        off += p.space_dimension()
    if kind == "Dis":
        ctx.eq(list(ed[f[0]][f[1]]), [], "dofs-on-facets")
        ctx.eq(list(ed[c.top][0]), list(range(off)), "dofs-of-the-cell")
    else:
        ctx.eq(list(ed[f[0]][f[1]]), want, "dofs-of-the-facet", f)
    ctx.observe(got)


def run(cfg, ctx):
    if cfg[0] in COMBINED:
        return combined(cfg, ctx)
    cname, k = cfg
    c, el, ks = setup(cname, k)
    ed = el.entity_dofs()
    facets = c.entities(1)
    view = ctx.choose("view", ["layout", "facet", "other entity", "no entity"])
    order = 0 if view == "layout" else ctx.choose("order", [0, 1, 2])
    keys = sorted(a for o in range(order + 1) for a in poly.alphas(c.sd, o))
    zero = (0,) * c.sd
    n = el.space_dimension()
    if view == "layout":
        for key in c.entities():
            if key not in facets:
                ctx.eq(list(ed[key[0]][key[1]]), [], "dofs-off-facets", key)
        ctx.eq(sorted(int(i) for f in facets for i in ed[f[0]][f[1]]), list(range(n)), "partition")
        # the same order of nodes, in facet coordinates, on all facets of the same shape
        seen = {}
        for f in facets:
            dofs, Vi, sp, T, X = facet_model(ctx, c, el, ks, f)
            first = seen.setdefault((f[0], c.entity_dims(*f)), X)
            ctx.close(X, first, "node-order-differs-between-facets", f)
        ctx.eq(el.value_shape(), (), "value-shape")
        ctx.ok(all(m == "affine" for m in el.mapping()), "mapping")
        ctx.eq(el.get_formdegree(), c.sd - 1, "form-degree")
        ctx.eq(el.degree(), max([k for f in facets for k, d in zip(ks, c.entity_dims(*f)) if d]), "degree")
        ctx.step()
        return
    if view == "facet":
        f = ctx.choose("facet", facets)
        kind = ctx.choose("points", ["generic", "lattice", "one"])
        dofs, Vi, sp, (A, b, S, s), X = facet_model(ctx, c, el, ks, f)
        dims = c.entity_dims(*f)
        U = cells.ref_points(dims, 2, "generic" if kind != "lattice" else "lattice")
        if kind == "one":
            U = U[-1:]
        got = el.tabulate(order, [tuple(p) for p in U @ S.T + s], f)
        ctx.step()
        ctx.eq(sorted(got), keys, "keys")
        want = np.zeros((n, len(U)))
        want[dofs] = (sp.V(U) @ Vi).T
        ctx.close(got[zero], want, "facet-values", f, tol=1e-9)
        for a in keys[1:] if keys[0] == zero else [a for a in keys if a != zero]:
            ctx.ok(nan_or_error(got[a]), "derivative-is-a-number", lambda: repr(a))
        ctx.observe(got[zero])
    elif view == "other entity":
        e = ctx.choose("entity", [x for x in c.entities() if x not in facets])
        dims = c.entity_dims(*e)
        A, b, S, s = c.ref_transform(*e)
        U = cells.ref_points(dims, 1, "generic") @ S.T + s
        got = el.tabulate(order, [tuple(p) for p in U], e)
        ctx.step()
        ctx.eq(sorted(got), keys, "keys")
        for a in keys:
            ctx.ok(nan_or_error(got[a]), "number-off-facets", lambda: "%s %s" % (e, a))
    else:
        if cname not in SIMP:
            try:
                got = el.tabulate(order, [tuple(p) for p in cells.to_cell(c, cells.ref_points(c.dims, 1, "generic"))])
            except NotImplementedError:
                ctx.step()
                return
            ctx.ok(all(nan_or_error(v) for v in got.values()), "number-off-facets")
            return
        where = ctx.choose("where", ["facet", "facet with vertex", "facet off 1e-13", "facet off 1e-7", "two facets", "vertex", "inside",
                                     "outside", "facet and inside"] + (["shared edge"] if c.sd == 3 else []))
        f = ctx.choose("facet", facets)
        A, b = c.transform(*f)
        dims = c.entity_dims(*f)
        U = cells.ref_points(dims, 2, "generic")
        vs = c.topo[f[0]][f[1]]
        opposite, = [v for v in range(c.sd + 1) if v not in vs]
        inward = c.verts[opposite] - (A @ np.full(c.sd - 1, .2) + b)
        good = where in ("facet", "facet with vertex", "facet off 1e-13")
        if where == "facet with vertex":
            U = np.vstack([U, cells.ref_points(dims, 1, "lattice")])
        P = U @ A.T + b
        if "1e-13" in where:
            P = P + 1e-13 * inward
        elif "1e-7" in where:
            P = P + 1e-7 * inward
        elif where == "two facets":
            g = facets[(f[1] + 1) % len(facets)]
            B, d = c.transform(*g)
            P = np.vstack([P, U @ B.T + d])
        elif where == "vertex":
            P = c.verts[[vs[0]]]
        elif where == "inside":
            P = P + 0.3 * inward
        elif where == "outside":
            P = P - 0.3 * inward
        elif where == "facet and inside":
            P = np.vstack([P[:2], P[2:] + .1 * inward])
        elif where == "shared edge":
            P = np.array([c.verts[vs[0]] * t + c.verts[vs[1]] * (1 - t) for t in (.2, .5)])
        got = el.tabulate(order, [tuple(p) for p in P])
        ctx.step()
        ctx.eq(sorted(got), keys, "keys")
        if good:
            dofs, Vi, sp, T, X = facet_model(ctx, c, el, ks, f)
            want = np.zeros((n, len(U)))
            want[dofs] = (sp.V(U) @ Vi).T
            ctx.close(got[zero], want, "values-without-entity", f, tol=1e-9)
            for a in keys:
                if a != zero:
                    ctx.ok(nan_or_error(got[a]), "derivative-is-a-number", lambda: repr(a))
            ctx.observe(got[zero])
        else:
            for a in keys:
                ctx.ok(nan_or_error(got[a]), "number-off-facets", lambda: "%s %s" % (where, a))
