"""Tables do not depend on the representation, batching or order of the points."""
import itertools

import numpy as np

from .. import h, catalog, cells

BOUNDS = {"quick": "every element of the catalogue with moderate construction cost; derivative orders 0..2; on the cell, the cell as its own entity, a "
                   "facet and a vertex; 3 generic points: every permutation, every pair with repetition, all prefixes; 12 representations (lists, tuples, "
                   "nested mixtures, C/Fortran/strided/read-only arrays, scalars of numpy type); all cell vertices with integer, numpy integer, "
                   "boolean-free mixed coordinates; integer points before, between and after generic ones in 4 representations; generic points and vertices mixed in 3 orders and batches of 33, 300 and 2100 points",
          "thorough": "all elements of the thorough catalogue, orders 0..3, 4 points: every permutation and every triple with repetition"}
ASSUMPTIONS = ["points are an indexable sequence of coordinate sequences"]
LIMIT_S = 400


def configs(tier):
    return list(catalog.everything(tier)) if tier == "thorough" else [
        e.expr for e in catalog.everything(tier).values() if e.cost < 6 and not slow(e)]


def slow(e):
    return (e.family == "Ser" and (e.cell == "H" and e.degree > 1 or e.degree > 3)) or (e.family == "Bernstein" and e.degree > 3)


def cost(c):
    e = catalog.lookup(c)
    return e.cost * (4 if e.family in ("Ser", "Bernstein") else 1)


REPS = {
    "list of tuples": lambda P: [tuple(p) for p in P],
    "list of lists": lambda P: [list(p) for p in P],
    "tuple of tuples": lambda P: tuple(tuple(p) for p in P),
    "tuple of lists": lambda P: tuple(list(p) for p in P),
    "list of arrays": lambda P: [np.array(p, dtype=float) for p in P],
    "tuple of numpy scalars": lambda P: tuple(tuple(np.float64(x) for x in p) for p in P),
    "array": lambda P: np.array(P, dtype=float),
    "fortran array": lambda P: np.asfortranarray(np.array(P, dtype=float)),
    "strided array": lambda P: np.repeat(np.repeat(np.array(P, dtype=float), 2, axis=0), 3, axis=1)[::2, ::3],
    "reversed view": lambda P: np.array(P, dtype=float)[::-1].copy()[::-1],
    "read-only array": lambda P: _ro(P),
    "mixed": lambda P: [tuple(p) if i % 2 else np.array(p, dtype=float) for i, p in enumerate(P)],
}
INT = {
    "int tuples": lambda P: [tuple(int(x) for x in p) for p in P],
    "int lists": lambda P: [[int(x) for x in p] for p in P],
    "int array": lambda P: np.array(P).astype(int),
    "int32 array": lambda P: np.array(P).astype(np.int32),
    "numpy ints": lambda P: [tuple(np.int64(x) for x in p) for p in P],
    "first point int": lambda P: [tuple(int(x) for x in P[0])] + [tuple(float(x) for x in p) for p in P[1:]],
    "last point int": lambda P: [tuple(float(x) for x in p) for p in P[:-1]] + [tuple(int(x) for x in P[-1])],
    "first coordinate int": lambda P: [(int(p[0]),) + tuple(float(x) for x in p[1:]) for p in P],
}


def _ro(P):
    a = np.array(P, dtype=float)
    a.setflags(write=False)
    return a


def tab(el, order, pts, ent):
    return el.tabulate(order, pts) if ent is None else el.tabulate(order, pts, ent)


_ref = {}


def single(expr, el, order, P, ent):
    """tables at each point alone"""
    k = (expr, order, ent, tuple(P))
    if k not in _ref:
        if len(_ref) > 40:
            _ref.clear()
        _ref[k] = [tab(el, order, [p], ent) for p in P]
    return _ref[k]


def same(ctx, got, ref, idx, key, msg, prefix=()):
    ctx.eq(sorted(got), sorted(ref[0]), key + "-keys", msg)
    for a in got:
        t = np.asarray(got[a], float)
        want = np.stack([np.asarray(ref[i][a], float)[..., 0] for i in idx], axis=-1)
        ctx.close(t, want, key, "%s %s" % (msg, a), tol=1e-11, scale=max(1.0, float(np.max(np.abs(want))) if want.size else 1.0))


def run(expr, ctx):
    e = catalog.lookup(expr)
    c = cells.cell(e.cell)
    el = h.element(expr)
    top = 2 if ctx.tier == "quick" else 3
    if e.family in ("Ser", "Bernstein") and ctx.tier == "quick":
        top = 1
    where = ctx.choose("entity", ["none", "cell", "facet", "vertex"] if c.sd > 1 else ["none", "cell", "vertex"])
    order = ctx.choose("order", list(range(top + 1)))
    npts = 3 if ctx.tier == "quick" else 4
    if where in ("none", "cell"):
        ent = None if where == "none" else (c.top, 0)
        dims = c.dims
        P = cells.to_cell(c, np.array([[.21, .13, .17, .41], [.05, .62, .3, .19], [.4, .3, .11, .26], [.33, .07, .57, .08]])[:npts, :c.sd])
        V = c.verts
    else:
        cod = 1 if where == "facet" else c.sd
        k = c.entities(cod)[-1]
        ent = k
        dims = c.entity_dims(*k)
        n = sum(dims)
        A, b, S, t = c.ref_transform(*k)
        P = np.array([[.21, .13, .33], [.05, .62, .12], [.4, .3, .07], [.33, .07, .24]])[:npts, :n] @ S.T + t
        V = cells.ref_points(dims, 1, "lattice") @ S.T + t
    if where == "vertex":
        for kk in (1, 3):
            ref = tab(el, order, [()], ent)
            got = tab(el, order, [()] * kk, ent)
            ctx.step(2)
            same(ctx, got, [ref], [0] * kk, "vertex-batch", "%d points" % kk)
        return
    P = [tuple(float(x) for x in p) for p in P]
    V = [tuple(float(round(x)) for x in p) for p in V]
    op = ctx.choose("vary", ["permutation", "repetition", "prefix", "representation", "integers", "integers and generic", "batch"])
    if op == "batch":
        # generic points and vertices in one request, singular points first / last / interleaved, and large requests
        Q = P + V
        n = len(Q)
        ref = single(expr, el, order, Q, ent)
        idx = ctx.choose("batch", [list(range(n)), list(range(n))[::-1], list(range(0, n, 2)) + list(range(1, n, 2)),
                                   [i % n for i in range(33)],
                                   [(5 * i + i // 7) % n for i in range(70 if e.family in ("Ser", "Bernstein") else 300)]]
                         + [[(5 * i + i // 7) % n for i in range(2100)]] * (order == 0 and where in ("none", "facet") and e.degree in (0, 1, 2)))
        pts = [Q[i] for i in idx]
        ctx.values[-1] = "batch of %d points" % len(idx)
    elif op == "integers":
        ref = single(expr, el, order, V, ent)
        rep = ctx.choose("type", list(INT))
        pts = INT[rep](V)
        idx = list(range(len(V)))
    elif op == "integers and generic":
        # points with integer coordinates before, between and after points that have none
        at = ctx.choose("integer points", ["first", "middle", "last", "first and last"])
        rep = ctx.choose("type", ["int tuples", "numpy ints", "int lists", "list of int arrays"])
        conv = INT.get(rep, lambda A: [np.array(p).astype(int) for p in A])
        I = [next((i for i, p in enumerate(V) if any(p)), 0)]
        ref = single(expr, el, order, V, ent) + single(expr, el, order, P, ent)
        G = [len(V) + i for i in range(npts)]
        idx = {"first": I + G, "middle": G[:1] + I + G[1:], "last": G + I, "first and last": I + G + I}[at]
        ints = dict(zip(I, conv([V[i] for i in I])))
        flt = (lambda p: np.array(p)) if rep == "list of int arrays" else list if rep == "int lists" else tuple
        pts = [ints[i] if i in ints else flt(P[i - len(V)]) for i in idx]
    else:
        ref = single(expr, el, order, P, ent)
        idx = list(range(npts))
        if op == "permutation":
            idx = list(ctx.choose("order of points", list(itertools.permutations(range(npts)))))
        elif op == "repetition":
            idx = list(ctx.choose("points", list(itertools.product(range(npts), repeat=npts - 1))))
        elif op == "prefix":
            idx = list(range(ctx.choose("count", list(range(1, npts + 1)))))
        pts = [P[i] for i in idx]
        if op == "representation":
            pts = REPS[ctx.choose("container", list(REPS))](pts)
    ctx.step(len(ref) + 1)
    got = tab(el, order, pts, ent)
    same(ctx, got, ref, idx, "%s" % op, "order %d on %s" % (order, where))
    ctx.observe(*[np.asarray(v, float) for v in got.values()])
