"""Bernstein elements against the closed form of the Bernstein polynomials."""
import itertools
import math

import numpy as np

from .. import h, cells, poly
from ..catalog import fiat_cell
import FIAT

BOUNDS = {"quick": "UFC, default and Intrepid simplices; interval degrees 1..12, triangle 1..8, tetrahedron 1..6 (4 on the other conventions); derivative "
                   "orders 0..min(degree+1, 4, 3 on tetrahedra); generic interior, lattice (vertices, edges, faces) and exterior points; every entity",
          "thorough": "interval degrees 1..20, triangle 1..14, tetrahedron 1..9 (8, 6 on the other conventions); orders 0..min(degree+1, 6, 4 on tetrahedra)"}
LIMIT_S = 600


def configs(tier):
    big = tier == "thorough"
    out = []
    for c, q, t in (("I", 12, 20), ("T", 8, 14), ("S", 6, 9), ("DI", 6, 10), ("DT", 4, 8), ("NT", 4, 8), ("DS", 4, 6), ("NS", 4, 6)):
        for k in range(1, (t if big else q) + 1):
            out.append((c, k))
    return out


def cost(c):
    return c[1] ** (cells.cell(c[0]).sd + 1)


def lam(c):
    """barycentric coordinates: gradients (n+1, sd) and constants"""
    V = np.hstack([c.verts, np.ones((c.sd + 1, 1))])
    W = np.linalg.inv(V)
    return W[:-1].T, W[-1]


def bern(ks, L):
    v = float(math.factorial(sum(ks)))
    for k in ks:
        v /= math.factorial(k)
    return v * np.prod(L ** np.array(ks), axis=1)


def dbern(ks, alpha, g):
    """derivative as a combination {multi-index: weight} of lower Bernstein polynomials"""
    terms = {tuple(ks): 1.0}
    for d, m in enumerate(alpha):
        for _ in range(m):
            new = {}
            for t, w in terms.items():
                for i, ti in enumerate(t):
                    if ti and g[i, d]:
                        u = t[:i] + (ti - 1,) + t[i + 1:]
                        new[u] = new.get(u, 0.0) + w * sum(t) * g[i, d]
            terms = new
    return terms


_el = {}


def setup(cname, k):
    if (cname, k) not in _el:
        c = cells.cell(cname)
        el = FIAT.Bernstein(fiat_cell(cname), k)
        g, b = lam(c)
        ks = [t for t in itertools.product(range(k + 1), repeat=c.sd + 1) if sum(t) == k]
        pts = cells.to_cell(c, cells.ref_points(c.dims, k + 1, "generic"))
        vals = np.asarray(el.tabulate(0, [tuple(p) for p in pts])[(0,) * c.sd], float)
        want = np.array([bern(t, pts @ g.T + b) for t in ks])
        _el.clear()
        _el[(cname, k)] = (c, el, g, b, ks, vals, want)
    return _el[(cname, k)]


def identify(ctx, cname, k):
    c, el, g, b, ks, vals, want = setup(cname, k)
    ctx.eq(vals.shape, want.shape, "shape")
    D = np.max(np.abs(vals[:, None, :] - want[None]), axis=2)
    own = np.argmin(D, axis=1)
    ctx.ok(np.all(D[np.arange(len(D)), own] < 1e-10), "not-a-bernstein-polynomial",
           lambda: "function %d is no Bernstein polynomial" % int(np.argmax(np.min(D, axis=1))))
    ctx.eq(sorted(own.tolist()), list(range(len(ks))), "not-all-bernstein-polynomials")
    return c, el, g, b, [ks[i] for i in own]


def table(ctx, el, g, b, ks, c, order, pts, ent, ref=None):
    got = el.tabulate(order, [tuple(p) for p in (pts if ref is None else ref)], *([] if ent is None else [ent]))
    ctx.step()
    ctx.eq(sorted(got), sorted(a for o in range(order + 1) for a in poly.alphas(c.sd, o)), "keys")
    L = np.asarray(pts) @ g.T + b
    cache = {}
    for a in got:
        want = np.zeros((len(ks), len(pts)))
        for i, t in enumerate(ks):
            for u, w in dbern(t, a, g).items():
                if u not in cache:
                    cache[u] = bern(u, L)
                want[i] += w * cache[u]
        ctx.close(got[a], want, "table", "derivative %s on %s" % (a, ent), tol=1e-10)
    ctx.observe(*[np.asarray(v, float) for v in got.values()])
    return got


def run(cfg, ctx):
    cname, k = cfg
    c, el, g, b, ks = identify(ctx, cname, k)
    top = min(k + 1, {1: 4, 2: 4, 3: 3}[c.sd] if ctx.tier == "quick" else {1: 6, 2: 6, 3: 4}[c.sd])
    view = ctx.choose("view", ["cell", "entity", "structure"])
    if view == "cell":
        order = ctx.choose("order", list(range(top + 1)))
        kind = ctx.choose("points", ["generic", "lattice", "outside"])
        if kind == "outside":
            pts = cells.to_cell(c, np.array([[1.3, .4, -.2], [-.4, .2, .5], [.7, -.6, .9]])[:, :c.sd])
        else:
            pts = cells.to_cell(c, cells.ref_points(c.dims, min(k, 4), kind))
        got = table(ctx, el, g, b, ks, c, order, pts, ctx.choose("as", [None, (c.sd, 0)]))
        if order == 0:
            v = np.asarray(got[(0,) * c.sd], float)
            ctx.close(v.sum(axis=0), np.ones(len(pts)), "partition-of-unity", tol=1e-11)
            if kind != "outside":
                ctx.ok(v.min() >= -1e-13, "negative", lambda: "%g" % v.min())
    elif view == "entity":
        ent = ctx.choose("entity", c.entities())
        order = ctx.choose("order", list(range(min(top, 2) + 1)))
        dims = c.entity_dims(*ent)
        A, t, S, s = c.ref_transform(*ent)
        ref = cells.ref_points(dims, 2, ctx.choose("points", ["generic", "lattice"])) @ S.T + s
        table(ctx, el, g, b, ks, c, order, ref @ A.T + t, ent, ref)
    else:
        ctx.eq(el.degree(), k, "degree")
        ctx.eq(el.value_shape(), (), "value-shape")
        ctx.eq(el.space_dimension(), len(ks), "dimension")
        ctx.eq(el.get_formdegree(), 0, "form-degree")
        ed = el.entity_dofs()
        got = {}
        for d in ed:
            for e, dofs in ed[d].items():
                vs = c.topo[d][e]
                for i in dofs:
                    ctx.eq(sorted(v for v, x in enumerate(ks[i]) if x), sorted(vs), "entity", "dof %d" % i)
                    got[i] = got.get(i, 0) + 1
                # numbering along the entity: the same for all entities of this dimension
                mine = [tuple(ks[i][v] for v in vs) for i in dofs]
                first = [tuple(ks[i][v] for v in c.topo[d][min(ed[d])]) for i in ed[d][min(ed[d])]]
                ctx.eq(mine, first, "numbering-on-entity", (d, e))
        ctx.eq(got, {i: 1 for i in range(len(ks))}, "each-dof-once")
        ctx.step()
        ctx.observe(repr(sorted((d, e, tuple(map(int, v))) for d in ed for e, v in ed[d].items())))
