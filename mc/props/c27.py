"""Spectral 1-D elements: nodes, quadrature exactness and Lagrange bases."""
import itertools

import numpy as np

from .. import cells
from ..catalog import fiat_cell
import FIAT
from FIAT import quadrature
from FIAT.barycentric_interpolation import barycentric_interpolation

BOUNDS = {"quick": "Gauss-Legendre, Gauss-Lobatto-Legendre, Gauss-Radau elements of degree 0/1..20 on the UFC and default interval; orders 0..3; points: "
                   "nodes, nodes +- 1e-15 .. 1e-3, midpoints, generic, end points, exterior; rules with 1..24 points; barycentric interpolation on all "
                   "orderings of four-node sets and on equispaced/clustered (1..12 nodes) and graded (1..7) node sets",
          "thorough": "degrees up to 40 (Gauss-Radau 22: its derivatives go through differentiation matrices that lose digits), orders 0..5, rules with 1..80 points, all orderings of five-node sets"}
ASSUMPTIONS = ["numpy long double products of node differences as reference for the Lagrange polynomials"]
LIMIT_S = 120
OFF = (1e-15, 1e-13, 1e-11, 1e-9, 3e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-3)
LD = np.longdouble


def configs(tier):
    big = tier == "thorough"
    out = []
    for c in ("I", "DI"):
        for f in ("GL", "GLL", "GR"):
            out += [("element", f, c, k) for k in range(1 if f == "GLL" else 0, ((23 if f == "GR" else 41) if big else 21) if c == "I" else 9)]
        for r in ("GL", "GLL", "Radau right", "Radau left", "GJ"):
            out += [("rule", r, c, m) for m in range(2 if r == "GLL" else 1, (81 if big else 25))]
    out += [("bary", "orderings", "", n) for n in ((2, 3, 4, 5) if big else (2, 3, 4))]
    out += [("bary", g, "", n) for g in ("equispaced", "graded", "clustered") for n in range(1, 8 if g == "graded" else 13 if not big else 17)]
    return out


def cost(c):
    return c[3]


def lagrange(nodes, pts, order):
    """exact-arithmetic-like tables of the Lagrange basis and its derivatives"""
    x = np.asarray(nodes, LD)
    y = np.asarray(pts, LD)
    n = len(x)
    out = np.zeros((order + 1, n, len(y)), LD)
    fact = np.cumprod([LD(1)] + [LD(i) for i in range(1, order + 1)])
    for i in range(n):
        T = np.zeros((order + 1, len(y)), LD)
        T[0] = 1
        for j in range(n):
            if j != i:
                d = (y - x[j]) / (x[i] - x[j])
                U = T * d
                U[1:] += T[:-1] / (x[i] - x[j])
                T = U
        for k in range(order + 1):
            out[k, i] = T[k] * fact[k]
    return out.astype(float)


def compare(ctx, got, nodes, pts, order, key, tol=1e-9):
    ctx.eq(sorted(got), [(k,) for k in range(order + 1)], "keys")
    want = lagrange(nodes, pts, order)
    for k in range(order + 1):
        ctx.close(got[(k,)], want[k], key, "derivative %d" % k, tol=tol)
    ctx.observe(got[(order,)])


def legendre(m, x):
    p, q = np.ones_like(x), x
    if m == 0:
        return p, np.zeros_like(x)
    for k in range(2, m + 1):
        p, q = q, ((2 * k - 1) * x * q - (k - 1) * p) / k
    return q, p


def node_residual(kind, m, t):
    """the polynomial whose roots the points t in [-1, 1] are, at t (relative to its derivative's size)"""
    x = np.asarray(t, LD)
    pm, pm1 = legendre(m, x)
    if kind in ("GL", "GJ"):
        return pm
    if kind == "GLL":
        a, b = legendre(m - 1, x)
        return (b - x * a) if m > 1 else x      # (1 - x^2) P'_{m-1} / (m - 1)
    if kind == "Radau right":
        return pm - pm1
    return pm + pm1


RULES = {"GL": lambda T, m: quadrature.GaussLegendreQuadratureLineRule(T, m),
         "GLL": lambda T, m: quadrature.GaussLobattoLegendreQuadratureLineRule(T, m),
         "GJ": lambda T, m: quadrature.GaussJacobiQuadratureLineRule(T, m),
         "Radau right": lambda T, m: quadrature.RadauQuadratureLineRule(T, m),
         "Radau left": lambda T, m: quadrature.RadauQuadratureLineRule(T, m, False)}


def check_points(ctx, kind, m, x, lo, hi):
    ctx.eq(len(x), m, "number-of-points")
    t = 2 * (x - lo) / (hi - lo) - 1
    ctx.ok(np.all(np.diff(x) > 1e-14), "not-increasing", lambda: repr(x))
    ctx.ok(t.min() >= -1 - 1e-13 and t.max() <= 1 + 1e-13, "outside")
    left = kind in ("GLL", "Radau left")
    right = kind in ("GLL", "Radau right")
    ctx.eq((abs(t[0] + 1) < 1e-12, abs(t[-1] - 1) < 1e-12), (left, right), "end-points")
    r = node_residual(kind, m, t).astype(float)
    s = np.max(np.abs(node_residual(kind, m, np.clip(t + 1e-6, -1, 1)).astype(float) - r)) / 1e-6 if m > 1 else 1.0
    ctx.ok(np.max(np.abs(r)) < 1e-12 * max(1.0, s), "not-the-gauss-points", lambda: "%s %d residual %g" % (kind, m, np.max(np.abs(r))))


def run(cfg, ctx):
    what, f, cname, k = cfg
    if what == "bary":
        return bary(ctx, f, k)
    c = cells.cell(cname)
    lo, hi = c.verts[0, 0], c.verts[1, 0]
    if what == "rule":
        q = RULES[f](fiat_cell(cname), k)
        ctx.step()
        x = np.array(q.get_points(), float).reshape(-1)
        w = np.array(q.get_weights(), float)
        check_points(ctx, f, k, x, lo, hi)
        ctx.eq(w.shape, x.shape, "weights")
        ctx.ok(w.min() > 0, "weight-not-positive")
        top = {"GL": 2 * k - 1, "GJ": 2 * k - 1, "GLL": 2 * k - 3}.get(f, 2 * k - 2)
        t = (2 * (x - lo) / (hi - lo) - 1).astype(LD)
        for d in range(top + 1):
            v = legendre(d, t)[0]
            ctx.close(float(np.sum(w * v)), (hi - lo) if d == 0 else 0.0, "not-exact", "Legendre polynomial %d" % d, tol=1e-11)
        ctx.observe(x, w)
        return
    fam = {"GL": FIAT.GaussLegendre, "GLL": FIAT.GaussLobattoLegendre, "GR": FIAT.GaussRadau}[f]
    el = fam(fiat_cell(cname), k)
    nodes = []
    for g in el.dual_basis():
        (p, t), = g.get_point_dict().items()
        ctx.eq(([(float(a), tuple(b)) for a, b in t], dict(g.deriv_dict)), ([(1.0, ())], {}), "dof-not-a-point-value")
        nodes.append(float(p[0]))
    x = np.array(nodes)
    rule = {"GL": "GL", "GLL": "GLL", "GR": "Radau right"}[f]
    view = ctx.choose("view", ["nodes", "tables", "entities"])
    if view == "nodes":
        check_points(ctx, rule, k + 1, x, lo, hi)
        ctx.close(x, np.array(RULES[rule](fiat_cell(cname), k + 1).get_points(), float).reshape(-1), "not-the-rule's-points", tol=1e-13)
        ed = {d: {e: [int(i) for i in v] for e, v in m.items()} for d, m in el.entity_dofs().items()}
        want = {0: {0: [0], 1: [k]}, 1: {0: list(range(1, k))}} if f == "GLL" else {0: {0: [], 1: []}, 1: {0: list(range(k + 1))}}
        ctx.eq(ed, want, "entity-dofs")
        ctx.eq((el.degree(), el.value_shape(), el.space_dimension(), el.get_formdegree()), (k, (), k + 1, 0 if f == "GLL" else 1), "metadata")
        ctx.step()
        ctx.observe(x)
        return
    top = min(3 if ctx.tier == "quick" else 5, k + 1)
    order = ctx.choose("order", list(range(top + 1)))
    # the ON basis route of Gauss-Radau loses digits with the degree
    tol = 1e-9 if f != "GR" else 1e-8
    if view == "entities":
        e = ctx.choose("entity", [(0, 0), (0, 1), (1, 0)])
        if e[0] == 0:
            pts, at = [()], [c.verts[e[1], 0]]
        else:
            at = [lo + s * (hi - lo) for s in (.17, .5, .93)]
            pts = [(a,) for a in at]
        got = el.tabulate(order, pts, e)
        ctx.step()
        compare(ctx, got, x, at, order, "table-on-entity", tol)
        return
    kind = ctx.choose("points", ["nodes", "near nodes", "midpoints", "generic", "end points", "outside", "all", "single nodes"])
    h = hi - lo
    near = np.concatenate([[a + o * h, a - o * h] for a in x for o in OFF])
    P = {"nodes": x, "near nodes": near, "midpoints": (x[1:] + x[:-1]) / 2 if k else x,
         "generic": lo + h * np.array([.013, .21, .3771, .5, .618, .8, .987]), "end points": np.array([lo, hi]),
         "outside": np.array([lo - .03 * h, hi + .02 * h])}
    P["all"] = np.concatenate([P["generic"], x[::-1], near, P["end points"]])
    if kind == "single nodes":
        i = ctx.choose("node", list(range(k + 1)))
        pts = x[i:i + 1]
    else:
        pts = P[kind]
    got = el.tabulate(order, [(float(p),) for p in pts])
    ctx.step()
    compare(ctx, got, x, pts, order, "table", tol)


def bary(ctx, kind, n):
    if kind == "orderings":
        base = np.array([-.9, -.2, .35, .8, .95])[:n]
        x = base[list(ctx.choose("ordering", list(itertools.permutations(range(n)))))]
    elif kind == "equispaced":
        x = np.linspace(-1, 1, n) if n > 1 else np.array([.3])
    elif kind == "graded":
        x = np.array([1.5 ** -i for i in range(n)])
    else:
        x = np.array([0.1 * i + (.03 if i % 2 else 0) for i in range(n)])
    order = ctx.choose("order", [0, 1, 2, 3])
    where = ctx.choose("points", ["generic", "nodes", "near", "mixed"])
    lo, hi = x.min(), x.max()
    y = {"generic": lo + (hi - lo + .1) * np.array([.07, .31, .52, .77, .91]), "nodes": x, "near": np.concatenate([x + o for o in (1e-13, -1e-9, 1e-7)])}
    y["mixed"] = np.concatenate([y["generic"][:2], x, y["near"][:2], y["generic"][2:]])
    x0, y0 = x.copy(), y[where].copy()
    got = barycentric_interpolation(x, y[where], order)
    ctx.step()
    ctx.ok(np.array_equal(x, x0) and np.array_equal(y[where], y0), "arguments-modified")
    compare(ctx, got, x, y[where], order, "barycentric", 1e-9)
