"""compute_pointwise_dual over elements and point sets."""
import itertools

import numpy as np

from .. import h, catalog, cells, poly
from FIAT.pointwise_dual import compute_pointwise_dual
from FIAT.dual_set import DualSet

BOUNDS = {"quick": "every element of the catalogue whose functions are determined by point values of all components (scalar elements, full vector "
                   "spaces), degree-limited; point sets: unisolvent subsets of a generic cloud and of the closed lattice (vertices, edges), their reversal, "
                   "permutations of three, every single-point replacement by a neighbour that makes the set dependent, collinear sets, wrong counts",
          "thorough": "every element of the thorough catalogue"}
ASSUMPTIONS = ["the point sets called unisolvent have condition number below 1e7, those called dependent have numerical rank deficiency"]
LIMIT_S = 400


def configs(tier):
    return [e.expr for e in catalog.everything(tier).values()
            if (tier == "thorough" or e.cost < 3) and not (e.family == "Ser" and (e.cell == "H" or e.degree > 3) and tier == "quick")]


def cost(c):
    return catalog.lookup(c).cost


def pivots(V, m):
    """greedy choice of m columns (QR with column pivoting)"""
    V = V.copy()
    out = []
    for _ in range(min(m, V.shape[1])):
        s = np.linalg.norm(V, axis=0)
        j = int(np.argmax(s))
        if s[j] < 1e-9:
            break
        out.append(j)
        q = V[:, j] / s[j]
        V -= np.outer(q, q @ V)
        V -= np.outer(q, q @ V)
    return out


_setup = {}


def setup(expr, e, c, el):
    if expr not in _setup:
        _setup.clear()
        n, nc = el.space_dimension(), int(np.prod(el.value_shape()))
        C, res = h.primal(e, el)
        out = {}
        if n % nc == 0:
            m = n // nc
            for kind in ("generic", "lattice"):
                kk = [k + 1 for k in h.sp(e).ks] if kind == "lattice" else [k + 2 for k in h.sp(e).ks]
                cand = cells.to_cell(c, cells.ref_points(c.dims, kk, kind))
                V = (C @ h.sp(e).V(cand).T)              # (n, nc, npts)
                P = cand[pivots(V.reshape(n * nc, -1), m)]
                if len(P) < m:
                    continue
                M = (C @ h.sp(e).V(P).T).reshape(n, -1)
                if np.linalg.cond(M) < 1e7:
                    out[kind] = P
        _setup[expr] = (C, res, out)
    return _setup[expr]


def run(expr, ctx):
    e = catalog.lookup(expr)
    c = cells.cell(e.cell)
    el = h.element(expr)
    if getattr(el, "is_mixed", False):
        pass
    C, res, sets = setup(expr, e, c, el)
    if not sets or c.sd == 0:
        return
    n, shape = el.space_dimension(), el.value_shape()
    nc = int(np.prod(shape))
    kind = ctx.choose("points", sorted(sets))
    P = sets[kind]
    m = len(P)
    op = ctx.choose("set", ["given", "reversed", "rotated", "as array", "wrong count", "dependent"])
    if op == "wrong count":
        for Q in ([P[:-1]] if m > 1 else []) + [np.vstack([P, P[:1]])]:
            try:
                compute_pointwise_dual(el, [tuple(p) for p in Q])
            except Exception:
                ctx.step()
                continue
            ctx.ok(False, "wrong-number-of-points-accepted", len(Q))
        return
    if op == "dependent":
        how = ctx.choose("how", (["repeat %d" % i for i in range(min(m, 6))] if m > 1 else []) +
                         (["line", "close line"] if c.sd > 1 else []))
        Q = P.copy()
        if how.startswith("repeat"):
            i = int(how.split()[1])
            Q[i] = P[(i + 1) % m]
        else:
            t = np.linspace(.1, .8, m)
            if how == "line":
                Q = c.verts[0] + t[:, None] * (c.verts[1] - c.verts[0])
            else:
                Q = c.verts[0] * .3 + .7 * (c.verts.mean(axis=0)) + .1 * t[:, None] * (c.verts[-1] - c.verts[1])
        M = (C @ h.sp(e).V(Q).T).reshape(n, -1)
        s = np.linalg.svd(M, compute_uv=False)
        if s[-1] > 1e-15 * s[0] * 4:
            return          # (almost) independent, or undecidable in floating point: no claim
        try:
            compute_pointwise_dual(el, [tuple(p) for p in Q])
        except Exception:
            ctx.step()
            ctx.compares += 1
            return
        ctx.ok(False, "dependent-points-accepted", how)
    if op == "reversed":
        P = P[::-1]
    if op == "rotated":
        P = np.roll(P, 1, axis=0)
    dual = compute_pointwise_dual(el, P.copy() if op == "as array" else [tuple(p) for p in P])
    ctx.step()
    ctx.ok(isinstance(dual, DualSet), "not-a-dual-set")
    nodes = dual.get_nodes()
    ctx.eq(len(nodes), n, "number-of-functionals")
    own = set(tuple(p) for p in P)
    for f in nodes:
        ctx.eq(dict(f.deriv_dict), {}, "derivative-part")
        ctx.ok(set(f.get_point_dict()) <= own, "other-points")
        ctx.eq(tuple(f.target_shape), tuple(shape), "target-shape")
    # applied to the model of the basis: identity
    sp = h.sp(e)
    M = np.zeros((n, n))
    mag = 1.0
    for i, f in enumerate(nodes):
        for p, terms in f.get_point_dict().items():
            v = (C @ sp.V([p]).T)[..., 0].reshape((n,) + tuple(shape))
            for w, comp in terms:
                M[i] += w * v[(slice(None),) + tuple(comp)]
                mag = max(mag, abs(w))
    ctx.close(M, np.eye(n), "not-the-identity", tol=1e-7 * max(1.0, mag))
    # through the published forms
    T, mags, k = h.apply_dual(nodes, el.tabulate, c.sd, n, shape)
    ctx.close(T, np.eye(n), "not-the-identity-on-tables", tol=1e-7 * max(1.0, mag))
    got = {d: {i: [int(j) for j in v] for i, v in x.items()} for d, x in dual.get_entity_ids().items()}
    want = {d: {i: [int(j) for j in v] for i, v in x.items()} for d, x in el.entity_dofs().items()}
    ctx.eq(got, want, "entity-association")
    ctx.ok(dual.get_reference_element() is el.get_reference_element() or dual.get_reference_element() == el.get_reference_element(), "cell")
    ctx.observe(M)
