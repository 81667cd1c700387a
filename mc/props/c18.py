"""KMV elements: nodes, weights, exactness and symmetry of the lumped rule."""
import itertools

import numpy as np

from .. import h, cells, poly, catalog
from FIAT.quadrature_schemes import create_quadrature

BOUNDS = {"quick": "every offered degree (triangle 1..5, tetrahedron 1..3); every dof, every point, every permutation of the vertices, every "
                   "product of a basis function with a monomial of degree <= max(k - 2, 0), every monomial up to the documented exactness",
          "thorough": "same (the space is complete)"}
EXACT = {("T", 1): 1, ("T", 2): 3, ("T", 3): 5, ("T", 4): 7, ("T", 5): 10, ("S", 1): 1, ("S", 2): 3, ("S", 3): 5}
NUM = {("T", 1): 3, ("T", 2): 7, ("T", 3): 12, ("T", 4): 18, ("T", 5): 30, ("S", 1): 4, ("S", 2): 15, ("S", 3): 32}


def configs(tier):
    return list(EXACT)


def cost(c):
    return c[1] ** (2 if c[0] == "T" else 4)


def run(cfg, ctx):
    cname, k = cfg
    expr = "KMV(%s, %d)" % cfg
    e = catalog.lookup(expr)
    c = cells.cell(cname)
    el = h.element(expr)
    rule = create_quadrature(catalog.fiat_cell(cname), k, scheme="KMV")
    ctx.step(2)
    P = np.array(rule.get_points(), float)
    w = np.array(rule.get_weights(), float)
    n = NUM[cfg]
    view = ctx.choose("view", ["nodes", "mass", "degree", "lumping", "symmetry", "entities"])
    if view == "nodes":
        ctx.eq((el.space_dimension(), len(P), len(w)), (n, n, n), "number")
        ctx.ok(w.min() > 1e-6, "weight-not-positive", lambda: "%g" % w.min())
        ctx.close(w.sum(), c.volume, "weight-sum", tol=1e-12)
        for i, (f, p) in enumerate(zip(el.dual_basis(), P)):
            d = f.get_point_dict()
            ctx.eq(len(d), 1, "dof-not-a-point-value", i)
            (q, t), = d.items()
            ctx.close(np.array(q, float), p, "node-is-not-the-rule-point", "dof %d" % i, tol=1e-12)
            ctx.eq([(float(a), tuple(b)) for a, b in t], [(1.0, ())], "dof-not-a-point-value", i)
            ctx.ok(c.contains(p, 1e-12), "node-outside", lambda: "%d %s" % (i, p))
        D = np.linalg.norm(P[:, None] - P[None], axis=2) + np.eye(n)
        ctx.ok(D.min() > 1e-3, "nodes-coincide")
    elif view == "mass":
        v = h.tab0(el, [tuple(p) for p in P])[:, 0, :]
        ctx.step()
        M = np.einsum("ip,jp,p->ij", v, v, w)
        ctx.close(M, np.diag(w), "mass-matrix", tol=1e-9)
        ctx.observe(M)
    elif view == "degree":
        d = ctx.choose("degree", list(range(EXACT[cfg] + 1)))
        A, b = c.transform(c.sd, 0)
        for a in poly.exps_total(c.sd, d):
            if sum(a) == d:
                ctx.close(np.sum(w * np.prod(P ** np.array(a), axis=1)), poly.integrate_simplex(a), "not-exact", a, tol=1e-14)
        ctx.observe([d, EXACT[cfg]])
    elif view == "lumping":
        # exactness needed for optimal accuracy: all products of P_{max(k-2,0)} with the element's functions
        C, res = h.primal(e, el)
        sp = h.sp(e)
        ctx.ok(res < 1e-8, "fit")
        q = ctx.choose("monomial", poly.exps_total(c.sd, max(k - 2, 0)))
        big = poly.space(cname, sp.ks[0] + sum(q))
        F = poly.mult(sp, C[:, 0, :], big, {q: 1.0})
        num = (F @ big.V(P).T) @ w
        G = gauss_exact(c, big)
        ctx.close(num, F @ G, "lumped-rule-not-exact-on-products", q, tol=1e-9)
        ctx.observe(num)
    elif view == "symmetry":
        L = np.hstack([1 - P.sum(axis=1, keepdims=True), P])
        perm = ctx.choose("permutation", list(itertools.permutations(range(c.sd + 1))))
        Q = L[:, perm]
        D = np.max(np.abs(Q[:, None] - L[None]), axis=2)
        j = np.argmin(D, axis=1)
        ctx.ok(np.max(np.min(D, axis=1)) < 1e-8, "nodes-not-symmetric", lambda: "%s %g" % (perm, np.max(np.min(D, axis=1))))
        ctx.eq(sorted(j.tolist()), list(range(n)), "nodes-not-symmetric")
        ctx.close(w[j], w, "weights-not-symmetric", perm, tol=1e-9)
        ctx.observe(j)
    else:
        L = np.hstack([1 - P.sum(axis=1, keepdims=True), P])
        ed = el.entity_dofs()
        for d in ed:
            for i, dofs in ed[d].items():
                for j in dofs:
                    ctx.eq(tuple(v for v in range(c.sd + 1) if L[j, v] > 1e-10), tuple(c.topo[d][i]), "node-on-wrong-entity", "dof %d" % j)
                    ctx.step()
        ctx.eq(sorted(int(j) for m in ed.values() for v in m.values() for j in v), list(range(n)), "partition")
        ctx.eq(el.get_order() >= e.D, True, "order")
        ctx.eq(el.get_formdegree(), 0, "form-degree")


def gauss_exact(c, sp):
    """exact integrals of the model monomials (binomial expansion about the centre)"""
    from math import comb
    out = np.zeros(sp.N)
    for j, e in enumerate(sp.exps):
        t = 0.0
        for sub in itertools.product(*[range(a + 1) for a in e]):
            u = 1.0
            for a, s, x in zip(e, sub, sp.c):
                u *= comb(a, s) * (-x) ** (a - s)
            t += u * poly.integrate_simplex(sub)
        out[j] = t / sp.s ** sum(e)
    return out
