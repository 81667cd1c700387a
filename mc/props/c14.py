"""Equivalence of elements under affine maps between cells and of a cell onto itself."""
import itertools

import numpy as np

from .. import catalog, cells, h, poly
from ..catalog import FAC, enr, flat, rtce, rtcf, tp, wrap

BOUNDS = {"quick": "every affine-equivalent simplicial family (degree <= 6 / 5 / 3, all dof variants) from the UFC cell onto the UFC, default and Intrepid cells "
                   "under every vertex permutation (2 / 6 / 24); products, H(div) / H(curl) products, serendipity and DPC elements under all symmetries of "
                   "their cell (8 for squares, 48 for cubes, 12 for prisms); every entity",
          "thorough": "degree <= 10 / 8 / 5, products and serendipity two degrees higher"}
LIMIT_S = 600
DST = {"I": ("I", "DI"), "T": ("T", "DT", "NT"), "S": ("S", "DS", "NS")}
POINTWISE = ("CG", "DG", "CR", "KMV", "GL", "GLL", "P0", "Bernstein", "GR")


def configs(tier):
    big = tier == "thorough"
    top = {"I": 10, "T": 8, "S": 5} if big else {"I": 6, "T": 5, "S": 3}
    out = []

    def add(t, src, D, shape=()):
        for dst in DST[src]:
            if "KMV" in t and dst != src:
                continue        # offered on the UFC cells only
            out.append(("simplex", t, src, dst, D, list(shape)))
    for c in "ITS":
        n = cells.cell(c).sd
        for k in range(1, top[c] + 1):
            for f in ("CG", "Bernstein"):
                add("%s(%%s, %d)" % (f, k), c, k)
        for k in range(0, top[c] + 1):
            for f in ("DG", "Taylor") + (("GL", "GR") if n == 1 else ()) + (("GLL",) if n == 1 and k else ()):
                add("%s(%%s, %d)" % (f, k), c, k)
        for k in range(n + 1, top[c] + 1):
            add("Bubble(%%s, %d)" % k, c, k)
        for k in range(n, top[c] + 1):
            if n > 1:
                add("FBubble(%%s, %d)" % k, c, k)
        add("P0(%s)", c, 0)
        add("CR(%s, 1)", c, 1)
        add("Hermite(%s)", c, 3)
        if n == 1:
            continue
        for k, D in zip(range(1, 6), {2: (1, 3, 4, 5, 7), 3: (1, 4, 5)}[n]):
            add("KMV(%%s, %d)" % k, c, D)
        for k in range(1, (5 if n == 2 else 3) + big):
            for f in ("RT", "N1", "BDM", "N2"):
                if f == "N2" and n == 3 and k > 1:
                    vs = []
                else:
                    vs = ["", ", variant='integral'", ", variant='integral(%d)'" % (k + 2)]
                for v in vs[:3 if n == 2 or k == 1 or f in ("RT", "N1") and k == 2 else 1]:
                    add("%s(%%s, %d%s)" % (f, k, v), c, k, (n,))
            add("DRT(%%s, %d)" % k, c, k, (n,))
        for r in range(0, (4 if n == 2 else 2) + big):
            add("Regge(%%s, %d)" % r, c, r, (n, n))
            if n == 2:
                add("HHJ(%%s, %d)" % r, c, r, (n, n))
        if n == 2:
            add("BDFM(%s, 2)", c, 2, (2,))
    for k in range(1, 6 if big else 4):
        out += [("product", "Ser(Q, %d)" % k, "Q", [k, k], []), ("product", "DPC(Q, %d)" % k, "Q", [k, k], [])]
        if k < 4:
            out += [("product", "Ser(H, %d)" % k, "H", [k] * 3, []), ("product", "DPC(H, %d)" % k, "H", [k] * 3, [])]
    for g, d in (("CG", "DG"), ("GLL", "GL")):
        for k in range(1, 6 if big else 4):
            G, D = FAC["%s(I, %d)" % (g, k)], FAC["%s(I, %d)" % (d, k)]
            E = FAC["%s(I, %d)" % (d, k - 1)]
            L = [flat(tp(G, G)), flat(tp(D, D)), tp(G, G), flat(rtcf(k, g, d)), flat(rtce(k, g, d)), rtcf(k, g, d), rtce(k, g, d)]
            if k < 4:
                T = FAC["CG(T, %d)" % k]
                L += [tp(T, G), tp(FAC["DG(T, %d)" % k], D),
                      enr(wrap("Hdiv", tp(FAC["RT(T, %d)" % k], E)), wrap("Hdiv", tp(FAC["DG(T, %d)" % (k - 1)], G))),
                      enr(wrap("Hcurl", tp(FAC["N1(T, %d)" % k], G)), wrap("Hcurl", tp(T, E)))]
            if k < 3:
                q, dq = flat(tp(G, G)), flat(tp(E, E))
                f, e = flat(rtcf(k, g, d)), flat(rtce(k, g, d))
                L += [flat(tp(q, G)), flat(enr(wrap("Hdiv", tp(f, E)), wrap("Hdiv", tp(dq, G)))),
                      flat(enr(wrap("Hcurl", tp(e, G)), wrap("Hcurl", tp(q, E))))]
            for t in L:
                out.append(("product", t.expr, t.cell, list(t.D), list(t.shape)))
    seen = {}
    for c in out:
        seen.setdefault(repr(c), c)
    return list(seen.values())


def cost(c):
    if c[0] == "simplex":
        return (1 + c[4]) ** cells.cell(c[2]).sd
    return 5 * np.prod([k + 1 for k in c[3]])


_last = {}


def maps(a, b):
    """affine maps of cell a onto cell b that permute vertices, as (name, A, t)"""
    out = []
    if len(a.factors) == 1 and len(b.factors) == 1:
        va, vb = a.factors[0].verts, b.factors[0].verts
        for s in itertools.permutations(range(len(va))):
            A = np.linalg.solve(va[1:] - va[0], vb[list(s[1:])] - vb[s[0]]).T
            out.append(("perm" + repr(list(s)), A, vb[s[0]] - A @ va[0]))
        return out
    assert a is b
    fs = a.factors
    for order in itertools.permutations(range(len(fs))):
        # axes are exchanged only on hypercubes whose entities are numbered by dimension alone
        if list(order) != sorted(order) and not a.flat:
            continue
        for ps in itertools.product(*[list(itertools.permutations(range(f.n + 1))) for f in fs]):
            A, t = np.zeros((a.sd, a.sd)), np.zeros(a.sd)
            off = np.cumsum([0] + [f.n for f in fs])
            for i, j in enumerate(order):
                v = fs[i].verts
                B = np.linalg.solve(v[1:] - v[0], v[list(ps[i][1:])] - v[ps[i][0]]).T
                A[off[j]:off[j + 1], off[i]:off[i + 1]] = B
                t[off[j]:off[j + 1]] = v[ps[i][0]] - B @ v[0]
            out.append(("order%r perms%r" % (order, ps), A, t))
    return out


def pull(F, A, mapping, shape):
    """bring values at mapped points back to the first cell"""
    J, d = A, np.linalg.det(A)
    if mapping == "affine":
        return F
    Ji = np.linalg.inv(J)
    if mapping == "contravariant piola":
        return d * np.einsum("ij,bjp->bip", Ji, F)
    if mapping == "covariant piola":
        return np.einsum("ji,bjp->bip", J, F)
    n = shape[0]
    M = F.reshape(len(F), n, n, -1)
    if mapping == "double covariant piola":
        M = np.einsum("ki,bklp,lj->bijp", J, M, J)
    elif mapping == "double contravariant piola":
        M = d * d * np.einsum("ik,bklp,jl->bijp", Ji, M, Ji)
    else:
        raise ValueError(mapping)
    return M.reshape(len(F), n * n, -1)


def entity_image(a, b, A, t):
    """entity of b onto which each entity of a is mapped, found by its vertices"""
    where = {}
    for v, p in enumerate(a.verts):
        q = A @ p + t
        where[v] = int(np.argmin(np.linalg.norm(b.verts - q, axis=1)))
    inv = {(d, frozenset(vs)): e for d in b.topo for e, vs in b.topo[d].items()}
    out = {}
    for d in a.topo:
        for e, vs in a.topo[d].items():
            out[d, e] = (d, inv[d, frozenset(where[v] for v in vs)])
    return out


def run(cfg, ctx):
    if cfg[0] == "simplex":
        _, t, src, dst, D, shape = cfg
        ea, eb = t % src, t % dst
    else:
        _, ea, src, D, shape = cfg
        eb, dst, D = ea, src, tuple(D)
    a, b = cells.cell(src), cells.cell(dst)
    fam = ea.split("(")[0]
    ms = maps(a, b)
    if fam == "GR":
        ms = ms[:1]         # its points are not symmetric
    m = ctx.choose("map", [x[0] for x in ms])
    _, A, off = ms[[x[0] for x in ms].index(m)]
    ela, elb = h.element(ea), h.element(eb)
    ctx.step()
    n = ela.space_dimension()
    ctx.eq(elb.space_dimension(), n, "dimension")
    ctx.eq(tuple(ela.value_shape()), tuple(shape), "value-shape")
    mp = ela.mapping()
    ctx.eq(list(elb.mapping()), list(mp), "mapping-same")
    if (ea, eb, m) not in _last:
        _last.clear()
        P = poly.fit_setup(src, D)[0]
        # first-cell functions and the functions of the second cell brought back
        Fa = h.tab0(ela, [tuple(p) for p in P])
        Fb = h.tab0(elb, [tuple(p) for p in (P @ A.T + off)])
        G = np.zeros_like(Fb)
        for kind in set(mp):
            idx = [i for i in range(n) if mp[i] == kind]
            G[idx] = pull(Fb[idx], A, kind, tuple(shape))
        _last[ea, eb, m] = Fa.reshape(n, -1), G.reshape(n, -1)
    Fa, G = _last[ea, eb, m]
    ctx.step(2)
    img = entity_image(a, b, A, off)
    da, db = ela.entity_dofs(), elb.entity_dofs()
    ent = ctx.choose("entity", list(a.entities()))
    ia, ib = list(da[ent[0]][ent[1]]), list(db[img[ent][0]][img[ent][1]])
    if fam == "BDFM" and ent != (a.top, 0):
        # its cell dofs are tangential components, which the Piola map does not preserve: facet functions agree up to cell functions
        ia, ib = ia + list(da[a.top][0]), ib + list(db[a.top][0])
    ctx.eq(len(ib), len(ia), "dofs-of-image-entity", (ent, img[ent]))
    if not ia:
        return
    X, Y = Fa[ia], G[ib]
    s = h.in_span(X, Y)
    ctx.ok(s < 1e-7, "not-equivalent", lambda: "functions of %r on %s are not those of %r on %s mapped back: off by %g" % (ent, src, img[ent], dst, s))
    r = h.in_span(Y, X)
    ctx.ok(r < 1e-7, "not-equivalent", lambda: "mapped functions leave the span by %g" % r)
    if fam in POINTWISE or fam in ("TP", "Flat") and not shape:
        # the same functions in some order
        dist = np.max(np.abs(X[:, None, :] - Y[None, :, :]), axis=2)
        tol = 1e-8 * h.magnitude(X)
        hit = dist < tol
        ctx.ok(bool(np.all(hit.sum(1) == 1) and np.all(hit.sum(0) == 1)), "not-a-permutation",
               lambda: "functions of %r are not permuted into each other, worst distance %g" % (ent, dist.min(1).max()))
    ctx.observe("%s %s %d" % (m, ent, len(ia)))
