"""Tensor products, H(div)/H(curl) placement and flattening against outer products of the factor tables."""
import numpy as np

from .. import h, catalog, cells, poly, spaces

BOUNDS = {"quick": "all pairs of a menu of 19 interval, 15 triangle, 5 tetrahedron and 8 quadrilateral factors (nested products included), "
                   "plain / H(div) / H(curl) / flattened wherever documented; every entity; derivative orders 0, 2 on the cell (to 4 when a factor is itself a product), 1 on its entities",
          "thorough": "larger menus (degrees to 5), derivative orders 0..3"}
LIMIT_S = 300

# expr -> (cell, formdegree, mapping, kind of dofs: p point evaluations, i integral/other, v vector)
I = {"CG(I, 1)": 0, "CG(I, 2)": 0, "CG(I, 3)": 0, "DG(I, 0)": 1, "DG(I, 1)": 1, "DG(I, 2)": 1, "GLL(I, 3)": 0, "GL(I, 2)": 1,
     "GR(I, 2)": 1, "DPC(I, 1)": 1, "P0(I)": 1, "CR(I, 1)": None, "Bubble(I, 3)": None, "Hermite(I)": None,
     "Enr(CG(I, 1), Bubble(I, 2))": None, "NEnr(CG(I, 1), Bubble(I, 3))": None, "Res(CG(I, 3), restriction_domain='facet')": 0,
     "Dis(CG(I, 2))": 1, "Dis(GLL(I, 2))": 1}
I_BIG = {"CG(I, 4)": 0, "CG(I, 5)": 0, "GLL(I, 5)": 0, "GL(I, 4)": 1, "DG(I, 4)": 1, "GR(I, 4)": 1}
T = {"CG(T, 1)": 0, "CG(T, 2)": 0, "DG(T, 0)": 2, "DG(T, 1)": 2, "P0(T)": 2, "CR(T, 1)": None, "KMV(T, 2)": 0,
     "NEnr(CG(T, 1), Bubble(T, 3))": None, "Dis(CG(T, 1))": 2, "Res(CG(T, 2), restriction_domain='vertex')": 0}
T_BIG = {"CG(T, 3)": 0, "CG(T, 4)": 0, "DG(T, 3)": 2, "KMV(T, 3)": 0}
CON, COV = "contravariant piola", "covariant piola"
TV = {"RT(T, 1)": CON, "RT(T, 2)": CON, "RT(T, 2, variant='integral')": CON, "BDM(T, 1)": CON, "BDM(T, 2, variant='integral')": CON,
      "N1(T, 1)": COV, "N1(T, 2)": COV, "N1(T, 2, variant='integral')": COV, "N2(T, 1)": COV, "N2(T, 1, variant='integral')": COV,
      "Dis(RT(T, 1))": None}
TV_BIG = {"RT(T, 3)": CON, "BDM(T, 3)": CON, "N1(T, 3)": COV, "N2(T, 3)": COV}
S = {"CG(S, 1)": 0, "CG(S, 2)": 0, "DG(S, 1)": 3}
SV = {"RT(S, 1)": (CON, 2), "N1(S, 1)": (COV, 1), "BDM(S, 1)": (CON, 2)}
Q = {"Flat(TP(CG(I, 2), CG(I, 1)))": 0, "Flat(TP(DG(I, 1), DG(I, 0)))": 2, "DPC(Q, 1)": 2, "TP(CG(I, 1), CG(I, 2))": 0,
     "TP(CG(I, 1), CG(I, 1))": 0, "Flat(TP(CG(I, 1), CG(I, 1)))": 0, "TP(DG(I, 0), DG(I, 1))": 2, "Flat(Dis(TP(CG(I, 1), CG(I, 2))))": 2}
QV = {"Flat(Enr(Hdiv(TP(CG(I, 1), DG(I, 0))), Hdiv(TP(DG(I, 0), CG(I, 1)))))": CON,
      "Flat(Enr(Hcurl(TP(DG(I, 0), CG(I, 1))), Hcurl(TP(CG(I, 1), DG(I, 0)))))": COV,
      "Flat(Hdiv(TP(CG(I, 2), DG(I, 1))))": CON, "Flat(Hcurl(TP(CG(I, 2), DG(I, 1))))": COV,
      "Enr(Hdiv(TP(CG(I, 1), DG(I, 0))), Hdiv(TP(DG(I, 0), CG(I, 1))))": CON}


class F(object):
    def __init__(self, expr, cell, n, k, mapping="affine"):
        self.expr, self.cell, self.n, self.k, self.mapping = expr, cell, n, k, mapping


def menus(tier):
    b = tier == "thorough"
    m = {}
    for e, k in list(I.items()) + (list(I_BIG.items()) if b else []):
        m[e] = F(e, "I", 1, k)
    for e, k in list(T.items()) + (list(T_BIG.items()) if b else []):
        m[e] = F(e, "T", 2, k)
    for e, mp in list(TV.items()) + (list(TV_BIG.items()) if b else []):
        if mp:
            m[e] = F(e, "T", 2, 1, mp)
    for e, k in S.items():
        m[e] = F(e, "S", 3, k)
    for e, (mp, k) in SV.items():
        m[e] = F(e, "S", 3, k, mp)
    for e, k in Q.items():
        m[e] = F(e, "Q" if e[:4] in ("Flat", "DPC(") else "IxI", 2, k)
    for e, mp in QV.items():
        m[e] = F(e, "Q" if e[:4] == "Flat" else "IxI", 2, 1, mp)
    return m


M = menus("thorough")


def point_evals(e):
    """factors all of whose dofs are plain point evaluations (or point derivatives / moments)"""
    return e not in ("Enr(CG(I, 1), Bubble(I, 2))",)


def configs(tier):
    m = menus(tier)
    out = []
    for a in m.values():
        for b in m.values():
            if a.mapping != "affine" and b.mapping != "affine":
                continue
            if b.mapping != "affine" or a.mapping != "affine" and b.n > 1:
                continue                        # dofs of such products are not provided
            if a.n + b.n > 4 or a.n + b.n > 3 and tier == "quick" and (len(a.expr) > 10 or len(b.expr) > 10):
                continue
            if a.cell == "IxI" and b.n > 1:
                continue
            ws = ["TP"]
            n = a.n + b.n
            if a.k is not None and b.k is not None:
                if a.k + b.k == n - 1 and (a.mapping in ("affine", CON) or a.mapping == COV and a.n == 2):
                    if a.mapping != "affine" or a.k == 0 and a.n == 1 or b.k == 0 and b.n == 1:
                        ws.append("Hdiv")
                if a.k + b.k == 1 and (a.mapping in ("affine", COV) or a.mapping == CON and a.n == 2):
                    if a.mapping != "affine" or a.k == 1 and a.n == 1 or b.k == 1 and b.n == 1:
                        ws.append("Hcurl")
            for w in ws:
                if w == "Hdiv" and a.mapping == "affine" and a.k == 0 and b.k == 0 and n > 1 and a.n > 1:
                    continue
                out.append((w, a.expr, b.expr))
                if set(a.cell) <= set("IQxH") and set(b.cell) <= set("IQxH") and n in (2, 3):
                    out.append(("Flat" + w, a.expr, b.expr))
    return [c for c in out if supported(c)]


# combinations whose dofs FIAT documents as unsupported (NotImplementedError at construction)
def supported(c):
    w, a, b = c
    # products of vector-valued point dofs with anything but point evaluations
    return not (M[a].mapping != "affine" and "Hermite" in b)


def cost(c):
    return len(c[1]) + len(c[2]) + (40 if "S" in c[1] + c[2] else 0)


def expr(cfg):
    w, a, b = cfg
    s = "TP(%s, %s)" % (a, b)
    if w.endswith("Hdiv") or w.endswith("Hcurl"):
        s = "%s(%s)" % (w.replace("Flat", ""), s)
    return "Flat(%s)" % s if w.startswith("Flat") else s


def weights(f):
    d = {}
    for p, terms in f.get_point_dict().items():
        for w, comp in terms:
            if w != 0.0:
                k = (tuple(np.round(np.asarray(p, float), 12) + 0.0), tuple(comp))
                d[k] = d.get(k, 0.0) + float(w)
    return d


def run(cfg, ctx):
    w, ea, eb = cfg
    fa, fb = M[ea], M[eb]
    A, B = h.element(ea), h.element(eb)
    el = h.element(expr(cfg))
    ctx.step()
    ca, cb = cells.cell(fa.cell), cells.cell(fb.cell)
    pa = "(%s)" % fa.cell if "x" in fa.cell else fa.cell
    pb = "(%s)" % fb.cell if "x" in fb.cell else fb.cell
    c = cells.cell({2: "Q", 3: "H"}[fa.n + fb.n] if w.startswith("Flat") else "%sx%s" % (pa, pb))
    nA, nB = A.space_dimension(), B.space_dimension()
    n, sd = nA * nB, c.sd
    wrap = w.replace("Flat", "")
    va = A.value_shape()
    shape = (sd,) if wrap != "TP" else tuple(va) or tuple(B.value_shape())
    na = len(ca.factors)
    invA = {v: k for k, v in ca.ents.items()}
    invB = {v: k for k, v in cb.ents.items()}
    view = ctx.choose("view", ["meta", "dofs", "table"])
    if view == "meta":
        ctx.eq(el.space_dimension(), n, "dimension")
        ctx.eq(tuple(el.value_shape()), shape, "value-shape")
        ctx.eq(el.degree(), max(A.degree(), B.degree()), "degree")
        mp = {"TP": fa.mapping if fa.mapping != "affine" else fb.mapping, "Hdiv": CON, "Hcurl": COV}[wrap]
        ctx.eq(list(el.mapping()), [mp] * n, "mapping")
        for f, g in ((fa, A), (fb, B)):
            if f.k is not None:
                ctx.eq(g.get_formdegree(), f.k, "factor-form-degree", f.expr)
        ka, kb = A.get_formdegree(), B.get_formdegree()
        ctx.eq(el.get_formdegree(), None if ka is None or kb is None else ka + kb, "form-degree")
        ctx.eq(bool(el.is_nodal()), bool(A.is_nodal() and B.is_nodal()), "nodal") if not w.startswith("Flat") else None
        ctx.eq(el.get_reference_element().get_spatial_dimension(), sd, "cell")
        ed = el.entity_dofs()
        edA, edB = A.entity_dofs(), B.entity_dofs()
        for k, (md, me) in c.ents.items():
            ka, kb = invA[(md[:na], me[:na])], invB[(md[na:], me[na:])]
            want = [x * nB + y for x in edA[ka[0]][ka[1]] for y in edB[kb[0]][kb[1]]]
            ctx.eq(list(ed[k[0]][k[1]]), want, "entity-dofs", str(k))
        return
    if view == "dofs":
        nodes, Na, Nb = el.dual_basis(), A.dual_basis(), B.dual_basis()
        ctx.eq(len(nodes), n, "number-of-dofs")
        cnt = 0
        for i, f in enumerate(Na):
            for j, g in enumerate(Nb):
                node = nodes[i * nB + j]
                if h.undefined(node):
                    # only products that have no point representation may be left out
                    ctx.ok(bool(f.deriv_dict or g.deriv_dict or h.undefined(f) or h.undefined(g) or wrap != "TP" and fa.mapping == "affine"
                                or len(g.get_point_dict()) > 1 or len(f.get_point_dict()) > 1 or
                                "Enr" in ea + eb or "Dis" in ea + eb or "QE" in ea + eb or plain(f) or plain(g)),
                           "dof-dropped", "dof (%d, %d)" % (i, j))
                    continue
                cnt += 1
                if wrap != "TP" and not (fa.mapping == (CON if wrap == "Hdiv" else COV)):
                    continue                    # placed elsewhere: covered by nodality
                want = {}
                for (p, cp), x in weights(f).items():
                    for (q, cq), y in weights(g).items():
                        want[(p + q, cp + cq)] = want.get((p + q, cp + cq), 0.0) + x * y
                got = weights(node)
                ctx.eq(sorted(got), sorted(want), "dof-points", "dof (%d, %d)" % (i, j))
                for k in want:
                    ctx.close(got[k], want[k], "dof-weights", "dof (%d, %d)" % (i, j), tol=1e-11)
        ctx.observe(repr(cnt))
        return
    ent = ctx.choose("entity", c.entities())
    order = ctx.choose("order", ((order_menu(fa, fb)) if ent == (c.top, 0) else [1]) if ctx.tier == "quick" else [0, 1, 2, 3])
    md, me = c.ents[ent]
    ka, kb = invA[(md[:na], me[:na])], invB[(md[na:], me[na:])]
    ra = cells.ref_points(md[:na], 1, "generic")
    rb = cells.ref_points(md[na:], 1, "generic")
    # a generic sequence of point pairs, not a grid
    m = max(len(ra), len(rb), 2)
    ra, rb = ra[np.arange(m) % len(ra)], rb[(np.arange(m) * 2 + 1) % len(rb)] * 0.8
    ta = A.tabulate(order, [tuple(p) for p in ra], ka)
    tb = B.tabulate(order, [tuple(p) for p in rb], kb)
    tab = el.tabulate(order, [tuple(p) for p in np.hstack([ra, rb])], ent)
    ctx.step(3)
    want = [a for k in range(order + 1) for a in poly.alphas(sd, k)]
    ctx.eq(sorted(tab), sorted(want), "multi-indices")
    for a in want:
        x = h.flat(ta[a[:fa.n]], nA, va)
        y = h.flat(tb[a[fa.n:]], nB, B.value_shape())
        r = np.einsum("acp,bdp->abcdp", x, y).reshape(n, x.shape[1] * y.shape[1], m)
        if wrap != "TP":
            out = np.zeros((n, sd, m))
            spaces.place(wrap, fa, fb, fa.n, fb.n, r, out)
            r = out
        ctx.eq(tuple(np.shape(tab[a])), (n,) + shape + (m,), "table-shape", a)
        ctx.close(h.flat(tab[a], n, shape), r, "product-table", "entity %s derivative %s" % (ent, a), tol=1e-11)
    ctx.observe(h.flat(tab[want[-1]], n, shape)[..., 0])


def order_menu(fa, fb):
    """a factor that is a product itself has non-zero derivatives of an order beyond its degree"""
    return [0, 2] + [3, 4] * (fa.cell in ("Q", "IxI") or fb.cell in ("Q", "IxI"))


def plain(f):
    """neither a point evaluation nor a moment"""
    return f.get_type_tag() not in ("PointEval", "ComponentPointEval", "PointScaledNormalEval", "PointEdgeTangent",
                                    "IntegralMoment", "FrobeniusIntegralMoment")
