"""Conformity: traces vanish off the facet and match between facets."""
import numpy as np

from .. import h, catalog, cells

BOUNDS = {"quick": "every conforming family (degree <= 9/6/4, single elements to 9/9/6; H(div)/H(curl) <= 5/3, single elements to 6/4; all variants), products, hypercubes, serendipity; "
                   "every facet and every ordered pair of facets of the same kind",
          "thorough": "degrees of the thorough catalogue"}
ASSUMPTIONS = ["traces are polynomials of the catalogue degree, compared on a unisolvent point set of the facet"]
LIMIT_S = 400

CONF = {"H1", "Hdiv", "Hcurl", "Regge", "HHJ", "C1", "Hermite", "Bell", "CR", "Morley", "Hdivsym"}
# documented leading functions of elements with constraint dofs
LEAD = {"Bell": 18, "MTW": 9, "AW": 24, "AWnc": 15}
COMBO = {"Enr(CG(T, 1), Bubble(T, 3))": "H1", "Enr(CG(T, 2), Bubble(T, 3))": "H1", "Enr(CG(S, 1), Bubble(S, 4))": "H1",
         "Enr(CG(S, 1), FBubble(S, 3), Bubble(S, 4))": "H1", "Enr(CG(I, 1), Bubble(I, 2), Bubble(I, 3))": "H1",
         "Enr(RT(T, 1), Res(RT(T, 2), restriction_domain='interior'))": "Hdiv",
         "Enr(RT(S, 1), Res(RT(S, 2), restriction_domain='interior'))": "Hdiv",
         "Enr(Bernstein(T, 2), Bubble(T, 3))": "H1",
         "Enr(TP(CG(I, 1), CG(I, 1)), TP(Bubble(I, 2), Bubble(I, 2)))": "H1",
         "NEnr(CG(I, 1), Bubble(I, 2))": "H1", "NEnr(CG(T, 1), Bubble(T, 3))": "H1",
         "NEnr(CG(T, 1), FBubble(T, 2), Bubble(T, 3))": "H1", "NEnr(CG(S, 1), FBubble(S, 3))": "H1",
         "NEnr(CG(S, 1), Bubble(S, 4))": "H1", "NEnr(RT(T, 1), Res(RT(T, 2), restriction_domain='interior'))": "Hdiv",
         "NEnr(Regge(S, 1), Res(Regge(S, 2), restriction_domain='interior'))": "Regge",
         "Res(CG(T, 3), restriction_domain='facet')": "H1", "Res(CG(S, 3), restriction_domain='edge')": "H1",
         "Res(N1(S, 2), restriction_domain='face')": "Hcurl", "Res(RT(T, 2), restriction_domain='interior')": "Hdiv",
         "Res(Regge(S, 1), restriction_domain='edge')": "Regge",
         "TP(KMV(T, 2), GLL(I, 3))": "H1", "TP(Enr(CG(T, 1), Bubble(T, 3)), CG(I, 1))": "H1"}
OTHER = {"CG": "H1", "RT": "Hdiv", "N1": "Hcurl", "BDM": "Hdiv", "Regge": "Regge", "HHJ": "HHJ", "Hermite": "Hermite",
         "Morley": "Morley", "Argyris": "C1", "GLL": "H1", "Bubble": "H1", "CR": "CR"}
# families for which matching only concerns functions of the open facet (vertex dofs are derivatives in fixed directions)
OPEN = ("C1", "Hermite", "Bell")
NOMATCH = ("Morley", "Hdivsym")


def conf(e):
    if e.family == "other-cell":
        return OTHER.get(e.expr.split("(")[0])
    if e.family == "combo":
        return COMBO.get(e.expr)
    return e.conf if e.conf in CONF else None


def configs(tier):
    return [e.expr for e in catalog.everything(tier).values() if conf(e) and (tier == "thorough" or e.cost < 20)]


def cost(c):
    return catalog.lookup(c).cost


def isotropic(e):
    return e.cell in ("I", "T", "S") or e.family == "Ser" or (e.cell == "Q" and e.family == "product" and e.D[0] == e.D[1])


def tangents(c, f):
    A, b = c.transform(*f)
    return A.T          # rows


def normal(c, f):
    """normal of the facet, scaled with its area, oriented by the ordered vertices"""
    T = tangents(c, f)
    if c.sd == 1:
        return np.array([1.0])
    if c.sd == 2:
        return np.array([T[0][1], -T[0][0]])
    return np.cross(T[0], T[1]) if c.sd == 3 else np.ones(c.sd)     # scalar elements only beyond 3-D


def facet_points(c, f, deg):
    dims = c.entity_dims(*f)
    A, b = c.transform(*f)
    ref = cells.ref_points(dims, deg, "generic")
    # make the set closed under nothing in particular: generic points, unisolvent of the given degree
    return ref, ref @ A.T + b


def trace(kind, family, el, c, f, deg):
    """(n, components, functionals) of the relevant traces on facet f"""
    ref, pts = facet_points(c, f, deg)
    n = el.space_dimension()
    shape = tuple(el.value_shape())
    order = 1 if kind in ("C1", "Bell", "Morley") else 0
    tab = el.tabulate(order, [tuple(p) for p in pts])
    val = h.flat(tab[(0,) * c.sd], n, shape)
    T = tangents(c, f)
    nn = normal(c, f)
    un = nn / np.linalg.norm(nn)
    if order:
        grad = np.stack([h.flat(tab[tuple(int(i == d) for i in range(c.sd))], n, shape)[:, 0] for d in range(c.sd)], axis=1)
    if kind == "H1" or kind == "Hermite":
        return val
    if kind in ("C1", "Bell"):
        return np.concatenate([val, np.einsum("d,ndp->np", un, grad)[:, None]], axis=1)
    if kind == "Morley":
        return facet_moments(c, f, deg, ref, grad, 0)
    if kind == "CR":
        return facet_moments(c, f, deg, ref, val, 0)
    if kind == "Hdiv":
        out = np.einsum("d,ndp->np", nn, val)[:, None]
        if family == "MTW":
            t = facet_moments(c, f, deg, ref, np.einsum("d,ndp->np", T[0], val)[:, None], 0)
            out = np.concatenate([out, t * np.ones((1, 1, out.shape[2]))], axis=1)
        return out
    if kind == "Hcurl":
        return np.einsum("kd,ndp->nkp", T, val)
    v2 = val.reshape(n, c.sd, c.sd, -1) if len(shape) == 2 else None
    if kind == "Regge":
        return np.einsum("ki,nijp,lj->nklp", T, v2, T).reshape(n, -1, val.shape[2])
    if kind == "HHJ":
        return np.einsum("i,nijp,j->np", nn, v2, nn)[:, None]
    if kind == "Hdivsym":
        t = np.einsum("nijp,j->nip", v2, nn)
        return t if family == "AW" else facet_moments(c, f, deg, ref, t, 1)
    raise KeyError(kind)


def facet_moments(c, f, deg, ref, vals, k):
    """moments of degree <= k of the polynomial traces over the reference facet"""
    from .. import poly
    dims = c.entity_dims(*f)
    m = sum(dims)
    if m == 0:
        return vals[:, :, :1]
    S = poly.Space(dims, [deg] * len(dims), [0.0] * m, 1.0)
    Vi = np.linalg.pinv(S.V(ref))
    C = vals @ Vi.T
    out = []
    for q in poly.exps_total(m, k):
        w = np.array([poly.integrate_simplex(tuple(a + b for a, b in zip(e, q))) for e in S.exps])
        out.append(C @ w)
    return np.stack(out, axis=-1)


def closure_slots(c, f):
    """sub-entities of the facet, keyed by the positions of their vertices in the facet"""
    fv = c.topo[f[0]][f[1]]
    pos = {v: i for i, v in enumerate(fv)}
    return {tuple(pos[v] for v in c.topo[d][e]): (d, e) for d, e in c.closure(*f)}


def run(expr, ctx):
    e = catalog.lookup(expr)
    kind = conf(e)
    c = cells.cell(e.cell)
    el = h.element(expr)
    deg = e.D if isinstance(e.D, int) else max(e.D)
    n = el.space_dimension()
    lead = LEAD.get(e.family, n)
    ed = el.entity_dofs()
    f = ctx.choose("facet", c.entities(1))
    others = [g for g in c.entities(1) if g > f and (c.ents[g][0] == c.ents[f][0] or
                                                     isotropic(e) and len(c.topo[g[0]][g[1]]) == len(c.topo[f[0]][f[1]]))] \
        if not isinstance(f[0], tuple) else [g for g in c.entities(1) if g[0] == f[0] and g[1] > f[1]]
    if kind in NOMATCH or e.family in ("MTW", "other-cell"):
        others = []
    mode = ctx.choose("mode", ["vanish"] + others)
    TF = trace(kind, e.family, el, c, f, deg)
    ctx.step()
    mag = np.max(np.abs(TF)) if TF.size else 1.0
    own = {i for d, x in c.closure(*f) for i in ed[d][x]}
    if mode == "vanish":
        size = max(1.0, float(mag))
        for i in range(lead):
            if i not in own:
                m = float(np.max(np.abs(TF[i])))
                ctx.ok(m <= 1e-8 * size, "trace-not-zero", lambda: "function %d on facet %s: %g" % (i, f, m))
        # functions with a dof in the open facet are seen on it
        ctx.observe(TF[sorted(own)])
        return
    TG = trace(kind, e.family, el, c, mode, deg)
    ctx.step()
    sF, sG = closure_slots(c, f), closure_slots(c, mode)
    ctx.eq(sorted(sF), sorted(sG), "facets-not-alike")
    for p, (d, x) in sF.items():
        if kind in OPEN and d != f[0]:
            continue
        a, b = ed[d][x], ed[sG[p][0]][sG[p][1]]
        ctx.eq(len(a), len(b), "unequal-dofs", "facets %s %s" % (f, mode))
        for i, j in zip(a, b):
            if i < lead and j < lead:
                ctx.close(TF[i], TG[j], "traces-differ", "facets %s, %s functions %d, %d" % (f, mode, i, j), tol=1e-8,
                          scale=max(1.0, float(mag)))
