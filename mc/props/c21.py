"""Grid of requests, each labelled valid (with the documented dimension), invalid
(must raise) or unspecified; every request of the grid is made."""
import numpy as np
from math import comb

import FIAT
from FIAT import functional, polynomial_set, orthopoly, quadrature, reference_element, pointwise_dual
from FIAT import quadrature_schemes
from ..engine import Skip
from .. import cells
from ..catalog import namespace, pk

BOUNDS = {"quick": "31 constructors x 14 cells (point, UFC/default/Intrepid simplices, quadrilateral, hexahedron, products) x degrees -2..5 (4 on "
                   "tetrahedra); H(div)/H(curl) families x degrees 1..3 x 24 dof variants; rules x cells x degrees -3..8 x 6 schemes; binary and unary "
                   "combinators on every ordered pair of 24 elements; restriction on every index list of length <= 2 and every domain; 90 single malformed calls",
          "thorough": "degrees -3..8 (6 on tetrahedra), variants for degrees 1..5, rules to degree 30"}
ASSUMPTIONS = ["any exception counts as rejection; requests whose status is not documented (e.g. BDM on intervals, facet bubbles on intervals, point cells) are not judged"]
LIMIT_S = 300

CELLS = ["P", "I", "DI", "T", "DT", "NT", "S", "DS", "NS", "Q", "H", "IxI", "TxI", "IxIxI"]
KIND = {"P": "P", "I": "I", "DI": "I", "T": "T", "DT": "T", "NT": "T", "S": "S", "DS": "S", "NS": "S",
        "Q": "Q", "H": "H", "IxI": "Q", "TxI": "W", "IxIxI": "H"}
N = {"I": 1, "T": 2, "S": 3, "Q": 2, "H": 3, "W": 3}
UNSPEC = "unspecified"

WITHDEG = ["CG", "DG", "GL", "GLL", "GR", "RT", "DRT", "BDM", "BDFM", "N1", "N2", "CR", "Regge", "HHJ", "AW", "AWnc", "MTW",
           "Argyris", "Bernstein", "Taylor", "Bubble", "FBubble", "KMV", "Ser", "DPC", "Trace"]
NODEG = ["P0", "QArgyris", "Bell", "Hermite", "Morley"]


def rt(n, k):
    return n * pk(n, k - 1) + pk(n - 1, k - 1)


def ned(n, k):
    return k * (k + 2) if n == 2 else k * (k + 2) * (k + 3) // 2


def regge(n, r):
    return pk(n, r) * n * (n + 1) // 2


def sdim(n, k):
    """superlinear degree <= k (Arnold & Awanou)"""
    return sum(2 ** (n - d) * comb(n, d) * comb(k - d, d) for d in range(0, min(n, k // 2) + 1))


def label(f, c, k):
    """documented dimension, None (must be rejected) or UNSPEC"""
    K = KIND[c]
    if f in ("CG", "DG", "Taylor", "DPC", "P0", "Bernstein", "Bubble", "FBubble") and K == "P":
        return None if k is not None and k < 0 else UNSPEC
    simplex = K in "ITS"
    n = N.get(K)
    if f == "P0":
        return 1 if simplex else None
    if f in ("QArgyris", "Bell"):
        return 21 if K == "T" else None
    if f == "Morley":
        return 6 if K == "T" else None
    if f == "Hermite":
        return pk(n, 3) if simplex else None
    if f == "CG":
        return pk(n, k) if simplex and k >= 1 else None
    if f == "Bernstein":
        return pk(n, k) if simplex and k >= 1 else None
    if f in ("DG", "Taylor"):
        return pk(n, k) if simplex and k >= 0 else None
    if f in ("GL", "GR"):
        return k + 1 if K == "I" and k >= 0 else None
    if f == "GLL":
        return k + 1 if K == "I" and k >= 1 else None
    if f in ("RT", "DRT"):
        if K == "I" and k >= 1:
            return UNSPEC
        return rt(n, k) if K in "TS" and k >= 1 else None
    if f == "BDM":
        if K == "I" and k >= 1:
            return UNSPEC
        return n * pk(n, k) if K in "TS" and k >= 1 else None
    if f == "BDFM":
        return 9 if K == "T" and k == 2 else None
    if f == "N1":
        return ned(n, k) if K in "TS" and k >= 1 else None
    if f == "N2":
        if c in ("DS", "NS") and k > 1:
            return None
        return n * pk(n, k) if K in "TS" and k >= 1 else None
    if f == "CR":
        return n + 1 if simplex and k == 1 else None
    if f == "Regge":
        return regge(n, k) if K in "TS" and k >= 0 else None
    if f == "HHJ":
        return regge(2, k) if K == "T" and k >= 0 else None
    if f == "AW":
        return 30 if K == "T" and k == 3 else None
    if f == "AWnc":
        return 18 if K == "T" and k == 2 else None
    if f == "MTW":
        return 20 if K == "T" and k == 3 else None
    if f == "Argyris":
        return pk(2, k) if K == "T" and k >= 5 else None
    if f == "Bubble":
        return pk(n, k - n - 1) if simplex and k >= n + 1 else None
    if f == "FBubble":
        if K == "I" and k >= 1:
            return UNSPEC
        return (n + 1) * pk(n - 1, k - n) if K in "TS" and k >= n else None
    if f == "KMV":
        if c == "T" and 1 <= k <= 5:
            return {1: 3, 2: 7, 3: 12, 4: 18, 5: 30}[k]
        if c == "S" and 1 <= k <= 3:
            return {1: 4, 2: 15, 3: 32}[k]
        return None
    if f == "Ser":
        if K == "I":
            return k + 1 if k >= 1 else None
        return sdim(n, k) if K in "QH" and k >= 1 else None
    if f == "DPC":
        return pk(n, k) if K in "IQH" and k >= 0 else None
    if f == "Trace":
        if k < 0 or K in "PI" or c == "H":
            return None
        if K in "TS":
            return (n + 1) * pk(n - 1, k)
        if K == "Q":
            return 4 * (k + 1)
        if K == "H":
            return 6 * (k + 1) ** 2
        return 2 * pk(2, k) + 3 * (k + 1) ** 2
    raise KeyError(f)


def configs(tier):
    big = tier == "thorough"
    out = [("grid", f, c) for f in WITHDEG + NODEG for c in CELLS]
    for f in ("RT", "BDM", "N1", "N2"):
        for c in ("T", "DT", "S", "DS"):
            for k in range(1, (6 if big else 4) - (c in ("S", "DS"))):
                out.append(("variant", f, c, k))
    out += [("rule", c) for c in CELLS]
    out += [("tuple-rule", c) for c in ("IxI", "TxI", "IxIxI")]
    out += [("lines", r) for r in LINES]
    out += [("pair", a) for a in PAIR]
    out += [("restrict", e) for e in REST]
    out += [("single", i) for i in range(len(SINGLE))]
    return out


def cost(cfg):
    if cfg[0] == "grid" and len(cfg) == 3:
        return 3 if KIND[cfg[2]] in "SH" else 1
    if cfg[0] == "variant":
        return 5 * cfg[3]
    return 1


def judge(ctx, make, want, key, what):
    """want: None (must raise), UNSPEC, or a checker(result)"""
    ctx.step()
    try:
        r = make()
    except Exception as e:
        ctx.observe("raise")
        ctx.ok(want is None or want is UNSPEC, "valid-request-rejected:" + key,
               lambda: "%s raised %s: %s" % (what, type(e).__name__, str(e)[:150]))
        return None
    ctx.ok(want is not None, "invalid-request-accepted:" + key, lambda: "%s returned %s" % (what, type(r).__name__))
    ctx.observe("ok")
    return r


def usable(ctx, el, c, dim, what, tab=True):
    ctx.eq(el.space_dimension(), dim, "dimension", what)
    if not tab:
        return
    sd = cells.cell(c).sd
    pts = cells.to_cell(cells.cell(c), cells.ref_points(cells.cell(c).dims, 1, "generic"))
    t = el.tabulate(0, [tuple(p) for p in pts])[(0,) * sd]
    ctx.step()
    ctx.ok(np.shape(t)[0] == dim and np.shape(t)[-1] == len(pts) and np.all(np.isfinite(np.asarray(t, float))), "unusable", what)


def grid(cfg, ctx):
    _, f, c = cfg
    big = ctx.tier == "thorough"
    ns = namespace()
    if f in NODEG:
        ks = [None]
    else:
        top = (8 if big else 5) - (2 if big and KIND[c] in "SHW" else 1 if KIND[c] in "SHW" else 0)
        ks = list(range(-3 if big else -2, top + 1))
    k = ctx.choose("degree", ks)
    if k is not None and k > 4 and f in ("BDM", "N2") and KIND[c] == "S" or k is not None and k > 4 and f == "Ser" and KIND[c] == "H":
        raise Skip("cost")
    want = label(f, c, k)
    what = "%s(%s%s)" % (f, c, "" if k is None else ", %d" % k)
    el = judge(ctx, lambda: ns[f](ns[c]) if k is None else ns[f](ns[c], k), want, f, what)
    if el is not None and want is not UNSPEC:
        usable(ctx, el, c, want, what, f != "Trace")


BAD = ["foo", "", "integral()", "integral(-1)", "integral(2.5)", "integral( 9)", "integral(9) ", " integral", "integral(9)x", "integral(9", "integral9",
       "Integral", "points", "POINT", "point(3)", "spectral", "equispaced"]


def variant(cfg, ctx):
    _, f, c, k = cfg
    ns = namespace()
    least = k if f in ("RT", "N1") else k + 1
    v = ctx.choose("variant", [None, "point", "integral"] + ["integral(%d)" % q for q in sorted({0, least - 2, least - 1, least, least + 2, 12}) if q >= 0] + BAD)
    if f == "N2" and c == "DS" and k > 1:
        want = None
    elif v in BAD or v and v[-1] == ")" and int(v[9:-1]) < least:
        want = None
    else:
        n = N[KIND[c]]
        want = {"RT": rt, "N1": ned}[f](n, k) if f in ("RT", "N1") else n * pk(n, k)
        if v and v != "point" and KIND[c] == "S" and k > 1 and ctx.tier == "quick" and f in ("BDM", "N2"):
            raise Skip("cost")
    what = "%s(%s, %d, %r)" % (f, c, k, v)
    style = ctx.choose("as", ["keyword", "positional"])
    el = judge(ctx, lambda: ns[f](ns[c], k, variant=v) if style == "keyword" else ns[f](ns[c], k, v), want, "variant", what)
    if el is not None:
        usable(ctx, el, c, want, what)


def isrule(ctx, q, c, d, what):
    pts, wts = q.get_points(), q.get_weights()
    ctx.eq(len(pts), len(wts), "rule", what)
    vol = cells.volume(cells.cell(c)) if hasattr(cells, "volume") else None
    if vol is not None:
        ctx.close(sum(wts), vol, "volume", what)


VOL = {"P": 1, "I": 1, "DI": 2, "T": .5, "DT": 2, "NT": .5, "S": 1 / 6, "DS": 8 / 6, "NS": 1 / 6, "Q": 1, "H": 1, "IxI": 1, "TxI": .5, "IxIxI": 1}


def rule(cfg, ctx):
    c = cfg[1]
    ns = namespace()
    kind = ctx.choose("call", ["create", "make"])
    d = ctx.choose("degree", list(range(-3, 31 if ctx.tier == "thorough" else 9)))
    if kind == "make":
        want = 1 if d >= 1 else None
        if "x" in c:
            want = None     # unable to make quadrature for this cell
        what = "make_quadrature(%s, %d)" % (c, d)
        q = judge(ctx, lambda: quadrature.make_quadrature(ns[c], d), want, "make_quadrature", what)
    else:
        s = ctx.choose("scheme", ["default", "canonical", "KMV", "foo", "", "Default"])
        want = 1 if d >= 0 else None
        if s not in ("default", "canonical", "KMV"):
            want = None
        if s == "KMV":
            top = {"T": 5, "S": 3}.get(KIND[c], 0)
            if not 1 <= d <= top:
                want = None
            elif c in ("NT", "NS"):
                want = UNSPEC      # same vertices as the UFC cell
            elif c not in ("T", "S"):
                want = None
        what = "create_quadrature(%s, %d, %r)" % (c, d, s)
        q = judge(ctx, lambda: quadrature_schemes.create_quadrature(ns[c], d, s), want, "create_quadrature", what)
    if q is not None:
        ctx.eq(len(q.get_points()), len(q.get_weights()), "rule", what)
        ctx.close(sum(q.get_weights()), VOL[c], "weights-do-not-sum-to-the-volume", what, tol=1e-10)


def tuple_rule(cfg, ctx):
    c = cfg[1]
    ns = namespace()
    n = c.count("x") + 1
    m = ctx.choose("length", [0, 1, 2, 3, 4])
    ds = tuple(ctx.choose("degree %d" % i, [-1, 0, 1, 4]) for i in range(m))
    want = 1 if m == n and min(ds, default=-1) >= 0 else None
    what = "create_quadrature(%s, %s)" % (c, ds)
    q = judge(ctx, lambda: quadrature_schemes.create_quadrature(ns[c], ds), want, "create_quadrature-tuple", what)
    if q is not None:
        ctx.close(sum(q.get_weights()), VOL[c], "weights-do-not-sum-to-the-volume", what, tol=1e-10)


LINES = {"GaussLobattoLegendreQuadratureLineRule": 2, "GaussLegendreQuadratureLineRule": 1, "RadauQuadratureLineRule": 1}


def lines(cfg, ctx):
    c = ctx.choose("cell", ["I", "DI"])
    m = ctx.choose("m", list(range(-3, 12)))
    want = 1 if m >= LINES[cfg[1]] else None
    what = "%s(%s, %d)" % (cfg[1], c, m)
    q = judge(ctx, lambda: getattr(quadrature, cfg[1])(namespace()[c], m), want, "line-rule", what)
    if q is not None:
        ctx.eq(len(q.get_points()), m, "rule", what)
        ctx.close(sum(q.get_weights()), VOL[c], "weights-do-not-sum-to-the-volume", what, tol=1e-10)


# elements with what decides whether they can be combined:
#   expression -> (cell, mapping, shape, form degree, nodal, primal description)
A = "affine"
CONP, COVP, DCOV = "contravariant piola", "covariant piola", "double covariant piola"
PAIR = {
    "CG(I, 1)": ("I", A, (), 0, True, ("P", 0, 1)), "CG(I, 2)": ("I", A, (), 0, True, ("P", 0, 2)),
    "DG(I, 0)": ("I", A, (), 1, True, ("P", 0, 0)), "Hermite(I)": ("I", A, (), None, True, ("P", 0, 3)),
    "CG(DI, 1)": ("DI", A, (), 0, True, ("P", 0, 1)),
    "CG(T, 1)": ("T", A, (), 0, True, ("P", 0, 1)), "CG(T, 2)": ("T", A, (), 0, True, ("P", 0, 2)),
    "DG(T, 0)": ("T", A, (), 2, True, ("P", 0, 0)), "DG(T, 1)": ("T", A, (), 2, True, ("P", 0, 1)),
    "Bubble(T, 3)": ("T", A, (), 0, True, ("B", 3)), "Bubble(T, 4)": ("T", A, (), 0, True, ("B", 4)),
    "FBubble(T, 2)": ("T", A, (), 0, True, ("F", 2)),
    "CG(DT, 1)": ("DT", A, (), 0, True, ("P", 0, 1)), "Bubble(DT, 3)": ("DT", A, (), 0, True, ("B", 3)),
    "CG(S, 1)": ("S", A, (), 0, True, ("P", 0, 1)), "Bubble(S, 4)": ("S", A, (), 0, True, ("B", 4)),
    "RT(T, 1)": ("T", CONP, (2,), 1, True, ("R", 1)), "BDM(T, 1)": ("T", CONP, (2,), 1, True, ("V", 1)),
    "N1(T, 1)": ("T", COVP, (2,), 1, True, ("N", 1)), "Regge(T, 0)": ("T", DCOV, (2, 2), None, True, ("G", 0)),
    "Bernstein(T, 2)": ("T", A, (), 0, False, None), "Ser(Q, 1)": ("Q", A, (), 0, False, None), "DPC(Q, 1)": ("Q", A, (), 0, True, ("D", 1)),
    "Flat(TP(CG(I, 1), CG(I, 1)))": ("Q", A, (), 0, False, None),
    "TP(CG(I, 1), DG(I, 0))": ("IxI", A, (), 1, False, None), "TP(CG(T, 1), DG(I, 0))": ("TxI", A, (), 1, False, None),
    "TP(RT(T, 1), DG(I, 0))": ("TxI", CONP, (2,), 2, False, None), "TP(N1(T, 1), CG(I, 1))": ("TxI", COVP, (2,), 1, False, None),
}


def independent(a, b):
    """are the primal spaces linearly independent?  (True, False or UNSPEC)"""
    p, q = sorted([a, b])
    if p == q:
        return False
    if {p[0], q[0]} == {"P", "B"} or {p[0], q[0]} == {"P", "F"}:
        P, B = (p, q) if p[0] == "P" else (q, p)
        if P[2] == 0:
            return UNSPEC        # share the node at the midpoint: independent but not unisolvent
        return P[2] < B[1]       # all Lagrange degrees here lie below the bubble or contain it
    if p[0] == q[0] == "P":
        return False             # nested
    if {p[0], q[0]} == {"B", "F"}:
        return True
    if p[0] == q[0] == "B":
        return False             # P3 bubble lies in the P4 bubbles
    if {p[0], q[0]} == {"R", "V"}:
        return False             # lowest-order RT lies in P1^2
    return UNSPEC


def pair(cfg, ctx):
    from .. import h
    a = cfg[1]
    ca, ma, sa, ka, na, pa = PAIR[a]
    ns = namespace()
    op = ctx.choose("op", ["Enr", "NEnr", "Mixed", "TP", "Hdiv", "Hcurl", "Flat"])
    if op in ("Hdiv", "Hcurl", "Flat"):
        what = "%s(%s)" % (op, a)
        if op == "Flat":
            want = 4 if a.startswith("Flat") else h.element(a).space_dimension() if ca == "IxI" else UNSPEC if a.startswith("DPC") or a.startswith("Ser") else None
            if ca in ("Q",):
                want = UNSPEC
        elif "x" not in ca:
            want = None
        else:
            n = sum(cells.cell(ca).dims)
            want = h.element(a).space_dimension() if ka == (n - 1 if op == "Hdiv" else 1) else None
        e = h.element(a)
        r = judge(ctx, lambda: ns[op](e), want, op, what)
        if r is not None and want is not UNSPEC:
            usable(ctx, r, ca, want, what)
        return
    b = ctx.choose("with", list(PAIR))
    cb, mb, sb, kb, nb, pb = PAIR[b]
    ea, eb = h.element(a), h.element(b)
    dim = ea.space_dimension() + eb.space_dimension()
    if a == b:
        eb = h.element(b, fresh=True)
    what = "%s(%s, %s)" % (op, a, b)
    cell = ca
    if op == "Enr":
        # cells: same object or equal; CG on the UFC and the default cell differ
        want = dim if ca == cb and ma == mb and sa == sb else None
        if want and a == b:
            want = UNSPEC      # cells are compared by identity or equality
        make = lambda: ns["Enr"](ea, eb)  # noqa: E731
    elif op == "NEnr":
        if ca != cb or ma != mb or sa != sb or not (na and nb):
            want = None
        else:
            ind = independent(pa, pb)
            want = UNSPEC if ind is UNSPEC else dim if ind else None
        make = lambda: ns["NEnr"](ea, eb)  # noqa: E731
    elif op == "Mixed":
        want = dim if ca == cb else None
        make = lambda: ns["Mixed"]([ea, eb])  # noqa: E731
    else:
        want = None if ma != A and mb != A else ea.space_dimension() * eb.space_dimension()
        if "Flat" in a + b or "Ser" in a + b or "DPC" in a + b or "Bern" in a + b or "Regge" in a + b or "x" in ca + cb or "Hermite" in a + b \
                or "TP" in a + b or sb or sa and cb != "I":      # documented as not supported (yet)
            want = None if want is None else UNSPEC
        make = lambda: ns["TP"](ea, eb)  # noqa: E731
        cell = "%sx%s" % (ca, cb)
    r = judge(ctx, make, want, op, what)
    if r is not None and want is not UNSPEC:
        if op == "NEnr" or op == "TP" and (sa or sb):
            ctx.eq(r.space_dimension(), want, "dimension", what)
        else:
            usable(ctx, r, cell, want, what, not (op == "Mixed"))


REST = ["CG(T, 1)", "CG(T, 3)", "CG(I, 3)", "CG(S, 2)", "DG(T, 1)", "RT(T, 2)", "N1(S, 1)"]
# dofs per entity dimension
CNT = {"CG(T, 1)": {0: 1}, "CG(T, 3)": {0: 1, 1: 2, 2: 1}, "CG(I, 3)": {0: 1, 1: 2}, "CG(S, 2)": {0: 1, 1: 1}, "DG(T, 1)": {2: 3},
       "RT(T, 2)": {1: 2, 2: 2}, "N1(S, 1)": {1: 1}}


def restrict(cfg, ctx):
    from .. import h
    e = h.element(cfg[1])
    ns = namespace()
    nd = e.space_dimension()
    how = ctx.choose("how", ["domain", "indices", "nothing", "both", "string"])
    if how == "nothing":
        judge(ctx, lambda: ns["Res"](e), None, "Res", "Res(%s)" % cfg[1])
    elif how == "string":
        judge(ctx, lambda: ns["Res"](e, "vertex"), None, "Res", "Res(%s, 'vertex')" % cfg[1])
    elif how == "both":
        r = judge(ctx, lambda: ns["Res"](e, indices=[0], restriction_domain="vertex"), UNSPEC, "Res", "both")
    elif how == "domain":
        d = ctx.choose("domain", ["vertex", "edge", "face", "facet", "interior", "cell", "", "Vertex", "volume", "foo"])
        c = cells.cell(cfg[1].split("(")[1].split(",")[0])
        sd = c.sd
        cnt = {dim: CNT[cfg[1]].get(dim, 0) * len(ents) for dim, ents in e.get_reference_element().get_topology().items()}
        dims = {"vertex": 0, "edge": 1, "face": 2, "facet": sd - 1}
        if d == "interior":
            want = cnt[sd] or None
        elif d in dims:
            dd = dims[d]
            want = None if dd > sd else sum(cnt[i] for i in range(dd + 1)) or None
        else:
            want = None
        what = "Res(%s, restriction_domain=%r)" % (cfg[1], d)
        r = judge(ctx, lambda: ns["Res"](e, restriction_domain=d), want, "Res", what)
        if r is not None:
            ctx.eq(r.space_dimension(), want, "dimension", what)
    else:
        m = ctx.choose("length", [0, 1, 2])
        top = min(nd, 7)
        idx = [ctx.choose("index %d" % i, [-1, nd, nd + 3] + list(range(top))) for i in range(m)]
        want = m if m and min(idx) >= 0 and max(idx) < nd and len(set(idx)) == m else None
        what = "Res(%s, indices=%s)" % (cfg[1], idx)
        r = judge(ctx, lambda: ns["Res"](e, indices=idx), want, "Res", what)
        if r is not None:
            ctx.eq(r.space_dimension(), want, "dimension", what)


QE = "QE(T, [(0.1, 0.2)])"
# call, must it be accepted?
SINGLE = [
    ("Enr()", 0), ("NEnr()", 0), ("Mixed([])", 0), ("TP(CG(I, 1))", 0), ("Dis(5)", 0), ("Enr(CG(T, 1), CG(T, 1))", 1), ("Mixed([CG(T, 1), RT(T, 1)])", 1),
    ("Enr(RT(T, 1), RT(T, 2))", 1),
    (QE, 1), (QE + ".tabulate(0, [(0.1, 0.2)])", 1), (QE + ".tabulate(0, [(0.3, 0.3)])", 0), (QE + ".tabulate(0, [(0.1, 0.2), (0.1, 0.2)])", 0),
    (QE + ".tabulate(1, [(0.1, 0.2)])", 0), (QE + ".tabulate(0, [(0.1,)], (1, 0))", 0), (QE + ".tabulate(0, [(0.1, 0.2)], (2, 0))", 1),
    ("Trace(IxI, (1,))", 0), ("Trace(IxI, (1, 2))", 1), ("Trace(TxI, (1, 2))", 1), ("Trace(TxI, (1, 2, 3))", 0), ("Trace(T, (1, 2))", 0), ("Trace(T, (1,))", 0),
    ("Trace(Q, (1, 2))", 0),
    ("create_quadrature(T, (2, 3))", 0), ("create_quadrature(I, (2, 3))", 0), ("make_quadrature(TxI, (2, 2))", 0),
    ("QuadratureRule(T, [(0, 0)], [1, 2])", 0), ("QuadratureRule(T, [(0, 0), (1, 0)], [1])", 0), ("QuadratureRule(T, [(0, 0)], [1])", 1),
    ("UFCTetrahedronFaceQuadratureRule(0, 1)", 1), ("UFCTetrahedronFaceQuadratureRule(5, 1)", 0), ("UFCTetrahedronFaceQuadratureRule(4, 2)", 0),
    ("ufc_simplex(4)", 0), ("ufc_simplex(-1)", 0), ("ufc_simplex(3)", 1), ("ufc_simplex(0)", 1), ("default_simplex(4)", 0), ("default_simplex(-1)", 0),
    ("default_simplex(2)", 1), ("ufc_cell('foo')", 0), ("ufc_cell('')", 0), ("ufc_cell('interval * foo')", 0), ("ufc_cell('interval * interval')", 1),
    ("ufc_cell('triangle * interval')", 1), ("ufc_cell('quadrilateral')", 1), ("ufc_cell('hexahedron')", 1), ("ufc_cell('tetrahedron')", 1), ("ufc_cell('vertex')", 1),
    ("T.construct_subelement(-1)", 0), ("P.construct_subelement(1)", 0), ("Q.construct_subelement(3)", 0), ("Q.construct_subelement(-1)", 0),
    ("H.construct_subelement(4)", 0), ("H.construct_subelement(-1)", 0), ("Q.construct_subelement(0)", 1), ("H.construct_subelement(2)", 1),
    ("IxI.construct_subelement((1, 0))", 1),
    ("T.get_entity_transform(1, 3)", 0), ("T.get_entity_transform(2, 1)", 0), ("T.get_entity_transform(3, 0)", 0), ("T.get_entity_transform(-1, 0)", 0),
    ("T.get_entity_transform(1, 2)", 1), ("T.get_entity_transform(0, 2)", 1), ("Q.get_entity_transform(1, 4)", 0), ("Q.get_entity_transform(3, 0)", 0),
    ("Q.get_entity_transform(1, 3)", 1), ("H.get_entity_transform(2, 6)", 0), ("H.get_entity_transform(2, 5)", 1), ("H.get_entity_transform(1, 12)", 0),
    ("IxI.get_entity_transform((0, 1), 2)", 0), ("IxI.get_entity_transform((2, 0), 0)", 0), ("IxI.get_entity_transform((0, 1), 1)", 1),
    ("TxI.get_entity_transform((1, 1), 3)", 0), ("TxI.get_entity_transform((1, 1), 2)", 1), ("S.get_entity_transform(2, 4)", 0), ("S.get_entity_transform(1, 6)", 0),
    ("T.make_points(3, 0, 3)", 0), ("T.make_points(1, 5, 3)", 0), ("T.make_points(1, 2, 3)", 1), ("S.make_points(2, 3, 4)", 1),
    ("CG(T, 1).tabulate(0, [(0.1,)], (1, 3))", 0), ("CG(T, 1).tabulate(0, [(0.1,)], (3, 0))", 0), ("CG(T, 1).tabulate(0, [(0.1,)], (1, 2))", 1),
    ("CG(T, 1).tabulate(0, [(0.1, 0.1)], (1, 0))", 0), ("Ser(Q, 1).tabulate(0, [(0.1,)], (1, 7))", 0), ("Ser(Q, 1).tabulate(0, [(0.1,)], (1, 3))", 1),
    ("TP(CG(I, 1), CG(I, 1)).tabulate(0, [(0.1,)], ((0, 1), 5))", 0), ("TP(CG(I, 1), CG(I, 1)).tabulate(0, [(0.1,)], ((0, 1), 1))", 1),
    ("Flat(TP(CG(I, 1), CG(I, 1))).tabulate(0, [(0.1,)], (1, 4))", 0), ("Flat(TP(CG(I, 1), CG(I, 1))).tabulate(0, [(0.1,)], (3, 0))", 0),
    ("Flat(TP(CG(I, 1), CG(I, 1))).tabulate(0, [(0.1,)], (1, 3))", 1),
    ("ONPolynomialSet(T, -1)", 0), ("ONPolynomialSet(Q, 1)", 0), ("ONPolynomialSet(T, 3)", 1), ("ONPolynomialSet(T, 1, (2,))", 1),
    ("ONPolynomialSet(T, 1).take([7])", 0), ("ONPolynomialSet(T, 1).take([2])", 1), ("ONSymTensorPolynomialSet(T, -1)", 0), ("ONSymTensorPolynomialSet(T, 1)", 1),
    ("orthopoly.rec_jacobi(2, -1, 0)", 0), ("orthopoly.rec_jacobi(2, 0, -1)", 0), ("orthopoly.rec_jacobi(3, 0.5, -0.5)", 1), ("orthopoly.rec_jacobi01(0, 0, 0)", 0),
    ("orthopoly.rec_jacobi01(2, -1, 0)", 0), ("orthopoly.rec_jacobi01(2, 0, -1.5)", 0), ("orthopoly.rec_jacobi01(2.5, 0, 0)", 0), ("orthopoly.rec_jacobi01(3, 0, 0)", 1),
    ("functional.IntegralMoment(T, make_quadrature(T, 2), np.ones(4))", 1), ("functional.IntegralMoment(T, make_quadrature(T, 2), np.ones(3))", 0),
    ("functional.ComponentPointEvaluation(T, 2, (2,), (0.1, 0.1))", 0), ("functional.ComponentPointEvaluation(T, -1, (2,), (0.1, 0.1))", 0),
    ("functional.ComponentPointEvaluation(T, 0, (2, 2), (0.1, 0.1))", 0), ("functional.ComponentPointEvaluation(T, 1, (2,), (0.1, 0.1))", 1),
    ("functional.FrobeniusIntegralMoment(T, make_quadrature(T, 2), np.ones((2, 3)))", 0),
    ("functional.FrobeniusIntegralMoment(T, make_quadrature(T, 2), np.ones((2, 4)))", 1),
    ("functional.PointNormalDerivative(S, 0, (0.1, 0.1, 0.1))", 1),
    ("pointwise_dual.compute_pointwise_dual(CG(T, 1), [(0., 0.), (1., 0.), (0., 1.)])", 1),
    ("pointwise_dual.compute_pointwise_dual(CG(T, 1), [(0., 0.), (1., 0.)])", 0),
    ("pointwise_dual.compute_pointwise_dual(CG(T, 1), [(0., 0.), (1., 0.), (.5, 0.)])", 0),
    ("supported('foo')", 0), ("supported('Lagrange')", 1), ("supported('Nedelec 1st kind H(curl)')", 1),
]


def single(cfg, ctx):
    expr, good = SINGLE[cfg[1]]
    ns = namespace()
    ns.update(np=np, functional=functional, orthopoly=orthopoly, pointwise_dual=pointwise_dual,
              create_quadrature=quadrature_schemes.create_quadrature, make_quadrature=quadrature.make_quadrature,
              QuadratureRule=quadrature.QuadratureRule, UFCTetrahedronFaceQuadratureRule=quadrature.UFCTetrahedronFaceQuadratureRule,
              ufc_simplex=reference_element.ufc_simplex, default_simplex=reference_element.default_simplex, ufc_cell=reference_element.ufc_cell,
              ONPolynomialSet=polynomial_set.ONPolynomialSet, ONSymTensorPolynomialSet=polynomial_set.ONSymTensorPolynomialSet,
              supported=lambda n: FIAT.supported_elements[n])
    judge(ctx, lambda: eval(expr, ns), 1 if good else None, "call", expr)


def run(cfg, ctx):
    {"grid": grid, "variant": variant, "rule": rule, "tuple-rule": tuple_rule, "lines": lines, "pair": pair, "restrict": restrict, "single": single}[cfg[0]](cfg, ctx)
