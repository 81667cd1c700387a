"""Enumeration of the element configurations the checks explore, with what is
documented about each of them.  Nothing here is read from FIAT."""
from math import comb

import FIAT
from FIAT import reference_element as RE
from . import cells
from FIAT.quadrature_element import QuadratureElement
from FIAT.bubble import FacetBubble
from FIAT.discontinuous import DiscontinuousElement
from FIAT.tensor_product import TensorProductElement, FlattenedDimensions
from FIAT.hdivcurl import Hdiv, Hcurl
from FIAT.enriched import EnrichedElement
from FIAT.nodal_enriched import NodalEnrichedElement
from FIAT.mixed import MixedElement
from FIAT.restricted import RestrictedElement
from FIAT.hdiv_trace import HDivTrace
from FIAT.P0 import P0
from FIAT.argyris import QuinticArgyris


def fiat_cell(name):
    if name in _SIMP:
        return _SIMP[name]()
    if name == "Q":
        return RE.UFCQuadrilateral()
    if name == "H":
        return RE.UFCHexahedron()
    return RE.TensorProductCell(*[fiat_cell(p) for p in cells.split_product(name)])


_SIMP = {"P": lambda: RE.ufc_simplex(0), "I": RE.UFCInterval, "T": RE.UFCTriangle, "S": RE.UFCTetrahedron,
         "DI": RE.DefaultLine, "DT": RE.DefaultTriangle, "DS": RE.DefaultTetrahedron,
         "NT": RE.IntrepidTriangle, "NS": RE.IntrepidTetrahedron}


def namespace():
    ns = {k: f() for k, f in _SIMP.items()}
    ns.update(Q=fiat_cell("Q"), H=fiat_cell("H"), IxI=fiat_cell("IxI"), IxIxI=fiat_cell("IxIxI"),
              TxI=fiat_cell("TxI"), IxT=fiat_cell("IxT"), QxI=RE.TensorProductCell(fiat_cell("Q"), fiat_cell("I")))
    ns.update(CG=FIAT.Lagrange, DG=FIAT.DiscontinuousLagrange, GL=FIAT.GaussLegendre,
              GLL=FIAT.GaussLobattoLegendre, GR=FIAT.GaussRadau, RT=FIAT.RaviartThomas,
              DRT=FIAT.DiscontinuousRaviartThomas, BDM=FIAT.BrezziDouglasMarini,
              BDFM=FIAT.BrezziDouglasFortinMarini, N1=FIAT.Nedelec, N2=FIAT.NedelecSecondKind,
              CR=FIAT.CrouzeixRaviart, Regge=FIAT.Regge, HHJ=FIAT.HellanHerrmannJohnson,
              AW=FIAT.ArnoldWinther, AWnc=FIAT.ArnoldWintherNC, MTW=FIAT.MardalTaiWinther,
              Argyris=FIAT.Argyris, QArgyris=QuinticArgyris, Bell=FIAT.Bell, Hermite=FIAT.CubicHermite,
              Morley=FIAT.Morley, Bernstein=FIAT.Bernstein, Taylor=FIAT.DiscontinuousTaylor, P0=P0,
              Bubble=FIAT.Bubble, FBubble=FacetBubble, KMV=FIAT.KongMulderVeldhuizen, Ser=FIAT.Serendipity,
              DPC=FIAT.DPC, Trace=HDivTrace, TP=TensorProductElement, Flat=FlattenedDimensions, Hdiv=Hdiv,
              Hcurl=Hcurl, Enr=EnrichedElement, NEnr=NodalEnrichedElement, Mixed=MixedElement,
              Res=RestrictedElement, Dis=DiscontinuousElement, QE=QuadratureElement)
    return ns


def build(expr):
    """A fresh element, on fresh cells."""
    return eval(expr, namespace())


def pk(n, k):
    return comb(k + n, n) if k >= 0 else 0


class Entry(object):
    def __init__(self, expr, cell, D, family, degree, conf, shape=(), counts=None, mapping="affine",
                 formdegree=0, nodal=True, cost=1.0, variant=None, **kw):
        self.expr, self.cell, self.D, self.family, self.degree = expr, cell, D, family, degree
        self.conf, self.shape, self.counts, self.mapping = conf, shape, counts, mapping
        self.formdegree, self.nodal, self.cost, self.variant = formdegree, nodal, cost, variant
        self.kw = kw

    def __repr__(self):
        return self.expr


SD = {"I": 1, "T": 2, "S": 3, "DI": 1, "DT": 2, "DS": 3, "NT": 2, "NS": 3}
MAXQ = {"I": 9, "T": 6, "S": 4}
MAXT = {"I": 14, "T": 8, "S": 6}


# single higher degrees, above the contiguous ranges of the quick tier
EXTRA = ["CG(T, 7)", "CG(T, 8)", "CG(S, 5)", "DG(T, 6)", "DG(T, 7)", "DG(S, 5)", "Bernstein(T, 8)", "Bernstein(T, 9)",
         "Bernstein(S, 6)", "Taylor(T, 6)", "Taylor(S, 3)", "Bubble(T, 7)", "Bubble(S, 5)", "FBubble(T, 7)",
         "FBubble(S, 5)", "DRT(T, 6)", "DRT(S, 4)", "Regge(T, 5)", "Regge(S, 3)", "HHJ(T, 5)", "Argyris(T, 7)"] + [
    "%s(%s, %d, variant='%s')" % (f, c, k, v) for c, k in (("T", 6), ("S", 4)) for f in ("RT", "N1", "BDM", "N2")
    for v in ("point", "integral") if (c, f, v) not in (("S", "BDM", "integral"), ("S", "N2", "integral"))]


def _cost(cell, k, fam=1.0):
    n = SD[cell]
    base = {1: 0.003 * k, 2: 0.004 * k ** 3.9, 3: 0.02 * k ** 3.9}[n]
    return 0.02 + fam * base


def simplicial(tier="quick", only=("I", "T", "S"), variants=True):
    """All element families on simplices, all degrees up to the bound."""
    big = tier == "thorough"
    MAX = MAXT if big else MAXQ
    out = []

    def add(*a, **k):
        out.append(Entry(*a, **k))

    for c in only:
        n = SD[c]
        V = (c,)
        for k in range(1, MAX[c] + 1):
            add("CG(%s, %d)" % (c, k), c, k, "CG", k, "H1",
                counts={d: pk(d, k - d - 1) for d in range(n + 1)}, formdegree=0, cost=_cost(c, k))
        for k in range(0, MAX[c] + (0 if n == 2 and not big else 1)):
            add("DG(%s, %d)" % (c, k), c, k, "DG", k, "L2", formdegree=n,
                counts={n: pk(n, k)}, cost=_cost(c, k))
        for k in range(0, MAX[c] + (n == 1) - (0 if n == 1 or big else 1)):
            add("Taylor(%s, %d)" % (c, k), c, k, "Taylor", k, "L2", formdegree=n,
                counts={n: pk(n, k)}, cost=_cost(c, k, 1.2))
        for k in range(1, MAX[c] + 2):
            add("Bernstein(%s, %d)" % (c, k), c, k, "Bernstein", k, "H1", nodal=False,
                counts={d: pk(d, k - d - 1) for d in range(n + 1)}, cost=0.2 * k)
        add("P0(%s)" % c, c, 0, "P0", 0, "L2", formdegree=n, counts={n: 1})
        add("CR(%s, 1)" % c, c, 1, "CR", 1, "CR" if n > 1 else "H1", counts={n - 1: 1}, cost=0.1)
        add("Hermite(%s)" % c, c, 3, "Hermite", 3, "Hermite",
            counts={0: n + 1, 2: 1} if n > 1 else {0: 2}, cost=1)
        for k in range(n + 1, MAX[c] + (2 if big and n > 1 else 1)):
            add("Bubble(%s, %d)" % (c, k), c, k, "Bubble", k, "H1", cost=_cost(c, k),
                counts={n: pk(n, k - n - 1)})
        if n > 1:
            for k in range(n, MAX[c] + (1 if big or n == 3 else 0)):
                add("FBubble(%s, %d)" % (c, k), c, k, "FBubble", k, "H1", cost=_cost(c, k),
                    counts={n - 1: pk(n - 1, k - n)})
        if c == "I":
            for k in range(0, MAX[c] + 2):
                add("GL(I, %d)" % k, c, k, "GL", k, "L2", formdegree=1, counts={1: k + 1})
                add("GR(I, %d)" % k, c, k, "GR", k, "L2", formdegree=1, counts={1: k + 1})
                if k > 0:
                    add("GLL(I, %d)" % k, c, k, "GLL", k, "H1", formdegree=0, counts={0: 1, 1: k - 1})
        if n > 1:
            kmax = {2: 5, 3: 3}[n] + (2 if big else 0)
            for k in range(1, kmax + 1):
                vs = [None, "point", "integral"] + ["integral(%d)" % q for q in range(k + 1, k + 3)]
                for v in vs if variants else [None]:
                    if v and "(" in v and not big and (k > 2 or n == 3 and k > 1):
                        continue
                    if v is None and k > 2:
                        continue
                    va = "" if v is None else ", variant=%r" % v
                    ci = _cost(c, k + 1, 1.3)
                    add("RT(%s, %d%s)" % (c, k, va), c, k, "RT", k, "Hdiv", (n,), mapping="contravariant piola",
                        formdegree=n - 1, variant=v, cost=ci,
                        counts={n - 1: pk(n - 1, k - 1), n: n * pk(n, k - 2)})
                    add("BDM(%s, %d%s)" % (c, k, va), c, k, "BDM", k, "Hdiv", (n,),
                        mapping="contravariant piola", formdegree=n - 1, variant=v,
                        cost=ci * (9 if v and n == 3 else 1),
                        counts={n - 1: pk(n - 1, k), n: (k + 1) * (k - 1) if n == 2 else
                                (k + 2) * (k + 1) * (k - 1) // 2})
                    if n == 2:
                        cn1 = {1: k, 2: k * (k - 1)}
                        cn2 = {1: k + 1, 2: (k + 1) * (k - 1)}
                    else:
                        cn1 = {1: k, 2: k * (k - 1), 3: k * (k - 1) * (k - 2) // 2}
                        cn2 = {1: k + 1, 2: (k + 1) * (k - 1), 3: (k + 1) * (k - 1) * (k - 2) // 2}
                    add("N1(%s, %d%s)" % (c, k, va), c, k, "N1", k, "Hcurl", (n,), mapping="covariant piola",
                        formdegree=1, variant=v, cost=ci, counts=cn1)
                    add("N2(%s, %d%s)" % (c, k, va), c, k, "N2", k, "Hcurl", (n,), mapping="covariant piola",
                        formdegree=1, variant=v, cost=ci, counts=cn2)
                add("DRT(%s, %d)" % (c, k), c, k, "DRT", k, "L2", (n,), mapping="contravariant piola",
                    formdegree=n - 1, cost=_cost(c, k + 1, 1.3), counts={n: n * pk(n, k - 1) + pk(n - 1, k - 1)})
            for r in range(0, ({2: 4, 3: 2}[n]) + (1 if big else 0) + 1):
                # dofs: edge r+1, face 3(r+1)r/2, cell 6(r+1)r(r-1)/6
                cnt = {1: r + 1, 2: 3 * (r + 1) * r // 2}
                if n == 3:
                    cnt[3] = (r + 1) * r * (r - 1)
                add("Regge(%s, %d)" % (c, r), c, r, "Regge", r, "Regge", (n, n), counts=cnt, formdegree=None,
                    mapping="double covariant piola", cost=_cost(c, r + 2, 1.0))
                if n == 2:
                    add("HHJ(T, %d)" % r, c, r, "HHJ", r, "HHJ", (2, 2), counts={1: r + 1, 2: 3 * (r + 1) * r // 2},
                        mapping="double contravariant piola", formdegree=None, cost=_cost(c, r + 2))
            for k in range(1, {2: 6, 3: 4}[n]):
                kd = {2: {1: 1, 2: 3, 3: 4, 4: 5, 5: 7}, 3: {1: 1, 2: 4, 3: 5}}[n][k]
                kc = {2: {1: {0: 1}, 2: {0: 1, 1: 1, 2: 1}, 3: {0: 1, 1: 2, 2: 3}, 4: {0: 1, 1: 3, 2: 6},
                          5: {0: 1, 1: 4, 2: 15}},
                      3: {1: {0: 1}, 2: {0: 1, 1: 1, 2: 1, 3: 1}, 3: {0: 1, 1: 2, 2: 3, 3: 4}}}[n][k]
                add("KMV(%s, %d)" % (c, k), c, kd, "KMV", k, "H1", formdegree=0, counts=kc,
                    cost=_cost(c, kd, 1.3))
        if n == 2:
            add("BDFM(T, 2)", c, 2, "BDFM", 2, "Hdiv", (2,), mapping="contravariant piola", formdegree=1,
                counts={1: 2, 2: 3}, cost=0.2)
            add("Morley(T)", c, 2, "Morley", 2, "Morley", counts={0: 1, 1: 1}, cost=0.2)
            for k in range(5, MAX[c] + 1):
                add("Argyris(T, %d)" % k, c, k, "Argyris", k, "C1",
                    counts={0: 6, 1: 1 + 2 * (k - 5), 2: pk(2, k - 6)}, cost=2 * _cost(c, k))
            add("QArgyris(T)", c, 5, "QArgyris", 5, "C1", counts={0: 6, 1: 1}, cost=2)
            add("Bell(T)", c, 5, "Bell", 5, "Bell", counts={0: 6, 1: 1}, cost=2)
            add("MTW(T, 3)", c, 3, "MTW", 3, "Hdiv", (2,), mapping="contravariant piola", formdegree=1,
                counts={1: 3, 2: 0}, cost=0.3)
            add("AW(T, 3)", c, 3, "AW", 3, "Hdivsym", (2, 2), mapping="double contravariant piola",
                formdegree=None, cost=0.4)
            add("AWnc(T, 2)", c, 2, "AWnc", 2, "Hdivsym", (2, 2), mapping="double contravariant piola",
                formdegree=None, cost=0.2)
    if not big and variants and tuple(only) == ("I", "T", "S"):
        have = {e.expr for e in out}
        out += [e for e in simplicial("thorough") if e.expr in EXTRA and e.expr not in have]
    return out


# ---------------------------------------------------------------------------
# product cells, hypercubes, combinations

class F1(object):
    """A factor element: expression, cell, degree per simplex factor, dofs per
    multi-dimension, form degree, value shape, mapping."""

    def __init__(self, expr, cell, D, counts, k, shape=(), mapping="affine", conf="L2"):
        self.expr, self.cell, self.D, self.counts, self.k = expr, cell, D, counts, k
        self.shape, self.mapping, self.conf = shape, mapping, conf
        self.tree = ("leaf",)

    def by(self, *tree):
        self.tree = tree
        return self


def factors():
    out = {}

    def add(name, *a, **k):
        out[name] = F1(name, *a, **k)

    for k in range(1, 7):
        add("CG(I, %d)" % k, "I", (k,), {(0,): 1, (1,): k - 1}, 0, conf="H1")
        add("GLL(I, %d)" % k, "I", (k,), {(0,): 1, (1,): k - 1}, 0, conf="H1")
    for k in range(0, 6):
        add("DG(I, %d)" % k, "I", (k,), {(1,): k + 1}, 1)
        add("GL(I, %d)" % k, "I", (k,), {(1,): k + 1}, 1)
        add("GR(I, %d)" % k, "I", (k,), {(1,): k + 1}, 1)
    for k in range(1, 4):
        add("CG(T, %d)" % k, "T", (k,), {(d,): pk(d, k - d - 1) for d in range(3)}, 0, conf="H1")
        add("CG(S, %d)" % k, "S", (k,), {(d,): pk(d, k - d - 1) for d in range(4)}, 0, conf="H1")
        cn1 = {(1,): k, (2,): k * (k - 1)}
        cn2 = {(1,): k + 1, (2,): (k + 1) * (k - 1)}
        for va in ("", ", variant='integral'"):
            add("RT(T, %d%s)" % (k, va), "T", (k,), cn1, 1, (2,), "contravariant piola", conf="Hdiv")
            add("BDM(T, %d%s)" % (k, va), "T", (k,), cn2, 1, (2,), "contravariant piola", conf="Hdiv")
            add("N1(T, %d%s)" % (k, va), "T", (k,), cn1, 1, (2,), "covariant piola", conf="Hcurl")
            add("N2(T, %d%s)" % (k, va), "T", (k,), cn2, 1, (2,), "covariant piola", conf="Hcurl")
    for k in range(0, 4):
        add("DG(T, %d)" % k, "T", (k,), {(2,): pk(2, k)}, 2)
    return out


FAC = factors()


def tp(a, b):
    cnt = {}
    for da, na in a.counts.items():
        for db, nb in b.counts.items():
            cnt[da + db] = cnt.get(da + db, 0) + na * nb
    conf = a.conf if a.conf == b.conf else ("L2" if a.shape == b.shape else "mixed")
    ca = "(%s)" % a.cell if "x" in a.cell else a.cell
    cb = "(%s)" % b.cell if "x" in b.cell else b.cell
    return F1("TP(%s, %s)" % (a.expr, b.expr), "%sx%s" % (ca, cb), a.D + b.D, cnt,
              a.k + b.k, a.shape or b.shape, a.mapping if a.mapping != "affine" else b.mapping, conf).by("tp", a, b)


def wrap(w, t):
    """Hdiv / Hcurl of a product"""
    n = sum(cells.cell(t.cell).dims)
    return F1("%s(%s)" % (w, t.expr), t.cell, t.D, t.counts, n - 1 if w == "Hdiv" else 1, (n,),
              "contravariant piola" if w == "Hdiv" else "covariant piola", conf=w).by(w, t)


def flat(t):
    n = sum(cells.cell(t.cell).dims)
    return F1("Flat(%s)" % t.expr, {2: "Q", 3: "H"}[n], t.D, t.counts, t.k, t.shape, t.mapping, t.conf).by("flat", t)


def enr(a, b):
    assert a.cell == b.cell and a.shape == b.shape
    cnt = dict(a.counts)
    for k, v in b.counts.items():
        cnt[k] = cnt.get(k, 0) + v
    return F1("Enr(%s, %s)" % (a.expr, b.expr), a.cell, tuple(max(x, y) for x, y in zip(a.D, b.D)), cnt,
              max(a.k, b.k), a.shape, a.mapping, a.conf if a.conf == b.conf else "L2").by("enr", a, b)


def rtcf(k, g="CG", d="DG"):
    g, d = FAC["%s(I, %d)" % (g, k)], FAC["%s(I, %d)" % (d, k - 1)]
    return enr(wrap("Hdiv", tp(g, d)), wrap("Hdiv", tp(d, g)))


def rtce(k, g="CG", d="DG"):
    g, d = FAC["%s(I, %d)" % (g, k)], FAC["%s(I, %d)" % (d, k - 1)]
    return enr(wrap("Hcurl", tp(d, g)), wrap("Hcurl", tp(g, d)))


def product_factors(tier):
    """All product elements explored (F1 objects)."""
    big = tier == "thorough"
    out = []
    one = ["CG(I, 1)", "CG(I, 2)", "CG(I, 3)", "DG(I, 0)", "DG(I, 1)", "DG(I, 2)", "GLL(I, 3)", "GLL(I, 4)",
           "GL(I, 2)", "GR(I, 3)"] + (["CG(I, 4)", "CG(I, 6)", "DG(I, 4)", "GLL(I, 6)", "GL(I, 5)"] if big else [])
    for a in one:
        for b in one:
            out.append(tp(FAC[a], FAC[b]))
    for k in range(1, 6):
        for (x, y) in (("CG", "CG"), ("GLL", "GLL"), ("DG", "DG"), ("GL", "GL")):
            out.append(flat(tp(FAC["%s(I, %d)" % (x, k)], FAC["%s(I, %d)" % (y, k)])))
    out.append(flat(tp(FAC["CG(I, 2)"], FAC["DG(I, 1)"])))
    out.append(flat(tp(FAC["CG(I, 3)"], FAC["CG(I, 1)"])))
    for k in range(1, 6 if not big else 7):
        for g, d in (("CG", "DG"), ("GLL", "GL")):
            out.append(flat(rtcf(k, g, d)))
            out.append(flat(rtce(k, g, d)))
    out += [rtcf(2), rtce(2)]
    # prisms
    for a in ["CG(T, 1)", "CG(T, 2)", "CG(T, 3)", "DG(T, 0)", "DG(T, 1)", "DG(T, 2)"]:
        for b in ["CG(I, 1)", "CG(I, 2)", "DG(I, 0)", "DG(I, 1)", "GLL(I, 3)"]:
            out.append(tp(FAC[a], FAC[b]))
        out.append(tp(FAC["CG(I, 2)"], FAC[a]))
    for k in (1, 2, 3):
        for va in ("", ", variant='integral'"):
            for b in ("DG(I, %d)" % (k - 1), "GL(I, %d)" % k):
                out.append(wrap("Hdiv", tp(FAC["RT(T, %d%s)" % (k, va)], FAC[b])))
                out.append(wrap("Hdiv", tp(FAC["BDM(T, %d%s)" % (k, va)], FAC[b])))
                out.append(wrap("Hdiv", tp(FAC["N1(T, %d%s)" % (k, va)], FAC[b])))
            for b in ("CG(I, %d)" % k, "GLL(I, %d)" % k):
                out.append(wrap("Hcurl", tp(FAC["N1(T, %d%s)" % (k, va)], FAC[b])))
                out.append(wrap("Hcurl", tp(FAC["N2(T, %d%s)" % (k, va)], FAC[b])))
                out.append(wrap("Hcurl", tp(FAC["RT(T, %d%s)" % (k, va)], FAC[b])))
        out.append(wrap("Hdiv", tp(FAC["DG(T, %d)" % (k - 1)], FAC["CG(I, %d)" % k])))
        out.append(wrap("Hcurl", tp(FAC["CG(T, %d)" % k], FAC["DG(I, %d)" % (k - 1)])))
        out.append(wrap("Hdiv", tp(FAC["CG(I, %d)" % k], FAC["DG(T, %d)" % (k - 1)])))
        out.append(wrap("Hcurl", tp(FAC["DG(I, %d)" % (k - 1)], FAC["CG(T, %d)" % k])))
        out.append(enr(wrap("Hdiv", tp(FAC["RT(T, %d)" % k], FAC["DG(I, %d)" % (k - 1)])),
                       wrap("Hdiv", tp(FAC["DG(T, %d)" % (k - 1)], FAC["CG(I, %d)" % k]))))
        out.append(enr(wrap("Hcurl", tp(FAC["N1(T, %d)" % k], FAC["CG(I, %d)" % k])),
                       wrap("Hcurl", tp(FAC["CG(T, %d)" % k], FAC["DG(I, %d)" % (k - 1)]))))
    # hexahedra
    for k in (1, 2, 3) if not big else (1, 2, 3, 4):
        q = flat(tp(FAC["CG(I, %d)" % k], FAC["CG(I, %d)" % k]))
        dq = flat(tp(FAC["DG(I, %d)" % (k - 1)], FAC["DG(I, %d)" % (k - 1)]))
        g, d = FAC["CG(I, %d)" % k], FAC["DG(I, %d)" % (k - 1)]
        out += [flat(tp(q, g)), flat(tp(dq, d)), tp(q, g)]
        f, e = flat(rtcf(k)), flat(rtce(k))
        if k <= 2 or big:
            ncf = enr(wrap("Hdiv", tp(f, d)), wrap("Hdiv", tp(dq, g)))
            nce = enr(wrap("Hcurl", tp(e, g)), wrap("Hcurl", tp(q, d)))
            ncf2 = enr(wrap("Hdiv", tp(e, d)), wrap("Hdiv", tp(dq, g)))
            nce2 = enr(wrap("Hcurl", tp(f, g)), wrap("Hcurl", tp(q, d)))
            out += [flat(ncf), flat(nce), ncf, nce]
            if k == 2:
                out += [flat(ncf2), flat(nce2)]
    q1, q2 = flat(tp(FAC["CG(I, 1)"], FAC["CG(I, 1)"])), flat(tp(FAC["CG(I, 2)"], FAC["CG(I, 2)"]))
    out += [flat(tp(q2, FAC["CG(I, 1)"])), tp(FAC["CG(I, 2)"], q1), flat(tp(FAC["CG(I, 3)"], q1)),
            tp(tp(FAC["CG(I, 1)"], FAC["CG(I, 2)"]), FAC["DG(I, 1)"]),
            tp(FAC["DG(I, 1)"], tp(FAC["CG(I, 1)"], FAC["CG(I, 2)"])),
            tp(tp(FAC["CG(T, 1)"], FAC["CG(I, 1)"]), FAC["CG(I, 2)"]),
            tp(FAC["CG(T, 1)"], FAC["CG(T, 2)"]), tp(FAC["CG(S, 1)"], FAC["CG(I, 2)"]),
            tp(FAC["CG(S, 2)"], FAC["DG(I, 1)"])]
    seen, uniq = set(), []
    for f in out:
        if f.expr not in seen:
            seen.add(f.expr)
            uniq.append(f)
    return uniq


def products(tier="quick"):
    out = []
    for f in product_factors(tier):
        n = 1
        dims = cells.cell(f.cell).dims
        for d, k in zip(dims, f.D):
            n *= pk(d, k)
        out.append(Entry(f.expr, f.cell, f.D, "product", max(f.D), f.conf, f.shape, counts=None, pcounts=f.counts,
                         mapping=f.mapping, formdegree=f.k, f1=f, cost=0.05 + 0.0005 * n * (3 if f.shape else 1)))
    big = tier == "thorough"
    for k in range(1, 10 if not big else 12):
        out.append(Entry("Ser(Q, %d)" % k, "Q", (k, k), "Ser", k, "H1", counts={0: 1, 1: k - 1, 2: _tr(k)},
                         formdegree=0, cost=0.3 * k))
    out.append(Entry("Ser(IxI, 3)", "IxI", (3, 3), "Ser", 3, "H1", pcounts={(0, 0): 1, (0, 1): 2, (1, 0): 2}, counts=None, cost=1))
    for k in range(1, 8 if not big else 9):
        out.append(Entry("Ser(H, %d)" % k, "H", (k, k, k), "Ser", k, "H1",
                         counts={0: 1, 1: k - 1, 2: _tr(k), 3: comb(k - 3, 3) if k >= 6 else 0}, formdegree=0, cost=1.5 * k))
    for c, n, mx in (("I", 1, 6), ("Q", 2, 6), ("H", 3, 4)):
        for k in range(0, mx + (2 if big else 1)):
            out.append(Entry("DPC(%s, %d)" % (c, k), c, (k,) * n, "DPC", k, "L2", counts={n: pk(n, k)}, formdegree=n,
                             cost=_cost("ITS"[n - 1], k)))
    return out


def _tr(k):
    return (k - 3) * (k - 2) // 2 if k >= 4 else 0


def combos(tier="quick"):
    """Combined elements that have no entry of their own: (expr, cell, D, shape)."""
    L = [("Enr(CG(T, 1), Bubble(T, 3))", "T", 3, ()), ("Enr(CG(T, 2), Bubble(T, 3))", "T", 3, ()),
         ("Enr(CG(S, 1), Bubble(S, 4))", "S", 4, ()), ("Enr(CG(S, 1), FBubble(S, 3), Bubble(S, 4))", "S", 4, ()),
         ("Enr(P0(T), CG(T, 1))", "T", 1, ()), ("Enr(CG(I, 1), Bubble(I, 2), Bubble(I, 3))", "I", 3, ()),
         ("Enr(RT(T, 1), Res(RT(T, 2), restriction_domain='interior'))", "T", 2, (2,)),
         ("Enr(RT(S, 1), Res(RT(S, 2), restriction_domain='interior'))", "S", 2, (3,)),
         ("Enr(N1(T, 1), Dis(N1(T, 2)))", "T", 2, (2,)), ("Enr(Regge(T, 0), Regge(T, 1))", "T", 1, (2, 2)),
         ("Enr(HHJ(T, 1), Res(HHJ(T, 2), restriction_domain='interior'))", "T", 2, (2, 2)),
         ("Enr(Bernstein(T, 2), Bubble(T, 3))", "T", 3, ()),
         ("Enr(TP(CG(I, 1), CG(I, 1)), TP(Bubble(I, 2), Bubble(I, 2)))", "IxI", (2, 2), ()),
         ("NEnr(CG(I, 1), Bubble(I, 2))", "I", 2, ()), ("NEnr(CG(T, 1), Bubble(T, 3))", "T", 3, ()),
         ("NEnr(CG(T, 1), FBubble(T, 2), Bubble(T, 3))", "T", 3, ()), ("NEnr(CG(S, 1), FBubble(S, 3))", "S", 3, ()),
         ("NEnr(CG(S, 1), Bubble(S, 4))", "S", 4, ()),
         ("NEnr(RT(T, 1), Res(RT(T, 2), restriction_domain='interior'))", "T", 2, (2,)),
         ("NEnr(Regge(S, 1), Res(Regge(S, 2), restriction_domain='interior'))", "S", 2, (3, 3)),
         ("Mixed([CG(T, 2), DG(T, 1)])", "T", 2, (2,)), ("Mixed([CG(T, 2), RT(T, 1), DG(T, 0)])", "T", 2, (4,)),
         ("Mixed([BDM(S, 1), DG(S, 0)])", "S", 1, (4,)), ("Mixed([Regge(T, 1), CG(T, 2)])", "T", 2, (5,)),
         ("Mixed([CG(I, 1)])", "I", 1, (1,)), ("Mixed([CG(I, 1), CG(I, 3), DG(I, 0)])", "I", 3, (3,)),
         ("Mixed([Flat(TP(CG(I, 2), CG(I, 2))), DPC(Q, 1)])", "Q", (2, 2), (2,)),
         ("Mixed([Mixed([CG(T, 1), CG(T, 1)]), P0(T)])", "T", 1, (3,)),
         ("Mixed([TP(CG(T, 1), CG(I, 2)), Hdiv(TP(DG(T, 0), CG(I, 1)))])", "TxI", (1, 2), (4,)),
         ("Res(CG(T, 3), restriction_domain='facet')", "T", 3, ()), ("Res(CG(S, 3), restriction_domain='edge')", "S", 3, ()),
         ("Res(RT(T, 2), restriction_domain='interior')", "T", 2, (2,)), ("Res(N1(S, 2), restriction_domain='face')", "S", 2, (3,)),
         ("Res(Regge(S, 1), restriction_domain='edge')", "S", 1, (3, 3)), ("Res(CG(T, 2), indices=[3, 0, 5])", "T", 2, ()),
         ("Dis(CG(T, 3))", "T", 3, ()), ("Dis(RT(S, 2))", "S", 2, (3,)), ("Dis(HHJ(T, 1))", "T", 1, (2, 2)),
         ("Dis(Flat(TP(CG(I, 2), CG(I, 2))))", "Q", (2, 2), ()), ("Dis(TP(CG(T, 1), CG(I, 2)))", "TxI", (1, 2), ()),
         ("Dis(Ser(Q, 3))", "Q", (3, 3), ()), ("Dis(Bernstein(S, 3))", "S", 3, ()),
         ("Dis(Enr(CG(T, 1), Bubble(T, 3)))", "T", 3, ()), ("TP(Dis(CG(I, 2)), CG(I, 1))", "IxI", (2, 1), ()),
         ("Flat(Dis(TP(CG(I, 2), CG(I, 1))))", "Q", (2, 1), ()), ("Flat(Dis(Hdiv(TP(CG(I, 2), DG(I, 1)))))", "Q", (2, 1), (2,)),
         ("TP(Enr(CG(T, 1), Bubble(T, 3)), CG(I, 1))", "TxI", (3, 1), ()),
         ("TP(Res(CG(T, 2), restriction_domain='vertex'), DG(I, 1))", "TxI", (2, 1), ()),
         ("TP(KMV(T, 2), GLL(I, 3))", "TxI", (3, 3), ()), ("TP(DPC(Q, 2), CG(I, 2))", "QxI", (2, 2, 2), ()),
         # deeper and less usual nestings
         ("Mixed([Enr(CG(T, 1), Bubble(T, 3)), Enr(CG(T, 1), Bubble(T, 3)), CG(T, 1)])", "T", 3, (3,)),
         ("Mixed([Mixed([RT(T, 1), P0(T)]), Mixed([CG(T, 1)])])", "T", 1, (4,)),
         ("Mixed([AW(T, 3), DG(T, 1), DG(T, 1)])", "T", 3, (6,)), ("Mixed([MTW(T, 3), P0(T)])", "T", 3, (3,)),
         ("Mixed([Hermite(T), Morley(T)])", "T", 3, (2,)), ("Mixed([Ser(Q, 2), DPC(Q, 1)])", "Q", (2, 2), (2,)),
         ("Mixed([Res(CG(T, 2), restriction_domain='edge'), Dis(BDM(T, 1))])", "T", 2, (3,)),
         ("Mixed([Flat(Hdiv(TP(CG(I, 1), DG(I, 0)))), Flat(TP(DG(I, 0), DG(I, 0)))])", "Q", (1, 1), (3,)),
         ("Mixed([KMV(T, 2), Bernstein(T, 2)])", "T", 3, (2,)), ("Mixed([N1(S, 1), CG(S, 1)])", "S", 1, (4,)),
         ("Enr(Mixed([CG(T, 1), CG(T, 1)]), Mixed([Bubble(T, 3), Bubble(T, 3)]))", "T", 3, (2,)),
         ("Enr(Enr(CG(T, 1), FBubble(T, 2)), Bubble(T, 3))", "T", 3, ()),
         ("Enr(Flat(TP(CG(I, 1), CG(I, 1))), Flat(TP(Bubble(I, 2), Bubble(I, 2))))", "Q", (2, 2), ()),
         ("Enr(Ser(Q, 2), Flat(TP(Bubble(I, 2), Bubble(I, 2))))", "Q", (2, 2), ()),
         ("Enr(Morley(T), Bubble(T, 3))", "T", 3, ()), ("Enr(Hermite(I), Bubble(I, 4))", "I", 4, ()),
         ("NEnr(NEnr(CG(T, 1), FBubble(T, 2)), Bubble(T, 3))", "T", 3, ()),
         ("NEnr(N1(S, 1), Res(N1(S, 2), indices=[12, 13, 14, 15, 16, 17, 18, 19]))", "S", 2, (3,)),
         ("NEnr(DG(T, 1), Bubble(T, 3))", "T", 3, ()),
         ("Res(Res(CG(T, 3), restriction_domain='facet'), restriction_domain='vertex')", "T", 3, ()),
         ("Res(Dis(CG(T, 2)), indices=[1, 4])", "T", 2, ()), ("Res(NEnr(CG(T, 1), Bubble(T, 3)), restriction_domain='interior')", "T", 3, ()),
         ("Res(BDM(S, 1), restriction_domain='facet')", "S", 1, (3,)), ("Res(Argyris(T, 5), restriction_domain='vertex')", "T", 5, ()),
         ("Dis(Dis(N1(T, 1)))", "T", 1, (2,)), ("Dis(Mixed([CG(T, 1), RT(T, 1)]))", "T", 1, (3,)), ("Dis(KMV(T, 2))", "T", 3, ()),
         ("Dis(Morley(T))", "T", 2, ()), ("Dis(NEnr(CG(T, 1), Bubble(T, 3)))", "T", 3, ()),
         ("TP(Hermite(I), Hermite(I))", "IxI", (3, 3), ()), ("TP(CG(I, 1), Hermite(I))", "IxI", (1, 3), ()), ("TP(Hermite(I), CG(I, 2))", "IxI", (3, 2), ()),
         ("Flat(TP(Hermite(I), Hermite(I)))", "Q", (3, 3), ()), ("TP(Morley(T), DG(I, 0))", "TxI", (2, 0), ()),
         ("TP(CR(T, 1), CG(I, 2))", "TxI", (1, 2), ()), ("TP(Taylor(T, 1), DG(I, 1))", "TxI", (1, 1), ()),
         ("TP(NEnr(CG(T, 1), Bubble(T, 3)), CG(I, 2))", "TxI", (3, 2), ()), 
         ("TP(CG(T, 1), CR(T, 1))", "TxT", (1, 1), ()),
         ("Hdiv(TP(Enr(CG(I, 1), Bubble(I, 2)), DG(I, 1)))", "IxI", (2, 1), (2,)),
         ("Hcurl(TP(Res(CG(T, 2), restriction_domain='edge'), DG(I, 1)))", "TxI", (2, 1), (3,)),
         ("Hdiv(TP(BDFM(T, 2), DG(I, 1)))", "TxI", (2, 1), (3,)),
         ]
    # simplices with other vertex conventions
    for c, n, mx in (("DI", 1, 5), ("DT", 2, 4), ("DS", 3, 3), ("NT", 2, 4), ("NS", 3, 3)):
        for k in range(1, mx + 1):
            L.append(("CG(%s, %d)" % (c, k), c, k, ()))
            L.append(("DG(%s, %d)" % (c, k), c, k, ()))
            L.append(("Taylor(%s, %d)" % (c, k), c, k, ()))
            if n > 1 and k <= n:
                for f in ("RT", "N1", "BDM"):
                    for va in ("", ", variant='integral'") if k < 3 else ("",):
                        L.append(("%s(%s, %d%s)" % (f, c, k, va), c, k, (n,)))
                L.append(("Regge(%s, %d)" % (c, k - 1), c, k - 1, (n, n)))
        L.append(("P0(%s)" % c, c, 0, ()))
        L.append(("CR(%s, 1)" % c, c, 1, ()))
        L.append(("Hermite(%s)" % c, c, 3, ()))
    L += [("Morley(DT)", "DT", 2, ()), ("Argyris(DT, 5)", "DT", 5, ()), ("Morley(NT)", "NT", 2, ()), ("Argyris(NT, 5)", "NT", 5, ()),
          ("GL(DI, 3)", "DI", 3, ()), ("GLL(DI, 3)", "DI", 3, ()), ("GR(DI, 3)", "DI", 3, ()), ("HHJ(DT, 1)", "DT", 1, (2, 2)),
          ("HHJ(NT, 1)", "NT", 1, (2, 2)), ("KMV(DT, 2)", "DT", 3, ()) if False else ("Bubble(DT, 3)", "DT", 3, ()),
          ("TP(CG(DI, 2), CG(DI, 1))", "DIxDI", (2, 1), ()), ("TP(CG(DT, 2), CG(DI, 2))", "DTxDI", (2, 2), ())]
    out = []
    for expr, c, D, shape in L:
        fam = "combo" if cells.cell(c).name in ("T", "S", "I", "Q") or "x" in c else "other-cell"
        out.append(Entry(expr, c, D, fam, None, None, shape, counts=None, formdegree=None,
                         cost=1.5 if "S" in c and D == 3 else 0.5, nodal=("NEnr" in expr or expr.startswith("Res"))))
    return out


_ALL = {}


def everything(tier="quick"):
    """expr -> Entry over the whole explored space of elements"""
    if tier not in _ALL:
        d = {}
        for e in simplicial(tier) + products(tier) + combos(tier):
            d.setdefault(e.expr, e)
        _ALL[tier] = d
    return _ALL[tier]


def lookup(expr):
    for t in ("quick", "thorough"):
        if expr in everything(t):
            return everything(t)[expr]
    raise KeyError(expr)
