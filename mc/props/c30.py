"""Elements obtained by their registered or exported name are the documented family."""
import numpy as np

from .. import catalog, cells, h, poly, spaces
import FIAT

BOUNDS = {"quick": "every name of the two element registries and every element class exported by the package; every offered cell; degree <= 5 / 4 / 3, positional "
                   "arguments, every dof variant of the H(div) and H(curl) families; dimension, span, layout, mapping and form degree of the result",
          "thorough": "degree <= 9 / 7 / 4"}
LIMIT_S = 300

# documented names of the families; the symbol stands for the documented space and layout in the catalogue
NAMES = {"Argyris": "Argyris", "Bell": "Bell", "Bernstein": "Bernstein", "Brezzi-Douglas-Marini": "BDM",
         "Brezzi-Douglas-Fortin-Marini": "BDFM", "Bubble": "Bubble", "FacetBubble": "FBubble", "Crouzeix-Raviart": "CR",
         "Discontinuous Lagrange": "DG", "S": "Ser", "DPC": "DPC", "Discontinuous Taylor": "Taylor",
         "Discontinuous Raviart-Thomas": "DRT", "Hermite": "Hermite", "Lagrange": "CG", "Kong-Mulder-Veldhuizen": "KMV",
         "Gauss-Lobatto-Legendre": "GLL", "Gauss-Legendre": "GL", "Gauss-Radau": "GR", "Morley": "Morley",
         "Nedelec 1st kind H(curl)": "N1", "Nedelec 2nd kind H(curl)": "N2", "Raviart-Thomas": "RT", "Regge": "Regge",
         "Hellan-Herrmann-Johnson": "HHJ", "Conforming Arnold-Winther": "AW", "Nonconforming Arnold-Winther": "AWnc",
         "Mardal-Tai-Winther": "MTW"}
EXTRA = {"P0": "P0", "Quintic Argyris": "QArgyris"}
CLASSES = {"Argyris": "Argyris", "Bernstein": "Bernstein", "Bell": "Bell", "QuinticArgyris": "QArgyris", "BrezziDouglasMarini": "BDM",
           "BrezziDouglasFortinMarini": "BDFM", "DiscontinuousLagrange": "DG", "DiscontinuousTaylor": "Taylor",
           "DiscontinuousRaviartThomas": "DRT", "Serendipity": "Ser", "DPC": "DPC", "CubicHermite": "Hermite", "Lagrange": "CG",
           "GaussLobattoLegendre": "GLL", "GaussLegendre": "GL", "GaussRadau": "GR", "Morley": "Morley", "Nedelec": "N1",
           "NedelecSecondKind": "N2", "P0": "P0", "RaviartThomas": "RT", "CrouzeixRaviart": "CR", "Regge": "Regge",
           "HellanHerrmannJohnson": "HHJ", "ArnoldWinther": "AW", "ArnoldWintherNC": "AWnc", "MardalTaiWinther": "MTW",
           "Bubble": "Bubble", "FacetBubble": "FBubble", "KongMulderVeldhuizen": "KMV"}
COMPOSE = {"EnrichedElement": ("P0(T), CG(T, 1)", "T", 1, (), 4, {2: 1, 0: 1}),
           "NodalEnrichedElement": ("CG(T, 1), Bubble(T, 3)", "T", 3, (), 4, {0: 1, 2: 1}),
           "TensorProductElement": ("CG(T, 1), DG(I, 1)", "TxI", (1, 1), (), 6, {(0, 1): 2}),
           "BrokenElement": ("CG(T, 2)", "T", 2, (), 6, {2: 6}),
           "HDiv Trace": ("T, 1", "T", None, (), 6, {1: 2})}


def configs(tier):
    out = [("composite", n) for n in COMPOSE] + [("names",)]
    for e in catalog.everything(tier).values():
        fam = e.expr.split("(")[0]
        if e.family in ("product", "combo", "other-cell", None):
            continue
        n = cells.cell(e.cell).sd
        D = e.D if isinstance(e.D, int) else max(e.D)
        top = ({1: 9, 2: 7, 3: 4} if tier == "thorough" else {1: 5, 2: 4, 3: 2 if e.shape else 3})[n]
        if D > top and e.family not in ("Argyris", "QArgyris", "Bell", "KMV", "Bubble") or e.cost > (60 if tier == "thorough" else 6) or D > top + 3:
            continue
        for reg, names in (("supported", NAMES), ("extra", EXTRA), ("class", CLASSES)):
            for nm, sym in names.items():
                if sym == fam:
                    out.append((reg, nm, e.expr))
    return out


def cost(c):
    return catalog.lookup(c[2]).cost if len(c) == 3 else 1


def get(reg, nm):
    if reg == "supported":
        return FIAT.supported_elements[nm]
    if reg == "extra":
        return FIAT.extra_elements[nm]
    return getattr(FIAT, nm)


SIZES = {"Bell": 21, "MTW": 20, "AW": 30, "AWnc": 18}


def run(cfg, ctx):
    if cfg[0] == "names":
        ctx.step()
        ctx.ok(set(NAMES) | set(COMPOSE) <= set(FIAT.supported_elements), "missing-name",
               lambda: sorted((set(NAMES) | set(COMPOSE)) - set(FIAT.supported_elements)))
        ctx.ok(set(EXTRA) <= set(FIAT.extra_elements), "missing-name", lambda: sorted(set(EXTRA) - set(FIAT.extra_elements)))
        ctx.observe("names")
        return
    if cfg[0] == "composite":
        args, cell, D, shape, n, cnt = COMPOSE[cfg[1]]
        el = eval("f(%s)" % args, dict(catalog.namespace(), f=FIAT.supported_elements[cfg[1]]))
        c = cells.cell(cell)
        ctx.step()
        ctx.eq(el.space_dimension(), n, "dimension")
        ctx.eq(tuple(el.value_shape()), shape, "value-shape")
        ed = el.entity_dofs()
        ctx.eq({k: len(ed[k[0]][k[1]]) for k in c.ents}, {k: cnt.get(k[0], 0) for k in c.ents}, "count-per-entity")
        ctx.observe(n)
        return
    reg, nm, expr = cfg
    e = catalog.lookup(expr)
    c = cells.cell(e.cell)
    sym, rest = expr.split("(", 1)
    el = eval("f(" + rest, dict(catalog.namespace(), f=get(reg, nm)))
    ctx.step()
    n = el.space_dimension()
    what = ctx.choose("compare", ["description", "space"])
    if what == "description":
        ctx.eq(tuple(el.value_shape()), tuple(e.shape), "value-shape")
        ctx.eq(set(el.mapping()), {e.mapping}, "mapping")
        if e.counts is not None and sym not in SIZES:
            ed = el.entity_dofs()
            ctx.eq({k: len(ed[k[0]][k[1]]) for k in c.ents}, {k: e.counts.get(k[0], 0) for k in c.ents}, "count-per-entity")
        # the family of nodes decides between elements with the same space and layout
        ctx.observe("%s %d" % (sym, n))
        return
    if e.family == "DPC" or e.family == "Ser":
        lead = None
        E = spaces.simplicial(e)[0]
    else:
        E, lead = spaces.simplicial(e)
    E = E.reshape(len(E), -1)
    ctx.eq(n, SIZES.get(sym, len(E) if h.rank(E) == len(E) else h.rank(E)), "dimension")
    pts = [tuple(p) for p in poly.fit_setup(e.cell, e.D)[0]]
    vals = h.tab0(el, pts)
    C, res = poly.fit(e.cell, e.D, vals)
    ctx.ok(res <= 1e-7 * h.magnitude(C), "not-in-polynomial-space")
    C = C.reshape(n, -1)
    L = C if lead is None else C[:lead]
    ctx.ok(h.in_span(L, E) < 1e-7, "outside-documented-space", nm)
    ctx.ok(h.in_span(E, L) < 1e-6, "documented-space-not-spanned", nm)
    # named by registry or by class, built from its documented arguments: one element
    ref = h.tab0(h.element(expr), pts)
    ctx.close(vals, ref, "differs-from-class", tol=1e-10)
    ctx.observe("%s %d" % (sym, n))
