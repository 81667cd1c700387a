"""Combinators (enriched, mixed, restricted, discontinuous, nodally enriched) against their parts."""
import itertools

import numpy as np
import FIAT

from .. import h, catalog, cells, poly

BOUNDS = {"quick": "enriched: all lists of 1..2 (3 on small menus) compatible parts, parts that are mixed themselves, mixed: all lists of 1..2 (3) parts, nested to depth 2; restricted: every "
                   "domain and every non-empty index set of elements of dimension <= 6, single/complement sets beyond; discontinuous: every menu "
                   "element; nodal enrichment: all direct sums of menu lists; every entity, derivative orders 0..2",
          "thorough": "lists of 3 parts on all menus, index sets to dimension 10"}
LIMIT_S = 300
AFF, CON, COV = "affine", "contravariant piola", "covariant piola"

RTCF = "Flat(Enr(Hdiv(TP(CG(I, 1), DG(I, 0))), Hdiv(TP(DG(I, 0), CG(I, 1)))))"
# cell -> {expr: (group, degree)} ; elements of one group can be enriched with each other
MENU = {
    "I": {"CG(I, 1)": "s", "CG(I, 2)": "s", "Bubble(I, 3)": "s", "DG(I, 0)": "s", "GLL(I, 3)": "s", "GL(I, 1)": "s", "Hermite(I)": "s",
          "Taylor(I, 1)": "s", "Bernstein(I, 2)": "s", "Enr(CG(I, 1), Bubble(I, 2))": "s"},
    "T": {"CG(T, 1)": "s", "CG(T, 2)": "s", "Bubble(T, 3)": "s", "DG(T, 1)": "s", "P0(T)": "s", "CR(T, 1)": "s", "FBubble(T, 2)": "s",
          "Morley(T)": "s", "Bernstein(T, 2)": "s", "KMV(T, 2)": "s", "Dis(CG(T, 1))": "s",
          "RT(T, 1)": "d", "BDM(T, 1)": "d", "RT(T, 2, variant='integral')": "d",
          "Res(RT(T, 2), restriction_domain='interior')": "d", "N1(T, 1)": "c", "N2(T, 1, variant='integral')": "c",
          "Regge(T, 1)": "r", "Regge(T, 0)": "r", "HHJ(T, 0)": "h"},
    "S": {"CG(S, 1)": "s", "Bubble(S, 4)": "s", "FBubble(S, 3)": "s", "DG(S, 0)": "s", "Hermite(S)": "s", "RT(S, 1)": "d", "BDM(S, 1)": "d",
          "N1(S, 1)": "c", "N2(S, 1)": "c", "Regge(S, 0)": "r"},
    "Q": {"Flat(TP(CG(I, 1), CG(I, 1)))": "s", "Ser(Q, 2)": "s", "DPC(Q, 1)": "s", "Flat(TP(DG(I, 0), DG(I, 0)))": "s", RTCF: "d",
          "Flat(Hdiv(TP(CG(I, 2), DG(I, 1))))": "d"},
    "IxI": {"TP(CG(I, 1), CG(I, 1))": "s", "TP(Bubble(I, 2), Bubble(I, 2))": "s", "Ser(IxI, 2)": "s",
            "Hdiv(TP(CG(I, 1), DG(I, 0)))": "d", "Hdiv(TP(DG(I, 0), CG(I, 1)))": "d", "Hcurl(TP(DG(I, 0), CG(I, 1)))": "c"},
    "TxI": {"TP(CG(T, 1), CG(I, 1))": "s", "TP(DG(T, 0), DG(I, 1))": "s", "TP(Bubble(T, 3), Bubble(I, 2))": "s",
            "Hdiv(TP(RT(T, 1), DG(I, 0)))": "d", "Hdiv(TP(DG(T, 0), CG(I, 1)))": "d", "Hcurl(TP(N1(T, 1), CG(I, 1)))": "c"},
}
DEEP = {"I": ["Mixed([CG(I, 1), DG(I, 0)])", "Res(CG(I, 3), indices=[1, 3])"],
        "T": ["Mixed([CG(T, 1), RT(T, 1)])", "Enr(CG(T, 1), Bubble(T, 3))", "Enr(RT(T, 1), Res(RT(T, 2), restriction_domain='interior'))",
              "NEnr(CG(T, 1), Bubble(T, 3))", "Dis(RT(T, 1))", "Mixed([Regge(T, 0), CG(T, 1)])"],
        "S": ["Enr(CG(S, 1), FBubble(S, 3), Bubble(S, 4))", "Mixed([N1(S, 1), DG(S, 0)])"],
        "Q": ["Mixed([" + RTCF + ", DPC(Q, 0)])", "Dis(Ser(Q, 2))"],
        "IxI": ["Enr(Hdiv(TP(CG(I, 1), DG(I, 0))), Hdiv(TP(DG(I, 0), CG(I, 1))))"],
        "TxI": ["Mixed([TP(CG(T, 1), CG(I, 1)), Hdiv(TP(DG(T, 0), CG(I, 1)))])"]}
# enriched elements whose parts are mixed elements
MENR = [("I", ("Mixed([CG(I, 1), CG(I, 1)])", "Mixed([Bubble(I, 2), Bubble(I, 2)])")),
        ("T", ("Mixed([CG(T, 1), CG(T, 1)])", "Mixed([Bubble(T, 3), Bubble(T, 3)])", "Mixed([FBubble(T, 2), P0(T)])")),
        ("T", ("RT(T, 1)", "Dis(RT(T, 1))", "Res(RT(T, 2), indices=[6, 7])")),
        ("S", ("Mixed([CG(S, 1)] * 3)", "Mixed([Bubble(S, 4)] * 3)")),
        ("Q", ("Mixed([Ser(Q, 1), DPC(Q, 1)])", "Mixed([DPC(Q, 0), Flat(TP(CG(I, 1), CG(I, 1)))])")),
        ("TxI", ("Mixed([TP(CG(T, 1), CG(I, 1)), TP(DG(T, 0), CG(I, 1))])", "Mixed([TP(CG(T, 1), DG(I, 0)), TP(Bubble(T, 3), Bubble(I, 2))])"))]
# restricted elements: (expr, cell, dimension)
RES = [("CG(I, 1)", "I", 2), ("CG(I, 3)", "I", 4), ("GLL(I, 4)", "I", 5), ("CG(T, 1)", "T", 3), ("CG(T, 2)", "T", 6), ("CG(T, 4)", "T", 15),
       ("CR(T, 1)", "T", 3), ("Morley(T)", "T", 6), ("RT(T, 1)", "T", 3), ("RT(T, 2)", "T", 8), ("BDM(T, 1)", "T", 6),
       ("BDM(T, 2, variant='integral')", "T", 12), ("N1(T, 2)", "T", 8), ("N2(T, 1)", "T", 6), ("Regge(T, 0)", "T", 3), ("Regge(T, 1)", "T", 9),
       ("HHJ(T, 0)", "T", 3), ("HHJ(T, 1)", "T", 9), ("CG(S, 1)", "S", 4), ("CG(S, 3)", "S", 20), ("CG(S, 4)", "S", 35), ("RT(S, 1)", "S", 4),
       ("RT(S, 2)", "S", 15), ("N1(S, 1)", "S", 6), ("N1(S, 2)", "S", 20), ("N1(S, 3, variant='integral')", "S", 45), ("BDM(S, 2)", "S", 30),
       ("N2(S, 2)", "S", 30), ("Regge(S, 0)", "S", 6), ("Regge(S, 1)", "S", 24), ("KMV(T, 2)", "T", 7), ("Hermite(T)", "T", 10),
       ("Hermite(S)", "S", 20), ("Argyris(T, 5)", "T", 21), ("NEnr(CG(T, 1), Bubble(T, 3))", "T", 4), ("Dis(CG(T, 2))", "T", 6),
       ("Res(CG(T, 3), restriction_domain='facet')", "T", 9), ("DG(T, 1)", "T", 3), ("DG(T, 2)", "T", 6), ("GL(I, 3)", "I", 4),
       ("CG(DT, 3)", "DT", 10), ("N1(NS, 1)", "NS", 6), ("Bubble(T, 4)", "T", 3), ("FBubble(T, 2)", "T", 3), ("FBubble(T, 3)", "T", 6)]
HEAVY = ("Argyris(T, 5)", "N1(S, 3, variant='integral')", "Hermite(S)", "CG(S, 4)")
# nodal enrichment: direct sums (expr parts, cell, embedding degree)
NENR = [(("CG(I, 1)", "Bubble(I, 2)"), "I", 2), (("CG(I, 1)", "Bubble(I, 3)"), "I", 3), (("CG(I, 2)", "Res(CG(I, 3), indices=[2])"), "I", 3),
        (("DG(I, 0)", "Bubble(I, 3)"), "I", 3), (("CG(T, 1)", "Bubble(T, 3)"), "T", 3), (("Bubble(T, 3)", "CG(T, 1)"), "T", 3),
        (("CG(T, 2)", "Bubble(T, 3)"), "T", 3), (("CG(T, 1)", "Bubble(T, 4)"), "T", 4), (("CG(T, 1)", "FBubble(T, 2)"), "T", 2),
        (("CG(T, 1)", "FBubble(T, 2)", "Bubble(T, 3)"), "T", 3), (("CG(T, 1)", "FBubble(T, 3)", "Bubble(T, 3)"), "T", 3),
        (("P0(T)", "Bubble(T, 4)"), "T", 4), (("CR(T, 1)", "Bubble(T, 3)"), "T", 3), (("CG(S, 1)", "FBubble(S, 3)"), "S", 3),
        (("CG(S, 1)", "Bubble(S, 4)"), "S", 4), (("CG(S, 1)", "FBubble(S, 3)", "Bubble(S, 4)"), "S", 4), (("CG(S, 2)", "Bubble(S, 4)"), "S", 4),
        (("RT(T, 1)", "Res(RT(T, 2), restriction_domain='interior')"), "T", 2),
        (("RT(S, 1)", "Res(RT(S, 2), restriction_domain='interior')"), "S", 2),
        (("N1(T, 1)", "Res(N1(T, 2), restriction_domain='interior')"), "T", 2),
        (("N1(T, 1, variant='integral')", "Res(N1(T, 2, variant='integral'), restriction_domain='interior')"), "T", 2),
        (("Regge(T, 0)", "Res(Regge(T, 1), restriction_domain='interior')"), "T", 1),
        (("Regge(S, 1)", "Res(Regge(S, 2), restriction_domain='interior')"), "S", 2),
        (("HHJ(T, 0)", "Res(HHJ(T, 1), restriction_domain='interior')"), "T", 1),
        (("NEnr(CG(T, 1), Bubble(T, 3))", "FBubble(T, 2)"), "T", 3),
        (("Res(CG(T, 2), restriction_domain='vertex')", "Res(CG(T, 2), indices=[3, 4, 5])"), "T", 2),
        (("Res(CG(T, 2), restriction_domain='vertex')", "Bubble(T, 3)"), "T", 3),
        (("Hermite(T)", "Bubble(T, 4)"), "T", 4) if False else (("Morley(T)", "Bubble(T, 3)"), "T", 3)]


def group(cell, e):
    if e in MENU[cell]:
        return MENU[cell][e]
    if e.startswith("Mixed"):
        return "m" + e
    return "d" if "RT(" in e or "Hdiv" in e else "s"


def configs(tier):
    big = tier == "thorough"
    out = []
    for c, menu in MENU.items():
        names = list(menu) + DEEP[c]
        en = [e for e in names if not e.startswith("Mixed")]
        for g in sorted(set(group(c, e) for e in en)):
            part = [e for e in en if group(c, e) == g]
            for m in (1, 2, 3) if (big or len(part) <= 4) else (1, 2):
                for l in itertools.product(part, repeat=m):
                    out.append(("Enr", c, l))
        small = names if big else names[:8] + DEEP[c]
        for l in itertools.chain(((e,) for e in names), itertools.product(names, repeat=2),
                                 itertools.product(small[::2], repeat=3)):
            if len(l) == 2 and not big and len(names) > 14 and names.index(l[0]) % 2:
                continue
            out.append(("Mixed", c, l))
        for e in names:
            out.append(("Dis", c, (e,)))
    for c, l in MENR:
        for p in itertools.permutations(l):
            out.append(("Enr", c, p))
    for e, c, n in RES:
        for d in ("interior", "vertex", "edge", "face", "facet") if big or e not in HEAVY else ("interior", "facet"):
            out.append(("Res", c, (e, d)))
        if not big and e in HEAVY:
            continue
        if n <= (10 if big else 6):
            sets = [s for k in range(1, n + 1) for s in itertools.combinations(range(n), k)]
        else:
            sets = [(i,) for i in range(n)] + [tuple(j for j in range(n) if j != i) for i in range(n)]
        out.append(("Idx", c, (e,), tuple(sets)))
        # index lists in an order other than the numbering
        out.append(("Idx", c, (e,), tuple(itertools.permutations(range(min(n, 3))))))
    for parts, c, D in NENR:
        out.append(("NEnr", c, parts, D))
    return list(dict.fromkeys(out))


def cost(cfg):
    return {"NEnr": 60, "Res": 40, "Idx": 50, "Enr": 10, "Mixed": 12, "Dis": 5}[cfg[0]] + (30 if cfg[1] in ("S", "TxI") else 0) + len(str(cfg[2])) / 10


def norm(d):
    return {k: {int(e): [int(i) for i in v] for e, v in m.items()} for k, m in d.items()}


def wts(f):
    if h.undefined(f):
        return None
    return (sorted((tuple(map(float, p)), sorted((float(w), tuple(c)) for w, c in t)) for p, t in f.get_point_dict().items()),
            sorted((tuple(map(float, p)), sorted((float(w), tuple(a), tuple(c)) for w, a, c in t)) for p, t in f.deriv_dict.items()))


def tables(el, c, ent, order):
    dims = c.entity_dims(*ent)
    R, t = c.ref_transform(*ent)[2:]
    pts = np.vstack([cells.ref_points(dims, 1, "generic"), cells.ref_points(dims, 1, "generic") * 0.43 + 0.11]) @ R.T + t
    if not sum(dims):
        pts = pts[:1]
    tab = el.tabulate(order, [tuple(p) for p in pts], ent)
    n, shape = el.space_dimension(), tuple(el.value_shape())
    return {a: h.flat(x, n, shape) for a, x in tab.items()}


def same_tables(ctx, got, want, key, tol=1e-12):
    ctx.eq(sorted(got), sorted(want), "multi-indices")
    for a in want:
        ctx.close(got[a], want[a], key, str(a), tol=tol, scale=max(1.0, float(np.max(np.abs(want[a]))) if want[a].size else 1))
    ctx.observe(*[got[a][..., 0] for a in sorted(got)[-1:]])


def entity_order(ctx, c):
    ent = ctx.choose("entity", c.entities())
    order = ctx.choose("order", [0, 2] if ent == (c.top, 0) else [1])
    return ent, order


def run(cfg, ctx):
    kind, cn = cfg[:2]
    c = cells.cell(cn)
    if kind in ("Res", "Idx"):
        return restricted(cfg, ctx, c)
    if kind == "NEnr":
        return nodal(cfg, ctx, c)
    parts = [h.element(e) for e in cfg[2]]
    el = {"Enr": lambda *p: FIAT.EnrichedElement(*p), "Mixed": lambda *p: FIAT.MixedElement(p),
          "Dis": lambda p: FIAT.DiscontinuousElement(p)}[kind](*parts)
    ctx.step()
    ns = [p.space_dimension() for p in parts]
    off = np.concatenate([[0], np.cumsum(ns)]).astype(int)
    n = int(off[-1])
    sizes = [int(np.prod(p.value_shape())) if p.value_shape() else 1 for p in parts]
    view = ctx.choose("view", ["meta", "table"])
    if view == "meta":
        ctx.eq(el.space_dimension(), n, "dimension")
        ctx.eq(list(el.mapping()), [m for p in parts for m in p.mapping()], "mapping")
        ed = norm(el.entity_dofs())
        want = {}
        for d, m in c.topo.items():
            want[d] = {e: ([] if kind == "Dis" else [int(o) + i for o, p in zip(off, parts) for i in p.entity_dofs()[d][e]]) for e in m}
        if kind == "Dis":
            want[c.top][0] = list(range(n))
        ctx.eq(ed, want, "entity-dofs")
        cl = norm(el.entity_closure_dofs())
        for k in c.ents:
            ctx.eq(sorted(cl[k[0]][k[1]]), sorted(i for x, y in c.closure(*k) for i in want[x][y]), "closure-dofs", str(k))
        nodes = el.dual_basis()
        ctx.eq(len(nodes), n, "number-of-dofs")
        for i, (f, g) in enumerate(zip(nodes, [x for p in parts for x in p.dual_basis()])):
            ctx.ok(f is g or wts(f) == wts(g), "dof-changed", "dof %d" % i)
        ctx.eq(el.get_reference_element() == parts[0].get_reference_element(), True, "cell")
        ks = [p.get_formdegree() for p in parts]
        if kind == "Enr":
            ctx.eq(tuple(el.value_shape()), tuple(parts[0].value_shape()), "value-shape")
            ctx.eq(el.degree(), max(p.degree() for p in parts), "degree")
            ctx.eq(el.get_formdegree(), None if None in ks else max(ks), "form-degree")
            ctx.eq(len(el.elements()), len(parts), "parts")
            orders = [p.get_order() for p in parts]
            ctx.ok(el.get_order() is None if None in orders else el.get_order() >= max(orders), "order", "%s of %s" % (el.get_order(), orders))
        elif kind == "Mixed":
            ctx.eq(tuple(el.value_shape()), (sum(sizes),), "value-shape")
            ctx.eq(el.num_sub_elements(), len(parts), "sub-elements")
            ctx.eq(bool(el.is_nodal()), all(p.is_nodal() for p in parts), "nodal")
            ctx.eq(el.degree(), max(p.degree() for p in parts), "degree")
        else:
            ctx.eq(tuple(el.value_shape()), tuple(parts[0].value_shape()), "value-shape")
            ctx.eq(el.get_formdegree(), c.sd, "form-degree")
            ctx.eq(el.degree(), parts[0].degree(), "degree")
            ctx.eq(el.num_sub_elements(), parts[0].num_sub_elements(), "sub-elements")
            ctx.eq(bool(el.is_nodal()), bool(parts[0].is_nodal()), "nodal")
            ctx.eq(el.get_order(), parts[0].get_order(), "order")
            try:
                co, D = parts[0].get_coeffs(), parts[0].dmats()
            except (AttributeError, NotImplementedError):
                return
            ctx.ok(np.array_equal(el.get_coeffs(), co), "coefficients")
            ctx.eq([np.array(M, float).tolist() for M in el.dmats()], [np.array(M, float).tolist() for M in D], "derivative-matrices")
            ctx.eq([el.get_num_members(k) for k in range(4)], [parts[0].get_num_members(k) for k in range(4)], "members")
        return
    ent, order = entity_order(ctx, c)
    got = tables(el, c, ent, order)
    tabs = [tables(p, c, ent, order) for p in parts]
    ctx.step(1 + len(parts))
    want = {}
    for a in tabs[0]:
        if kind == "Mixed":
            w = np.zeros((n, sum(sizes), tabs[0][a].shape[2]))
            r = np.concatenate([[0], np.cumsum(sizes)]).astype(int)
            for i, t in enumerate(tabs):
                w[off[i]:off[i + 1], r[i]:r[i + 1]] = t[a]
        else:
            w = np.concatenate([t[a] for t in tabs])
        want[a] = w
    same_tables(ctx, got, want, "table")


def restricted(cfg, ctx, c):
    e = cfg[2][0]
    base = h.element(e)
    ed = norm(base.entity_dofs())
    if cfg[0] == "Idx":
        idx = ctx.choose("indices", cfg[3])
    else:
        dom = cfg[2][1]
        lim = {"vertex": 0, "edge": 1, "face": 2, "facet": c.sd - 1}
        dims = [c.sd] if dom == "interior" else range(lim[dom] + 1)
        if any(d not in ed for d in dims):
            from ..engine import Skip
            raise Skip("no entities of that dimension")
        idx = [i for d in dims for x in sorted(ed[d]) for i in ed[d][x]]
        if not idx:
            try:
                FIAT.RestrictedElement(base, restriction_domain=dom)
            except (ValueError, RuntimeError):
                ctx.step()
                return
            ctx.ok(False, "empty-restriction-accepted", dom)
    el = FIAT.RestrictedElement(base, indices=list(idx)) if cfg[0] == "Idx" else FIAT.RestrictedElement(base, restriction_domain=dom)
    ctx.step()
    # dofs keep their entity; numbering follows the entities
    order = [i for d in ed for x in ed[d] for i in ed[d][x] if i in idx]
    n = len(order)
    if ctx.choose("view", ["meta", "table"]) == "meta":
        ctx.eq(el.space_dimension(), n, "dimension")
        ctx.eq(norm(el.entity_dofs()), {d: {x: [order.index(i) for i in v if i in idx] for x, v in m.items()} for d, m in ed.items()},
               "entity-dofs")
        ctx.eq(tuple(el.value_shape()), tuple(base.value_shape()), "value-shape")
        ctx.eq(el.degree(), base.degree(), "degree")
        ctx.eq(el.get_formdegree(), base.get_formdegree(), "form-degree")
        ctx.eq(list(el.mapping()), [base.mapping()[i] for i in order], "mapping")
        nodes, old = el.dual_basis(), base.dual_basis()
        ctx.eq(len(nodes), n, "number-of-dofs")
        for k, i in enumerate(order):
            ctx.ok(nodes[k] is old[i] or wts(nodes[k]) == wts(old[i]), "dof-changed", "dof %d" % i)
        return
    if cfg[0] == "Idx":
        ent, k = (c.top, 0), ctx.choose("order", [1])
    else:
        ent, k = entity_order(ctx, c)
    got, old = tables(el, c, ent, k), tables(base, c, ent, k)
    ctx.step(2)
    same_tables(ctx, got, {a: t[order] for a, t in old.items()}, "restricted-table", tol=1e-8)


def nodal(cfg, ctx, c):
    parts = [h.element(e) for e in cfg[2]]
    el = FIAT.NodalEnrichedElement(*parts)
    ctx.step()
    ns = [p.space_dimension() for p in parts]
    off = np.concatenate([[0], np.cumsum(ns)]).astype(int)
    n = int(off[-1])
    shape = tuple(parts[0].value_shape())
    view = ctx.choose("view", ["meta", "dual", "table"])
    if view == "meta":
        ctx.eq(el.space_dimension(), n, "dimension")
        ctx.eq(tuple(el.value_shape()), shape, "value-shape")
        ctx.ok(el.get_order() >= max(p.get_order() for p in parts), "order")
        ctx.eq(el.degree(), max(p.degree() for p in parts), "degree")
        ctx.eq(list(el.mapping()), [m for p in parts for m in p.mapping()], "mapping")
        ctx.eq(bool(el.is_nodal()), True, "nodal")
        ks = [p.get_formdegree() for p in parts]
        ctx.eq(el.get_formdegree(), None if None in ks else max(ks), "form-degree")
        want = {d: {e: [int(o) + i for o, p in zip(off, parts) for i in p.entity_dofs()[d][e]] for e in m} for d, m in c.topo.items()}
        ctx.eq(norm(el.entity_dofs()), want, "entity-dofs")
        for f, g in zip(el.dual_basis(), [x for p in parts for x in p.dual_basis()]):
            ctx.ok(f is g or wts(f) == wts(g), "dof-changed")
        return
    if view == "dual":
        M, mag, k = h.apply_dual(el.dual_basis(), lambda o, p: el.tabulate(o, p), c.sd, n, shape)
        ctx.step(k)
        ctx.close(M, np.eye(n), "not-nodal", tol=1e-8, scale=max(1.0, float(mag.max())))
        return
    ent = ctx.choose("entity", c.entities())
    order = ctx.choose("order", [0, 1, 2])
    # the transformation is determined on the cell, and has to be the same for every table
    pts = [tuple(p) for p in poly.fit_setup(cfg[1], cfg[3])[0]]
    E = h.tab0(el, pts).reshape(n, -1)
    P = np.concatenate([h.tab0(p, pts) for p in parts]).reshape(n, -1)
    R = E @ np.linalg.pinv(P)
    sc = max(1.0, float(np.max(np.abs(E))))
    ctx.close(R @ P, E, "outside-sum-of-parts", tol=1e-8, scale=sc)
    ctx.eq(h.rank(R), n, "dependent-basis")
    got = tables(el, c, ent, order)
    tabs = [tables(p, c, ent, order) for p in parts]
    ctx.step(3)
    want = {a: np.tensordot(R, np.concatenate([t[a] for t in tabs]), axes=(1, 0)) for a in tabs[0]}
    same_tables(ctx, got, want, "sum-table", tol=1e-7)
