"""Purity: every call history up to a depth gives the answers of fresh objects in a fresh process."""
import copy
import itertools
import os
import pickle
import signal
import struct

import numpy as np
import FIAT
from FIAT import functional, polynomial_set, quadrature, expansions, reference_element
from FIAT.finite_element import entity_support_dofs
from FIAT.quadrature_schemes import create_quadrature

from .. import catalog, cells, h

BOUNDS = {"quick": "per subject (48 elements, 27 twin subjects (two elements on one cell object or from one basis), combinations with shared parts, 7 cells, rules, polynomial sets; 'worlds' of elements, rules and expansion sets built anew by name on several cells of one shape and several vertex conventions): all histories of 2 operations over the "
                   "full menu (8..19 operations) and all histories of 3 operations over a core menu; every operation's answer compared with "
                   "the answer in a fresh process, all earlier answers and all arguments re-checked after each operation",
          "thorough": "all histories of 3 over the full menu, 4 over the core menu"}
LIMIT_S = 300
ASSUMPTIONS = ["callers do not themselves modify returned containers (FIAT returns some internal tables by reference)"]

ELEMENTS = ["CG(I, 3)", "CG(T, 2)", "DG(T, 1)", "RT(T, 1)", "RT(T, 2, variant='integral')", "BDM(T, 1)", "N1(T, 2)", "N1(S, 1)", "N2(S, 1)",
            "Regge(T, 1)", "HHJ(T, 0)", "Morley(T)", "MTW(T, 3)", "Bernstein(T, 2)", "Bernstein(I, 3)", "GLL(I, 3)", "GL(I, 2)", "GR(I, 2)",
            "Ser(Q, 1)", "DPC(Q, 2)", "Trace(T, 1)", "KMV(T, 2)", "Taylor(T, 1)", "CR(S, 1)", "P0(T)", "Bubble(T, 3)", "CG(DT, 2)",
            "TP(CG(T, 1), CG(I, 2))", "Hdiv(TP(RT(T, 1), DG(I, 0)))", "Hcurl(TP(CG(I, 1), DG(I, 0)))", "Flat(TP(CG(I, 1), CG(I, 2)))",
            "Flat(Hdiv(TP(CG(I, 2), DG(I, 1))))", "Enr(CG(T, 1), Bubble(T, 3))", "NEnr(CG(T, 1), Bubble(T, 3))", "Mixed([CG(T, 1), RT(T, 1)])",
            "Res(CG(T, 2), indices=[0, 3])", "Dis(RT(T, 1))"]
SHARED = {   # name: (code that builds the environment; several objects from shared parts)
    "hdiv": "a = CG(I, 2); b = DG(I, 1); p = TP(a, b); q = TP(b, a); x = Hdiv(p); y = Hcurl(p)",
    "hdiv-prism": "a = N1(T, 1); b = DG(I, 0); p = TP(a, b); x = Hdiv(p); y = TP(a, CG(I, 1))",
    "flat": "a = CG(I, 1); p = TP(a, a); x = Flat(p); y = TP(x, a)",
    "enriched": "a = CG(T, 1); b = Bubble(T, 3); x = Enr(a, b); y = NEnr(a, b)",
    "enriched-twice": "a = RT(T, 1); p = Res(RT(T, 2), restriction_domain='interior'); x = Enr(a, p); y = Enr(p, a)",
    "mixed": "a = CG(T, 1); b = RT(T, 1); x = Mixed([a, b, a]); y = Mixed([x, a])",
    "restricted": "a = CG(T, 3); x = Res(a, restriction_domain='facet'); y = Res(x, indices=[0, 4])",
    "discontinuous": "a = BDM(T, 1); x = Dis(a); y = Dis(x)",
    "same-cell": "a = CG(T, 2); x = CG(T, 1); y = DG(T, 1); p = RT(T, 1)",
    "nedelec": "a = N1(S, 1); x = N2(S, 1); y = RT(S, 1)",
    "bernstein": "a = Bernstein(T, 2); x = Bernstein(T, 3); y = Bernstein(S, 2)",
    "serendipity": "a = Ser(Q, 1); x = Ser(Q, 2)",
    "trace": "a = Trace(T, 1); x = Trace(IxI, 1); y = Trace(Q, 0)",
}
# pairs of elements of the same class (degree, dimension, cell object) that are not the same element
TWINS = {
    "restricted": "a = CG(T, 2); x = Res(a, indices=[0, 1, 2]); y = Res(a, indices=[3, 4, 5])",
    "restricted-piola": "a = N1(T, 2); x = Res(a, indices=[0, 1]); y = Res(a, indices=[2, 3])",
    "enriched": "a = CG(I, 1); b = Bubble(I, 2); x = Enr(a, b); y = Enr(b, a)",
    "nodal-enriched": "a = CG(I, 1); b = Bubble(I, 2); x = NEnr(a, b); y = NEnr(b, a)",
    "mixed": "a = CG(T, 1); b = DG(T, 1); x = Mixed([a, b]); y = Mixed([b, a])",
    "discontinuous": "a = CG(T, 1); b = CR(T, 1); x = Dis(a); y = Dis(b)",
    "product": "a = CG(I, 1); b = DG(I, 1); x = TP(a, b); y = TP(b, a)",
    "product-dpc": "a = GLL(I, 1); b = GL(I, 1); x = TP(a, b); y = TP(b, b)",
    "hdiv": "a = CG(I, 1); b = DG(I, 0); x = Hdiv(TP(a, b)); y = Hdiv(TP(b, a))",
    "hcurl": "a = CG(I, 1); b = DG(I, 0); x = Hcurl(TP(a, b)); y = Hcurl(TP(b, a))",
    "hdiv-hcurl": "p = TP(CG(I, 1), DG(I, 0)); x = Hdiv(p); y = Hcurl(p)",
    "flat": "a = CG(I, 1); b = DG(I, 1); x = Flat(TP(a, b)); y = Flat(TP(b, a))",
    "variants": "x = RT(T, 2, variant='point'); y = RT(T, 2, variant='integral')",
    "variants-q": "x = N1(T, 2, variant='integral(2)'); y = N1(T, 2, variant='integral(6)')",
    "second-kind": "x = N2(T, 1, variant='point'); y = N2(T, 1, variant='integral')",
    "cells": "x = CG(T, 2); y = CG(DT, 2)",
    "cells-numbering": "x = CG(T, 2); y = CG(NT, 2)",
    "cells-3d": "x = CG(S, 1); y = CG(DS, 1)",
    "cells-interval": "x = GLL(I, 2); y = GLL(DI, 2)",
    "cells-product": "x = TP(CG(T, 1), CG(I, 1)); y = TP(CG(NT, 1), CG(DI, 1))",
    "families": "x = CG(I, 2); y = GLL(I, 2)",
    "families-dg": "x = GL(I, 2); y = GR(I, 2)",
    "dg-taylor": "x = DG(T, 1); y = Taylor(T, 1)",
    "trace": "x = Trace(IxI, (0, 1)); y = Trace(IxI, (1, 0))",
    "bernstein": "x = Bernstein(T, 2); y = Bernstein(DT, 2)",
    "symmetric": "x = Regge(T, 0); y = HHJ(T, 0)",
    "serendipity": "x = Ser(Q, 2); y = DPC(Q, 2)",
}
OTHER = ["cell I", "cell T", "cell S", "cell Q", "cell H", "cell IxI", "cell TxI", "rule", "polyset", "expansion", "world I"] + ["world " + s + "/" + c + str(k) for s in "TS" for c in (s, "D" + s, "N" + s) for k in (0, 1)]


def configs(tier):
    subjects = ["el " + e for e in ELEMENTS] + ["shared " + s for s in SHARED] + ["twins " + s for s in TWINS] + OTHER
    return [(s,) + ((2, 3) if tier == "quick" else (3, 4)) for s in subjects]


def cost(c):
    return (8 if "shared" in c[0] or "twins" in c[0] or "S" in c[0] or "world" in c[0] else 4 if "T" in c[0] else 1) * c[1]


def canon(x):
    if isinstance(x, dict):
        return {"dict": [(repr(k), canon(v)) for k, v in sorted(x.items(), key=lambda kv: repr(kv[0]))]}
    if isinstance(x, (list, tuple)):
        if x and all(isinstance(i, (int, float, np.number)) for i in x):
            return np.array(x, dtype=float)
        return [canon(i) for i in x]
    if isinstance(x, np.ndarray):
        return np.array(x, dtype=float)
    if isinstance(x, (int, float, np.number)) and not isinstance(x, bool):
        return np.array(float(x))
    if hasattr(x, "get_point_dict"):
        return None if h.undefined(x) else {"f": canon([sorted((tuple(map(float, p)), sorted(repr(t) for t in v)) for p, v in d.items())
                                                        for d in (x.get_point_dict(), x.deriv_dict)])}
    return repr(type(x)) if not isinstance(x, (str, bool, type(None))) else x


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-10, atol=1e-11, equal_nan=True))
    return a == b


def model_cell(el):
    ref = el.get_reference_element()
    sd = ref.get_spatial_dimension()
    return ref, sd


def pts(el, k):
    sd = el.get_reference_element().get_spatial_dimension()
    L = [(.21, .33, .17, .11), (.13, .07, .51, .2), (.6, .25, .1, .05)]
    return [tuple(p[:sd]) for p in L][:k]


def entity(el, codim=1):
    """some facet and points on it"""
    ref = el.get_reference_element()
    top = ref.get_topology()
    for d in sorted(top, key=repr):
        n = d if isinstance(d, int) else sum(d)
        if n == ref.get_spatial_dimension() - codim:
            sub = ref.construct_subelement(d).get_spatial_dimension()
            return (d, max(top[d])), [(.3, .2, .1)[:sub], (.15, .6, .1)[:sub]]
    raise KeyError


class El(object):
    """operations on one element"""

    def __init__(self, el):
        self.el = el
        self.buf = None

    def fill(self, p):
        if self.buf is None:
            self.buf = np.array(p, dtype=float)
        self.buf[:] = p

    def menu(self):
        el = self.el
        m = {}
        traced = type(el).__name__ == "HDivTrace"

        def tab(order, p, ent=None):
            return lambda: (el.tabulate(order, p, ent) if ent is not None else el.tabulate(order, p), p)
        e, q = entity(el)
        if not traced:
            m["tab0"] = tab(0, pts(el, 2))
            m["tab2"] = tab(2, pts(el, 3))
            m["tab1a"] = tab(1, np.array(pts(el, 1)))
            # the points of tab2 in another order / moved by very little, and a buffer that the caller fills again
            m["tab1-perm"] = tab(1, pts(el, 3)[::-1])
            m["tab2-near"] = tab(2, [tuple(x + 3e-7 for x in p) for p in pts(el, 3)])
            m["buf-a"] = lambda: (self.fill(pts(el, 3)[:2]), el.tabulate(1, self.buf))[1:] + (None,)
            m["buf-b"] = lambda: (self.fill(pts(el, 3)[1:]), el.tabulate(1, self.buf))[1:] + (None,)
        else:
            m["tab0"] = tab(0, pts(el, 2)) if False else tab(0, q[:1], e)
        m["tab-facet"] = tab(1 if not traced else 0, q, e)
        # the same points on another facet; the points of tab2 at another order
        m["tab-facet0"] = tab(1 if not traced else 0, q, (e[0], min(k for k in el.get_reference_element().get_topology()[e[0]])))
        if not traced:
            m["tab0-3"] = tab(0, pts(el, 3))
        m["dofs"] = lambda: ([el.entity_dofs(), el.entity_closure_dofs()], None)
        if not traced and "Mixed" not in type(el).__name__:
            m["support"] = lambda: (entity_support_dofs(el, e[0]), None)
        m["dual"] = lambda: (el.dual_basis(), None)
        m["meta"] = lambda: ([el.mapping(), el.value_shape(), el.space_dimension(), el.get_formdegree()], None)
        if isinstance(el, FIAT.CiarletElement) and type(el).__name__ not in ("DiscontinuousElement",):
            p = pts(el, 2)
            m["nodal-basis"] = lambda: (el.get_nodal_basis().tabulate(p, 1), p)
            m["riesz"] = lambda: (el.get_dual_set().to_riesz(el.get_nodal_basis()), None)
            m["restrict"] = lambda: (El(FIAT.RestrictedElement(el, indices=[0])).menu()["tab1a"]()[0], None)
        if not traced:
            if "Mixed" not in type(el).__name__:
                m["enrich"] = lambda: (El(FIAT.EnrichedElement(el, el)).menu()["tab1a"]()[0], None)
            m["mix"] = lambda: (El(FIAT.MixedElement([el, el])).menu()["tab1a"]()[0], None)
            m["break"] = lambda: ([El(FIAT.DiscontinuousElement(el)).menu()[k]()[0] for k in ("tab1a", "dofs")], None)
        ref = el.get_reference_element()
        m["rule"] = lambda: ([create_quadrature(ref, 3).get_points(), create_quadrature(ref, 3).get_weights()], None)
        return m

    core = ["tab0", "tab2", "tab-facet", "tab-facet0", "dofs", "support", "restrict"]


class Many(object):
    def __init__(self, env):
        self.env = env

    def menu(self):
        m = {}
        for k, el in self.env.items():
            sub = El(el).menu()
            for op in self.ops:
                if op in sub:
                    m["%s.%s" % (k, op)] = sub[op]
        return m

    ops = ("tab0", "tab2", "tab-facet", "dofs", "dual", "support")

    @property
    def core(self):
        names = list(self.env)
        return ["%s.tab0" % n for n in names] + ["%s.dofs" % names[-1], "%s.dual" % names[0], "%s.tab-facet" % names[-1]]


class Pair(Many):
    """two elements that are easily mistaken for each other (and nothing else)"""

    def __init__(self, env):
        Many.__init__(self, {k: env[k] for k in ("x", "y") if k in env})
        if any(type(e).__name__ == "Serendipity" for e in self.env.values()):
            self.ops = ("tab0", "tab-facet", "dofs", "support")     # the others build symbolic functions: slow
    ops = ("tab0", "tab2", "tab-facet", "dofs", "dual", "support", "nodal-basis", "riesz", "meta", "break", "mix", "enrich")

    @property
    def core(self):
        return [n + "." + o for n in ("x", "y") for o in ("tab0", "support", "tab-facet")]


class Cell(object):
    def __init__(self, ref, c):
        self.ref, self.c = ref, c

    def menu(self):
        r, c = self.ref, self.c
        p = [tuple([.2] * c.sd), tuple([.3] * c.sd)]
        q = np.array([0.1] * c.sd)
        m = {"topology": lambda: ([r.get_topology(), r.get_vertices(), r.get_connectivity(), r.get_shape()], None),
             "volume": lambda: (r.volume(), None),
             "transforms": lambda: ([r.get_entity_transform(*k)([.2] * sum(c.entity_dims(*k))) for k in c.entities()], None),
             "contains": lambda: ([r.contains_point(x) for x in p] if not c.product or c.flat else r.contains_point(q), p),
             "subelements": lambda: ([r.construct_subelement(d).get_vertices() for d in c.topo], None),
             "rule": lambda: (create_quadrature(r, 2).get_points(), None)}
        if not c.product:
            m["points"] = lambda: ([r.make_points(d, e, 4) for d in c.topo for e in c.topo[d]], None)
            m["lattice"] = lambda: (reference_element.make_lattice(r.get_vertices(), 3), None)
            if c.sd > 1:
                m["normals"] = lambda: ([[r.compute_normal(f), r.compute_scaled_normal(f)] for f in c.topo[c.sd - 1]], None)
                m["tangents"] = lambda: ([r.compute_edge_tangent(e) for e in c.topo[1]], None)
            m["element"] = lambda: (FIAT.Lagrange(r, 2).tabulate(1, p), p)
        return m

    core = ["topology", "transforms", "points", "normals", "contains", "rule"]


class Rule(object):
    def __init__(self):
        self.cell = FIAT.ufc_simplex(2)
        self.line = FIAT.ufc_simplex(1)
        self.rule = create_quadrature(self.cell, 4)
        self.lrule = quadrature.GaussJacobiQuadratureLineRule(self.line, 3)

    def menu(self):
        return {"points": lambda: ([self.rule.get_points(), self.rule.get_weights()], None),
                "integrate": lambda: (self.rule.integrate(lambda x: x[0] ** 2 + x[1]), None),
                "product": lambda: (lambda r: [r.get_points(), r.get_weights()])(quadrature.make_tensor_product_quadrature(self.rule, self.lrule)) and
                           ((lambda r: [r.get_points(), r.get_weights()])(quadrature.make_tensor_product_quadrature(self.rule, self.lrule)), None),
                "line": lambda: ([self.lrule.get_points(), self.lrule.get_weights()], None),
                "another": lambda: ([create_quadrature(self.cell, k).get_points() for k in (1, 4, 9)], None),
                "canonical": lambda: (create_quadrature(self.cell, 4, "canonical").get_weights(), None),
                "kmv": lambda: (create_quadrature(self.cell, 3, "KMV").get_points(), None),
                "lobatto": lambda: (quadrature.GaussLobattoLegendreQuadratureLineRule(self.line, 4).get_points(), None),
                "radau": lambda: (quadrature.RadauQuadratureLineRule(self.line, 4, right=False).get_points(), None),
                "moment": lambda: (functional.IntegralMoment(self.cell, self.rule, np.ones(len(self.rule.get_points()))), None)}
    core = ["points", "integrate", "product", "another", "moment"]


class Poly(object):
    def __init__(self):
        self.cell = FIAT.ufc_simplex(2)
        self.s = polynomial_set.ONPolynomialSet(self.cell, 2)
        self.v = polynomial_set.ONPolynomialSet(self.cell, 1, (2,))
        self.t = polynomial_set.ONSymTensorPolynomialSet(self.cell, 1)
        self.p = [(.2, .3), (.1, .6), (0., 1.)]
        self.q = create_quadrature(self.cell, 4)

    def menu(self):
        return {"s0": lambda: (self.s.tabulate(self.p), self.p), "s2": lambda: (self.s.tabulate(self.p, 2), self.p),
                "v1": lambda: (self.v.tabulate(self.p, 1), self.p), "t1": lambda: (self.t.tabulate(self.p, 1), self.p),
                "new": lambda: (self.s.tabulate_new(self.p), self.p),
                "take": lambda: (self.s.take([0, 3, 4]).tabulate(self.p, 1), self.p),
                "union": lambda: (polynomial_set.polynomial_set_union_normalized(self.v, self.v.take([0, 2])).get_num_members(), None),
                "coeffs": lambda: ([self.s.get_coeffs(), self.v.get_coeffs(), self.s.get_dmats(), self.t.get_coeffs()], None),
                "project": lambda: (polynomial_set.project(lambda x: x[0] * x[1], self.s, self.q), None),
                "functional": lambda: ([functional.PointEvaluation(self.cell, self.p[0]).to_riesz(self.s),
                                        functional.PointDerivative(self.cell, self.p[0], (1, 1)).to_riesz(self.s)], None)}
    core = ["s0", "s2", "v1", "take", "coeffs", "functional"]


class Exp(object):
    def __init__(self):
        self.c = {n: FIAT.ufc_simplex(n) for n in (1, 2, 3)}
        self.e = {n: expansions.get_expansion_set(c) for n, c in self.c.items()}
        self.p = {n: [(.2, .3, .1)[:n], (0., 1., 0.)[:n]] for n in self.c}

    def menu(self):
        m = {}
        for n in (1, 2, 3):
            m["tab%d" % n] = lambda n=n: (self.e[n].tabulate(3, self.p[n]), self.p[n])
            m["jet%d" % n] = lambda n=n: (self.e[n].tabulate_derivatives(2, self.p[n]), self.p[n])
            m["low%d" % n] = lambda n=n: (self.e[n].tabulate(1, self.p[n][:1]), self.p[n])
        m["default"] = lambda: (expansions.get_expansion_set(FIAT.reference_element.DefaultTriangle()).tabulate(2, [(-.3, .1)]), None)
        return m
    core = ["tab1", "tab2", "jet2", "low2", "jet3", "default"]


class World(object):
    """things built anew, by name, on cells of one shape and several conventions: no answer depends on what was built before"""
    CELLS = {"I": ("I", "DI"), "T": ("T", "DT", "NT"), "S": ("S", "DS", "NS")}
    ELS = {"I": ("CG(%s, 3)", "GLL(%s, 3)", "GL(%s, 2)", "Bernstein(%s, 2)"),
           "T": ("CG(%s, 3)", "RT(%s, 2, variant='integral')", "N2(%s, 1, variant='integral')", "Bernstein(%s, 2)", "Regge(%s, 0)", "Morley(%s)", "Trace(%s, 1)"),
           "S": ("CG(%s, 2)", "RT(%s, 1, variant='integral')", "N1(%s, 1)")}

    def __init__(self, shape):
        self.shape, _, self.part = shape.partition("/")

    def first(self, names):
        """the share of a configuration: histories that begin on one of the cells, with one half of the operations"""
        if not self.part:
            return names
        own = [n for n in names if n.endswith(" " + self.part[:-1]) or "(%s," % self.part[:-1] in n or "(%s)" % self.part[:-1] in n]
        return own[int(self.part[-1])::2]

    def menu(self):
        m = {}
        for c in self.CELLS[self.shape]:
            def ref(c=c):
                return catalog.fiat_cell(c)

            def rule(k, ref=ref):
                r = create_quadrature(ref(), k)
                return [r.get_points(), r.get_weights()]

            def gauss(k, ref=ref):
                r = quadrature.make_quadrature(ref(), k)
                return [r.get_points(), r.get_weights()]

            def polys(ref=ref):
                r = ref()
                p = [(.11, .23, .31)[:r.get_spatial_dimension()]]
                return [polynomial_set.ONPolynomialSet(r, 2).tabulate(p, 1), expansions.get_expansion_set(r).tabulate(2, p)]

            def geom(ref=ref):
                r = ref()
                n = r.get_spatial_dimension()
                return [r.make_points(n, 0, n + 2), r.volume(), [r.get_entity_transform(n - 1, f)([.3] * (n - 1)) if n > 1 else 0 for f in range(n + 1)],
                        [r.compute_normal(f) for f in range(n + 1)] if n > 1 else 0, r.get_vertices()]
            for k in (1, 3, 8):
                m["rule%d %s" % (k, c)] = lambda k=k, rule=rule: (rule(k), None)
            m["gauss4 " + c] = lambda gauss=gauss: (gauss(4), None)
            m["polys " + c] = lambda polys=polys: (polys(), None)
            m["geometry " + c] = lambda geom=geom: (geom(), None)
            for e in self.ELS[self.shape]:
                def elem(expr=e % c):
                    sub = El(catalog.build(expr)).menu()
                    return [sub[o]()[0] for o in ("tab2", "tab-facet", "dual") if o in sub]
                m[e % c] = lambda elem=elem: (elem(), None)
        return m

    @property
    def core(self):
        return [o + " " + c for c in self.CELLS[self.shape] for o in ("rule3", "polys")] + [self.ELS[self.shape][0] % c for c in self.CELLS[self.shape]]


def subject(s, upto=None):
    kind, _, rest = s.partition(" ")
    if kind == "el":
        return El(catalog.build(rest))
    if kind in ("shared", "twins"):
        ns = catalog.namespace()
        before = dict(ns)
        for stmt in (SHARED if kind == "shared" else TWINS)[rest].split("; "):
            if kind == "twins" and upto == "y" and stmt.startswith("x ="):
                continue    # the fresh answers of one twin are those without the other
            exec(stmt, ns)
            if stmt.startswith("%s =" % upto):
                break       # the objects that came to exist by then
        env = {k: v for k, v in ns.items() if k not in before and k != "__builtins__" and len(k) == 1}
        return Many(env) if kind == "shared" else Pair(env)
    if kind == "world":
        return World(rest)
    if kind == "cell":
        return Cell(catalog.fiat_cell(rest), cells.cell(rest))
    return {"rule": Rule, "polyset": Poly, "expansion": Exp}[kind]()


_zygote = {}
_home = []


def _send(fd, obj):
    data = pickle.dumps(obj)
    os.write(fd, struct.pack("<Q", len(data)))
    while data:
        data = data[os.write(fd, data):]


def _recv(fd):
    def get(n):
        b = b""
        while len(b) < n:
            c = os.read(fd, n - len(b))
            if not c:
                raise EOFError
            b += c
        return b
    return pickle.loads(get(struct.unpack("<Q", get(8))[0]))


def _answers(s):
    """All single operations of a subject: each in a process of its own, forked right after the object was built
    (before later objects are built from the same parts)."""
    out = {}
    sub, built = subject(s), None
    for op in sorted(sub.menu()):
        if s.startswith(("shared", "twins")) and built != op[0]:
            built = op[0]
            sub = subject(s, built)
        r, w = os.pipe()
        if os.fork() == 0:
            try:
                os.close(r)
                try:
                    a = ("ok", canon(sub.menu()[op]()[0]))
                except Exception as e:
                    a = ("raised", type(e).__name__)
                _send(w, a)
            finally:
                os._exit(0)
        os.close(w)
        out[op] = _recv(r)
        os.close(r)
        os.wait()
    return out


def _serve(rfd, wfd):
    """A process in which nothing is ever built: forks one process per subject."""
    while True:
        try:
            s = _recv(rfd)
        except EOFError:
            os._exit(0)
        r, w = os.pipe()
        if os.fork() == 0:
            try:
                _send(w, _answers(s))
            except Exception as e:
                _send(w, repr(e))
            finally:
                os._exit(0)
        os.close(w)
        out = _recv(r)
        os.close(r)
        os.wait()
        _send(wfd, out)


def _spawn():
    """one pristine server per process that explores (forked before it builds anything)"""
    a, b = os.pipe()
    c, d = os.pipe()
    if os.fork() == 0:
        signal.alarm(0)
        os.close(b)
        os.close(c)
        try:
            _serve(a, d)
        finally:
            os._exit(0)
    os.close(a)
    os.close(d)
    _zygote[os.getpid()] = (b, c)


def reference(s):
    if os.getpid() not in _zygote:
        _spawn()
    b, c = _zygote[os.getpid()]
    _send(b, s)
    out = _recv(c)
    if isinstance(out, str):
        raise RuntimeError(out)
    return out


_subject = {}


def run(cfg, ctx):
    s, depth, coredepth = cfg
    if s not in _subject:
        _subject.clear()
        ref = reference(s)      # before this process built anything for this subject
        _subject[s] = (ref, subject(s))
    ref, proto = _subject[s]
    try:
        sub = copy.deepcopy(proto)
    except TypeError:
        sub = subject(s)
    names = sorted(sub.menu())
    which = ctx.choose("menu", ["full", "core"])
    if which == "core":
        names = [n for n in names if n in sub.core]
        depth = coredepth
    kept = []
    for k in range(depth):
        op = ctx.choose("op%d" % k, sub.first(names) if k == 0 and s.startswith("world") else names)
        want = ref[op]
        menu = sub.menu()
        f = menu[op]
        # arguments captured by the closure, before the call
        before = [copy.deepcopy(c.cell_contents) for c in (f.__closure__ or ()) if isinstance(c.cell_contents, (list, tuple, np.ndarray, int))]
        try:
            res, arg = f()
            got = ("ok", canon(res))
        except Exception as e:
            res, got = None, ("raised", type(e).__name__)
        ctx.step()
        after = [c.cell_contents for c in (f.__closure__ or ()) if isinstance(c.cell_contents, (list, tuple, np.ndarray, int))]
        for x, y in zip(before, after):
            ctx.ok(same(canon(x), canon(y)), "argument-modified", op)
        ctx.ok(want[0] == got[0], "answer-changed", lambda: "%s: %r instead of %r" % (op, got[0:2] if got[0] != "ok" else "ok", want[0:2] if want[0] != "ok" else "ok"))
        ctx.ok(same(got[1], want[1]), "answer-changed", lambda: "%s differs from the answer of a fresh object" % op)
        for o, r, c in kept:
            ctx.ok(same(canon(r), c), "earlier-result-modified", lambda: "%s modified by %s" % (o, op))
        if got[0] == "ok":
            kept.append((op, res, got[1]))
        ctx.observe(repr(got[1])[:400])
