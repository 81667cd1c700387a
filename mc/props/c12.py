"""Functionals: every published form of a functional gives the number of its mathematical definition."""
import itertools

import numpy as np
import FIAT
from FIAT import functional as F, polynomial_set, dual_set
from FIAT.quadrature import QuadratureRule

from .. import catalog, cells, poly, h

BOUNDS = {"quick": "24 functional kinds x all simplices (UFC, default, Intrepid; derivative kinds and dual sets on the UFC tetrahedron only) x all entities x points / weight polynomials of degree <= 2 x "
                   "polynomial sets of degree <= 3 and embedded degree <= 4 x forms (dictionaries, callable, coefficient vector, dual set); dual sets: all "
                   "ordered pairs of kinds with the same value shape, all orders of a set of one functional per kind and entity (rotations)",
                "thorough": "weights of degree <= 3, sets of degree <= 5"}
ASSUMPTIONS = ["normals, tangents and entity maps of the cells are those of C08",
               "integral moments are taken in the reference measure of the entity, with the (scaled) normal of the class",
               "IntegralMomentOfFaceTangentEvaluation is read as the integral of (v x n).(p x n)"]

SIMPLICES = ["I", "T", "S", "DI", "DT", "DS", "NT", "NS"]
# kind -> (value rank, cells dimensions)
KINDS = {"PointEvaluation": (0, (1, 2, 3)), "PointDerivative": (0, (1, 2, 3)), "PointNormalDerivative": (0, (2, 3)),
         "PointNormalSecondDerivative": (0, (2, 3)), "IntegralMoment": (0, (1, 2, 3)), "IntegralMomentOfNormalDerivative": (0, (2, 3)),
         "ComponentPointEvaluation": (1, (1, 2, 3)), "IntegralMoment-comp": (1, (1, 2, 3)), "FrobeniusIntegralMoment": (1, (1, 2, 3)),
         "PointNormalEvaluation": (1, (2, 3)), "PointScaledNormalEvaluation": (1, (2, 3)), "PointEdgeTangentEvaluation": (1, (2, 3)),
         "PointFaceTangentEvaluation": (1, (3,)), "IntegralMomentOfEdgeTangentEvaluation": (1, (2, 3)),
         "IntegralMomentOfFaceTangentEvaluation": (1, (3,)), "MonkIntegralMoment": (1, (3,)),
         "IntegralMomentOfScaledNormalEvaluation": (1, (2, 3)), "IntegralMomentOfNormalEvaluation": (1, (2, 3)),
         "IntegralMomentOfTangentialEvaluation": (1, (2,)), "IntegralMomentOfDivergence": (1, (2, 3)),
         "IntegralLegendreNormalMoment": (1, (2,)), "IntegralLegendreTangentialMoment": (1, (2,)),
         "FrobeniusIntegralMoment2": (2, (2, 3)), "PointwiseInnerProductEvaluation": (2, (2, 3)), "IntegralMoment-comp2": (2, (2, 3)),
         "TensorBidirectionalMomentInnerProductEvaluation": (2, (2, 3)), "IntegralMomentOfNormalNormalEvaluation": (2, (2, 3)),
         "IntegralMomentOfTensorDivergence": (2, (2,)), "IntegralLegendreNormalNormalMoment": (2, (2,)),
         "IntegralLegendreNormalTangentialMoment": (2, (2,))}

SYMMETRIC = ["PointwiseInnerProductEvaluation", "TensorBidirectionalMomentInnerProductEvaluation", "IntegralLegendreNormalNormalMoment",
             "IntegralLegendreNormalTangentialMoment"]


def configs(tier):
    out = []
    for c in SIMPLICES:
        n = cells.cell(c).sd
        for k, (r, dims) in KINDS.items():
            if n in dims and not (tier == "quick" and c in ("DS", "NS") and "Deriv" in k and k != "PointNormalDerivative"):
                out.append(("kind", c, k))
        for r in (0, 1, 2):
            if (n > 1 or r < 2) and not (tier == "quick" and c in ("DS", "NS")):
                out.append(("dual", c, r))
    return out


def cost(c):
    return cells.cell(c[1]).sd * (10 if c[0] == "dual" else 1)


def gauss(n, m):
    """exact collapsed Gauss rule on the UFC n-simplex (degree 2m-1-n at least)"""
    x, w = np.polynomial.legendre.leggauss(m)
    x, w = (x + 1) / 2, w / 2
    if n == 0:
        return np.zeros((1, 0)), np.ones(1)
    P, W = np.array([[a] for a in x]), w
    for d in range(1, n):
        # (y, t) -> (y * (1 - t), t)
        P2, W2 = [], []
        for t, wt in zip(x, w):
            for p, wp in zip(P, W):
                P2.append(list(p * (1 - t)) + [t])
                W2.append(wp * wt * (1 - t) ** d)
        P, W = np.array(P2), np.array(W2)
    return P, W


class Fun(object):
    """batch of model polynomials C (B, ncomp, N) with value shape `shape`; call: (B, npts, *shape)"""

    def __init__(self, sp, C, shape):
        self.sp, self.C, self.shape = sp, C, shape

    def __call__(self, X, alpha=None):
        C = self.sp.deriv(self.C, alpha) if alpha is not None and any(alpha) else self.C
        X = np.asarray(X, float).reshape(-1, self.sp.sd)
        v = np.einsum("bcn,pn->bpc", C, self.sp.V(X), optimize=True)
        return v.reshape(v.shape[:2] + self.shape)


def monomials(m, k, shape):
    """all monomials of degree <= k in every component, as one batch (component slowest)"""
    sp = poly.space(m.name, k)
    nc = int(np.prod(shape)) if shape else 1
    C = np.einsum("cd,ij->cidj", np.eye(nc), np.eye(sp.N)).reshape(nc * sp.N, nc, sp.N)
    return Fun(sp, C, shape)


def weight(n, i, x):
    """i-th weight function (monomial) at points x of the n-simplex"""
    e = poly.exps_total(n, 3)[i]
    return np.prod(np.asarray(x, float).reshape(len(x), n) ** np.array(e), axis=1) * (1 + 0.5 * i)


def nweights(n, k):
    return len(poly.exps_total(n, k))


def unit(sd, i):
    return tuple(int(j == i) for j in range(sd))


def refrule(m, dim, ent, mm):
    """rule on the reference entity as the cell itself defines it: points, weights, points in the cell"""
    n = sum(m.entity_dims(dim, ent))
    P, W = gauss(n, mm)
    A, b, S, t = m.ref_transform(dim, ent)
    R = P @ S.T + t
    return R, W * abs(np.linalg.det(S)), R @ A.T + b, P


def variants(kind, m, c, tier):
    """[(label, constructor, definition)]; definition: Fun -> number"""
    sd = m.sd
    wk = (2 if not (m.sd == 3 and ("Deriv" in kind or "Div" in kind)) else 1) if tier == "quick" else 3
    M = 7 if tier == "quick" else 9
    out = []
    inner = [tuple(float(v) for v in p) for p in cells.to_cell(m, np.array([[.21, .33, .17], [.5, .11, .07], [0., 0., 0.], [0., 1., 0.]])[:, :sd])]
    facets = sorted(m.topo[sd - 1]) if sd else []

    def onent(d, e, k=0):
        A, b = m.transform(d, e)
        return tuple(float(v) for v in A @ np.array([[.3, .2], [.6, .15]][k])[:d] + b)

    def ent_rule(d, e, ref):
        R, W, X, P = refrule(m, d, e, M)
        return R, W, X, P, QuadratureRule(ref, [tuple(map(float, r)) for r in R], W)

    if kind == "PointEvaluation":
        for p in inner:
            out.append((p, lambda p=p: F.PointEvaluation(c, p), lambda f, p=p: f(p)[:, 0]))
    elif kind == "PointDerivative":
        for k in (0, 1, 2, 3) if sd < 3 or tier != "quick" else (0, 1, 2) if m.name == "S" else (0, 1):
            for a in poly.alphas(sd, k):
                for p in (inner if k <= 1 and sd < 3 else inner[1:3] if k < 3 or tier != "quick" else inner[1:2]):
                    out.append((a, lambda a=a, p=p: F.PointDerivative(c, p, a), lambda f, a=a, p=p: f(p, a)[:, 0]))
    elif kind in ("PointNormalDerivative", "PointNormalSecondDerivative", "PointNormalEvaluation", "PointScaledNormalEvaluation"):
        for e in facets:
            n = np.asarray(c.compute_scaled_normal(e) if "Scaled" in kind else c.compute_normal(e), float)
            for k in (0, 1):
                p = onent(sd - 1, e, k)
                if kind == "PointNormalDerivative":
                    def d(f, p=p, n=n):
                        return sum(n[i] * f(p, unit(sd, i))[:, 0] for i in range(sd))
                elif kind == "PointNormalSecondDerivative":
                    def d(f, p=p, n=n):
                        return sum(n[i] * n[j] * f(p, tuple(a + b for a, b in zip(unit(sd, i), unit(sd, j))))[:, 0]
                                   for i in range(sd) for j in range(sd))
                else:
                    def d(f, p=p, n=n):
                        return f(p)[:, 0] @ n
                out.append((e, lambda e=e, p=p: getattr(F, kind)(c, e, p), d))
    elif kind in ("PointEdgeTangentEvaluation", "PointFaceTangentEvaluation"):
        if "Edge" in kind:
            for e in m.topo[1]:
                p = onent(1, e)
                out.append((e, lambda e=e, p=p: F.PointEdgeTangentEvaluation(c, e, p),
                            lambda f, e=e, p=p: f(p)[:, 0] @ np.asarray(c.compute_edge_tangent(e), float)))
        else:
            for e in facets:
                for t in (0, 1):
                    p = onent(2, e)
                    out.append(((e, t), lambda e=e, p=p, t=t: F.PointFaceTangentEvaluation(c, e, t, p),
                                lambda f, e=e, p=p, t=t: f(p)[:, 0] @ np.asarray(c.compute_face_tangents(e)[t], float)))
    elif kind == "ComponentPointEvaluation":
        for i in range(sd):
            for p in inner[:2]:
                out.append((i, lambda i=i, p=p: F.ComponentPointEvaluation(c, i, (sd,), p), lambda f, i=i, p=p: f(p)[:, 0, i]))
    elif kind == "PointwiseInnerProductEvaluation":
        E = np.eye(sd)
        for v in list(E) + [np.arange(1., sd + 1)]:
            for w in list(E) + [np.arange(2., sd + 2) ** 2]:
                p = inner[0]
                out.append((str((v, w)), lambda v=v, w=w, p=p: F.PointwiseInnerProductEvaluation(c, v, w, p),
                            lambda f, v=v, w=w, p=p: np.einsum('i,bij,j->b', v, f(p)[:, 0], w)))
    elif kind in ("IntegralMoment", "IntegralMoment-comp", "IntegralMoment-comp2", "FrobeniusIntegralMoment", "FrobeniusIntegralMoment2",
                  "TensorBidirectionalMomentInnerProductEvaluation", "IntegralMomentOfDivergence", "IntegralMomentOfTensorDivergence"):
        R, W, X, P, Q = ent_rule(sd, 0, c)
        for i in range(nweights(sd, wk if not kind.endswith("comp2") else 1)):
            g = weight(sd, i, P)
            if kind == "IntegralMoment":
                out.append((i, lambda g=g: F.IntegralMoment(c, Q, g),
                            lambda f, g=g: f(X) @ (W * g)))
            elif kind.startswith("IntegralMoment-comp"):
                r = KINDS[kind][0]
                for comp in itertools.product(range(sd), repeat=r):
                    out.append((comp, lambda g=g, comp=comp: F.IntegralMoment(c, Q, g, comp, (sd,) * r),
                                lambda f, g=g, comp=comp: f(X)[(slice(None), slice(None)) + comp] @ (W * g)))
            elif kind.startswith("Frobenius"):
                r = KINDS[kind][0]
                G = np.array([(j + 1) * weight(sd, (i + j) % nweights(sd, wk), P) for j in range(sd ** r)]).reshape((sd,) * r + (len(P),))
                out.append((i, lambda G=G: F.FrobeniusIntegralMoment(c, Q, G),
                            lambda f, G=G: np.einsum('cp,bpc,p->b', G.reshape(-1, len(W)), f(X).reshape(-1, len(W), G.size // len(W)), W)))
            elif kind.startswith("TensorBi"):
                v, w_ = np.arange(1., sd + 1), np.arange(2., sd + 2) ** 2
                out.append((i, lambda g=g, v=v, w_=w_: F.TensorBidirectionalMomentInnerProductEvaluation(c, v, w_, Q, g, 3),
                            lambda f, g=g, v=v, w_=w_: np.einsum('i,bpij,j,p->b', v, f(X), w_, W * g)))
            elif kind == "IntegralMomentOfDivergence":
                out.append((i, lambda g=g: F.IntegralMomentOfDivergence(c, Q, g),
                            lambda f, g=g: sum(f(X, unit(sd, j))[..., j] for j in range(sd)) @ (W * g)))
            else:
                G = np.array([g, 3 * weight(sd, (i + 1) % nweights(sd, wk), P)])
                out.append((i, lambda G=G: F.IntegralMomentOfTensorDivergence(c, Q, G),
                            lambda f, G=G: sum(f(X, unit(sd, b))[..., a, b] @ (W * G[a]) for a in (0, 1) for b in (0, 1))))
    elif kind == "IntegralMomentOfNormalDerivative":
        for e in facets:
            ref = c.construct_subelement(sd - 1)
            R, W, X, P, Q = ent_rule(sd - 1, e, ref)
            n = np.asarray(c.compute_normal(e), float)
            for i in range(nweights(sd - 1, wk)):
                g = weight(sd - 1, i, P)
                out.append(((e, i), lambda e=e, g=g, Q=Q: F.IntegralMomentOfNormalDerivative(c, e, Q, g),
                            lambda f, g=g, W=W, X=X, n=n: sum(n[j] * f(X, unit(sd, j)) for j in range(sd)) @ (W * g)))
    elif kind.startswith("IntegralLegendre"):
        for e in facets:
            n, t = np.asarray(c.compute_normal(e), float), np.asarray(c.compute_normalized_edge_tangent(e), float)
            N, T = np.asarray(c.compute_scaled_normal(e), float), np.asarray(c.compute_edge_tangent(e), float)
            xs, ws = gauss(1, 9)
            A, b = m.transform(1, e)
            X = xs @ A.T + b
            L2 = float(np.linalg.norm(A)) ** 2
            for k in range(wk + 1):
                leg = np.polynomial.legendre.legval(2 * xs[:, 0] - 1, [0] * k + [1])
                for cd in (k + 4, k + 5):
                    if "Bidir" in kind or kind.endswith("NormalNormalMoment") or kind.endswith("NormalTangentialMoment"):
                        s = (n, n if kind.endswith("NormalNormalMoment") else t)

                        def d(f, leg=leg, s=s, L2=L2, X=X):
                            return L2 * np.einsum('i,bpij,j,p->b', s[0], f(X), s[1], ws * leg)
                    else:
                        s = N if "Normal" in kind else T

                        def d(f, leg=leg, s=s, X=X):
                            return (f(X) @ s) @ (ws * leg)
                    out.append(((e, k), lambda e=e, k=k, cd=cd: getattr(F, kind)(c, e, k, cd), d))
    else:
        ed = 1 if ("EdgeTangent" in kind or kind == "IntegralMomentOfTangentialEvaluation") else sd - 1
        for e in m.topo[ed]:
            ref = c.construct_subelement(ed)
            R, W, X, P, Q = ent_rule(ed, e, ref)
            for i in range(nweights(ed, wk)):
                g = weight(ed, i, P)
                if kind in ("IntegralMomentOfFaceTangentEvaluation", "MonkIntegralMoment"):
                    G = np.array([(j + 1) * weight(ed, (i + j) % nweights(ed, wk), P) for j in range(3)])
                    n = np.asarray(c.compute_scaled_normal(e), float)
                    if kind == "MonkIntegralMoment":
                        out.append(((e, i), lambda e=e, G=G, Q=Q: F.MonkIntegralMoment(c, Q, G.T, e),
                                    lambda f, G=G, W=W, X=X: np.einsum('ip,bpi,p->b', G, f(X), W)))
                    else:
                        out.append(((e, i), lambda e=e, G=G, Q=Q: F.IntegralMomentOfFaceTangentEvaluation(c, Q, G, e),
                                    lambda f, G=G, W=W, X=X, n=n: np.einsum('bpi,pi,p->b', np.cross(f(X), n), np.cross(G.T, n), W)))
                    continue
                if kind == "IntegralMomentOfNormalNormalEvaluation":
                    n = np.asarray(c.compute_scaled_normal(e), float)

                    def d(f, g=g, W=W, X=X, n=n):
                        return np.einsum('i,bpij,j,p->b', n, f(X), n, W * g)
                else:
                    s = np.asarray(c.compute_edge_tangent(e) if "Tangent" in kind else c.compute_scaled_normal(e), float)

                    def d(f, g=g, W=W, X=X, s=s):
                        return (f(X) @ s) @ (W * g)
                out.append(((e, i), lambda e=e, g=g, Q=Q: getattr(F, kind)(c, Q, g, e), d))
    return out


def shape_of(kind, sd):
    return (sd,) * KINDS[kind][0]


def by_dicts(fn, f):
    v, mag = 0.0, 1.0
    for p, terms in fn.get_point_dict().items():
        F = f(p)[:, 0]
        for w, comp in terms:
            x = float(w) * F[(slice(None),) + tuple(comp)]
            v, mag = v + x, mag + np.max(np.abs(x))
    for p, terms in fn.deriv_dict.items():
        for w, a, comp in terms:
            x = float(w) * f(p, tuple(a))[:, 0][(slice(None),) + tuple(comp)]
            v, mag = v + x, mag + np.max(np.abs(x))
    return v, mag


def poly_sets(c, shape, tier):
    """polynomial sets: (label, set) including one whose embedded degree exceeds its degree"""
    out = []
    for k in ((0, 3) if tier == "quick" else (0, 1, 2, 3, 5)):
        out.append(("ON%d" % k, lambda k=k: polynomial_set.ONPolynomialSet(c, k, shape)))
    if len(shape) == 2:
        out.append(("Sym2", lambda: polynomial_set.ONSymTensorPolynomialSet(c, 2)))

    def mixed():
        s = polynomial_set.ONPolynomialSet(c, 4, shape)
        co = s.get_coeffs()
        return polynomial_set.PolynomialSet(c, 2, 4, s.get_expansion_set(), 0.5 * co[1:5] + co[0:4], s.get_dmats())
    out.append(("embedded", mixed))
    return out


def expansion_model(m, s):
    """model polynomials of the expansion functions"""
    ed = s.get_embedded_degree()
    es = s.get_expansion_set()
    pts, _, _ = poly.fit_setup(m.name, ed)
    C, res = poly.fit(m.name, ed, np.asarray(es.tabulate(ed, [tuple(map(float, p)) for p in pts]), float))
    return poly.space(m.name, ed), C, res


class Table(object):
    """definition as a vector on the monomials (linear), cached"""

    def __init__(self, d, m, k, shape):
        self.sp = poly.space(m.name, k)
        nc = int(np.prod(shape)) if shape else 1
        self.R = np.asarray(d(monomials(m, k, shape)), float).reshape(nc, self.sp.N)

    def riesz(self, C, spC, shape):
        # embed spC into sp (same centre and scale)
        E = np.zeros((len(C), self.sp.N))
        for j, e in enumerate(spC.exps):
            E[:, self.sp.index[e]] = C[:, j]
        return (self.R @ E.T).reshape(shape + (len(C),))


def run(cfg, ctx):
    mode, cname, what = cfg
    m, c = cells.cell(cname), catalog.fiat_cell(cname)
    tier = ctx.tier
    K = 4 if tier == "quick" else 5
    if mode == "kind":
        shape = shape_of(what, m.sd)
        V = cached("variants", (what, cname), lambda: variants(what, m, c, tier))
        i = ctx.choose("functional", range(len(V)))
        lab, make, d = V[i]
        fn = make()
        ctx.step()
        ctx.eq(tuple(fn.target_shape), shape, "target-shape")
        ctx.ok(fn.get_reference_element() == c, "reference-element")
        T = cached("table", (what, cname, i), lambda: Table(d, m, K, shape))
        form = ctx.choose("form", ["dicts", "riesz", "dual"] + (["callable"] if what in ("PointEvaluation", "PointDerivative") or what.startswith("IntegralMoment-")
                                                                 or what == "IntegralMoment" else []))
        if form == "dicts":
            ctx.eq(fn.max_deriv_order, max([sum(a) for t in fn.deriv_dict.values() for _, a, _ in t] + [0]), "max-deriv-order")
            for p in list(fn.get_point_dict()) + list(fn.deriv_dict):
                ctx.eq(len(p), m.sd, "point-dimension")
            v, mag = by_dicts(fn, monomials(m, K, shape))
            R = T.R
            if what in SYMMETRIC:
                v, R = [sym(np.asarray(a).reshape(shape + (-1,)), shape, 0) for a in (v, R)]
            ctx.close(np.ravel(v), R.ravel(), "dictionaries", "%s on the monomials" % (lab,), tol=1e-10, scale=mag)
            ctx.observe(T.R)
        elif form == "callable":
            f = monomials(m, 3, shape)
            want = d(f)
            if what == "PointDerivative":
                for j, e in enumerate(f.sp.exps):
                    def g(x, e=e, sp=f.sp):
                        r = 1
                        for q in range(m.sd):
                            r = r * ((x[q] - float(sp.c[q])) / float(sp.s)) ** e[q]
                        return r
                    ctx.close(float(fn(g)), want[j], "callable", "%s on monomial %d" % (lab, j), tol=1e-10)
                co = np.cos(np.arange(len(want)) * 1.3) + 0.1

                def g(x, sp=f.sp):
                    y = [(x[q] - float(sp.c[q])) / float(sp.s) for q in range(m.sd)]
                    r = 0
                    for b, e in zip(co, sp.exps):
                        t = float(b)
                        for q in range(m.sd):
                            t = t * y[q] ** e[q]
                        r = r + t
                    return r
                ctx.close(float(fn(g)), co @ want, "callable", "%s on a polynomial" % (lab,), tol=1e-10)
            else:
                for j in range(3):
                    co = np.cos(np.arange(len(want)) * (j + 1.3)) + 0.1       # generic functions (the functionals are linear)
                    g = Fun(f.sp, np.einsum("b,bcn->cn", co, f.C)[None], shape)
                    table = {tuple(p): g(p)[0, 0] for p in fn.get_point_dict()}
                    got = fn((lambda x: table[tuple(x)]) if shape else (lambda x: float(table[tuple(x)])))
                    ctx.close(got, co @ want, "callable", "%s" % (lab,), tol=1e-10)
            ctx.step()
        else:
            sets = poly_sets(c, shape, tier)
            sets = dict(sets)
            if fn.deriv_dict and tier == "quick":
                sets.pop("ON3")
            lab2 = ctx.choose("set", sorted(sets))
            s = cached("set", (cname, shape, lab2), sets[lab2])
            spC, C, res = cached("model", (cname, s.get_embedded_degree()), lambda: expansion_model(m, s))
            ctx.ok(res < 1e-9, "expansion-degree")
            want = T.riesz(C, spC, shape)
            if form == "riesz":
                got = fn.to_riesz(s)
            else:
                ds = dual_set.DualSet([fn], c, trivial_ids(c, 1))
                got = ds.to_riesz(s)
                ctx.eq(np.asarray(got).shape, (1,) + want.shape, "dual-riesz-shape")
                got = got[0]
            ctx.step()
            if what in SYMMETRIC:
                ctx.eq(np.shape(got), np.shape(want), "riesz-shape")
                got, want = sym(got, shape, 0), sym(want, shape, 0)
            ctx.close(got, want, "riesz" if form == "riesz" else "dual-riesz", "%s on %s" % (lab, lab2), tol=1e-9)
            # the action on the members of the set is the contraction with their coefficients
            co = np.asarray(s.get_coeffs(), float)
            co = sym(co, shape, 1) if what in SYMMETRIC else co
            act = np.tensordot(co, np.asarray(got, float), axes=len(want.shape))
            ctx.close(act, np.tensordot(co, want, axes=len(want.shape)), "action", tol=1e-8)
    else:
        shape = (m.sd,) * what
        kinds = [k for k, (r, dims) in KINDS.items() if r == what and m.sd in dims]
        lists = [list(p) for p in itertools.product(kinds, repeat=2)] + [kinds[i:] + kinds[:i] for i in range(len(kinds))]
        sel = ctx.choose("kinds", lists)
        pick = ctx.choose("members", [0, 1, -1] if m.sd < 3 or tier != "quick" or len(sel) > 2 else [1])
        nodes, defs = [], []
        for n, k in enumerate(sel):
            V = cached_variants(k, m, c, tier)
            lab, make, T = V[(pick + n) % len(V)]
            nodes.append(make())
            defs.append(T())
        s = cached("set", (cname, shape, "ON3"), lambda: polynomial_set.ONPolynomialSet(c, 3, shape))
        spC, C, res = cached("model", (cname, 3), lambda: expansion_model(m, s))
        ds = dual_set.DualSet(nodes, c, trivial_ids(c, len(nodes)))
        got = np.asarray(ds.to_riesz(s), float)
        ctx.step()
        ctx.eq(len(ds.get_nodes()), len(nodes), "dual-nodes")
        want = np.array([T.riesz(C, spC, shape) for T in defs])
        ctx.eq(got.shape, want.shape, "dual-riesz-shape")
        ctx.close(sym(got, shape, 1), sym(want, shape, 1), "dual-stack", "%s" % sel, tol=1e-9)
        if pick == 0 or len(sel) > 2:
            single = np.array([n.to_riesz(s) for n in nodes])
            ctx.close(got, single, "dual-versus-single", "%s" % sel, tol=1e-9)
        ctx.observe(got)


_cv = {}
_c = {}


def cached(kind, key, make):
    k = (kind, key)
    if k not in _c:
        if len(_c) > 3000:
            _c.clear()
        _c[k] = make()
    return _c[k]


def sym(A, shape, lead):
    """symmetric part in the value components: these functionals are defined on symmetric tensor fields"""
    A = np.asarray(A, float)
    return (A + np.swapaxes(A, lead, lead + 1)) / 2 if len(shape) == 2 else A


def cached_variants(kind, m, c, tier):
    """like variants, with the definitions tabulated once per process"""
    key = (kind, m.name)
    if key not in _cv:
        if any(k[1] != m.name for k in _cv):
            _cv.clear()
        shape = shape_of(kind, m.sd)
        out = []
        for lab, make, d in variants(kind, m, c, tier)[:4] + variants(kind, m, c, tier)[-4:]:
            memo = []

            def T(d=d, memo=memo):
                if not memo:
                    memo.append(Table(d, m, 3, shape))
                return memo[0]
            out.append((lab, make, T))
        _cv[key] = out
    return _cv[key]


def trivial_ids(c, n):
    top = c.get_topology()
    sd = c.get_spatial_dimension()
    return {d: {e: (list(range(n)) if d == sd else []) for e in top[d]} for d in top}
