"""Point and integral dof variants of the H(div)/H(curl) families: same space and layout, reproduction, commuting interpolation."""
import numpy as np

from .. import cells, h, poly, spaces
from .c12 import gauss

BOUNDS = {"quick": "RT, BDM, N1, N2 on 6 simplices (UFC degree <= 5 / 3, other reference cells <= 2); variants default, point, integral, "
                   "integral(q) for q = k+1..k+5; reproduction of every member of the documented space, commuting and moments for every "
                   "monomial field of degree <= min(q - k, k + 3), every facet and edge, every test monomial",
          "thorough": "degree <= 6 / 4; q = k+1..k+9; monomial fields of degree <= min(q - k, k + 5)"}
LIMIT_S = 600
FAMS = ("RT", "BDM", "N1", "N2")


def configs(tier):
    big = tier == "thorough"
    out = []
    for c in ("T", "S", "DT", "DS", "NT", "NS"):
        n = cells.cell(c).sd
        top = {2: 6, 3: 4}[n] if big else {2: 5, 3: 3}[n]
        if len(c) > 1:
            top = 3 if big and n == 2 else 2
        for f in FAMS:
            for k in range(1, top + 1):
                if f == "N2" and c in ("DS", "NS") and k > 1:
                    continue                # documented: only with UFC convention
                vs = [None, "point", "integral"] + ["integral(%d)" % (k + j) for j in range(1, 10 if big else 6)]
                if n == 3 and k > 2:
                    vs = [None, "point", "integral(%d)" % (k + 1), "integral(%d)" % (k + 4)]
                    if not big and f in ("BDM", "N2"):
                        vs.pop()
                if c in ("T", "S") and k == 2:
                    vs.append("integral(%d)" % (14 if n == 2 else 13))
                out += [(f, c, k, v) for v in vs]
    return out


def cost(c):
    return c[2] ** cells.cell(c[1]).sd * (2 if c[0] in ("BDM", "N2") else 1) * (3 if c[3] == "integral" else 1)


class E(object):
    def __init__(self, f, c, k, v):
        self.family, self.cell, self.degree, self.D = f, c, k, k
        self.expr = "%s(%s, %d%s)" % (f, c, k, "" if v is None else ", variant=%r" % v)


def interpolate(el, sp, n):
    """coefficients of the interpolants of all vector monomials of sp: dofs (ndof, n * N)"""
    def tab(order, pts):
        V = sp.V(np.array(pts)).T                      # (N, p)
        out = np.zeros((n, sp.N, n, V.shape[1]))
        for i in range(n):
            out[i, :, i] = V
        return {(0,) * n: out.reshape(n * sp.N, n, -1)}
    M, _, cnt = h.apply_dual(el.dual_basis(), tab, n, n * sp.N, (n,))
    return M


def curl(sp, C, n):
    d = lambda i, j: sp.deriv(C[:, i], tuple(int(j == m) for m in range(n)))
    if n == 2:
        return (d(1, 0) - d(0, 1))[:, None]
    return np.stack([d(2, 1) - d(1, 2), d(0, 2) - d(2, 0), d(1, 0) - d(0, 1)], axis=1)


def div(sp, C, n):
    return sum(sp.deriv(C[:, i], tuple(int(i == m) for m in range(n))) for i in range(n))[:, None]


def run(cfg, ctx):
    f, cname, k, v = cfg
    e = E(*cfg)
    c = cells.cell(cname)
    n = c.sd
    el = h.element(e.expr)
    ref = h.element(E(f, cname, k, "point").expr)
    ctx.step(2)
    C, res = h.primal(e, el)
    sp = h.sp(e)
    ctx.ok(res < 1e-7 * h.magnitude(C), "fit", lambda: "%g" % res)
    nd = len(C)
    q = None
    if v and v.startswith("integral"):
        q = int(v[9:-1]) if "(" in v else 5 * k
    view = ctx.choose("view", ["same space", "reproduction", "dofs"] + (["commuting", "moments"] if q else []))
    if view == "same space":
        ctx.eq(el.space_dimension(), ref.space_dimension(), "dimension")
        ctx.eq({d: {i: len(x) for i, x in m.items()} for d, m in el.entity_dofs().items()},
               {d: {i: len(x) for i, x in m.items()} for d, m in ref.entity_dofs().items()}, "dofs-per-entity")
        R, _ = h.primal(E(f, cname, k, "point"), ref)
        ctx.ok(h.rank(C.reshape(nd, -1)) == nd, "dependent")
        ctx.ok(h.in_span(C.reshape(nd, -1), R.reshape(nd, -1)) < 1e-7, "spaces-differ")
        ctx.ok(h.in_span(R.reshape(nd, -1), C.reshape(nd, -1)) < 1e-7, "spaces-differ")
        ctx.eq((el.value_shape(), el.degree(), el.mapping()[0], el.get_formdegree()),
               (ref.value_shape(), ref.degree(), ref.mapping()[0], ref.get_formdegree()), "metadata")
        ctx.observe(np.diag(C.reshape(nd, -1) @ C.reshape(nd, -1).T))
    elif view == "reproduction":
        W, _ = spaces.simplicial(e)
        M = interpolate(el, sp, n)                      # (nd, n*N)
        dofs = W.reshape(len(W), -1) @ M.T
        got = dofs @ C.reshape(nd, -1)
        ctx.close(got, W.reshape(len(W), -1), "function-of-the-space-not-reproduced", tol=1e-8 * h.magnitude(C) * max(1.0, np.abs(dofs).max()))
        ctx.observe(dofs)
    elif view == "dofs":
        ids = el.entity_dofs()
        fam_div = f in ("RT", "BDM")
        point = v in (None, "point")
        ents = [(d, i) for d in range(1, n) for i in c.topo[d]]
        d, i = ctx.choose("entity", ents)
        A, b = c.transform(d, i)
        T = A.T                                         # tangents
        for j in ids[d][i]:
            ell = el.dual_basis()[j]
            P = ell.get_point_dict()
            ctx.step()
            ctx.eq(len(ell.deriv_dict), 0, "derivative-dof")
            if point and d == (n - 1 if fam_div else 1):
                ctx.eq(len(P), 1, "point-variant-samples-more-than-one-point", j)
            w = np.zeros((len(P), n))
            for r, (x, terms) in enumerate(P.items()):
                for a, comp in terms:
                    w[r, comp[0]] += a
            if fam_div:
                ctx.close(w @ A, np.zeros((len(P), d)), "facet-dof-sees-the-tangential-component", j, tol=1e-9 * max(1, np.abs(w).max()))
            else:
                proj = w @ np.linalg.pinv(T) @ T
                ctx.close(w, proj, "dof-sees-the-normal-component", j, tol=1e-9 * max(1, np.abs(w).max()))
            ctx.ok(np.abs(w).max() > 1e-12, "zero-dof")
        if v is None:
            # the default is the point variant
            for j in ids[d][i]:
                x, y = [dict((tuple(np.round(p, 10)), [(round(float(a), 9), tuple(t)) for a, t in tt if abs(a) > 1e-12])
                             for p, tt in z.dual_basis()[j].get_point_dict().items()) for z in (el, ref)]
                ctx.eq(x, y, "default-is-not-the-point-variant", j)
    else:
        extra = 7 if ctx.tier == "thorough" else 5
        s = max(0, min(q - k, 2 * k + extra if n == 2 else k + extra + 1)) if q < 13 or k != 2 else q - k
        big = poly.space(cname, max(s, k))
        M = interpolate(el, big, n)                     # (nd, n*N)
        # members of degree <= s
        keep = [i * big.N + j for i in range(n) for j, a in enumerate(big.exps) if sum(a) <= s]
        M = M[:, keep]
        emb = np.zeros((nd, n, big.N))
        for j, a in enumerate(sp.exps):
            emb[:, :, big.index[a]] = C[:, :, j]
        I = np.zeros((n * big.N, n, big.N))
        for i in range(n):
            I[i * big.N + np.arange(big.N), i, np.arange(big.N)] = 1
        err = np.tensordot(M.T, emb, axes=(1, 0)) - I[keep]
        mag = h.magnitude(C) * max(1.0, np.abs(M).max())
        ctx.step(len(keep))
        m = max(s, k) + k + 2
        if view == "commuting":
            if f in ("RT", "BDM"):
                inner(ctx, c, big, div(big, err, n), k - 1, m, mag, "divergence")
            elif n == 2:
                inner(ctx, c, big, curl(big, err, 2), k - 1, m, mag, "curl")
            else:
                cu = curl(big, err, 3)
                inner(ctx, c, big, cu, k - 2, m, mag, "curl")
                for i in c.topo[2]:
                    A, b = c.transform(2, i)
                    flux(ctx, big, cu, np.cross(A[:, 0], A[:, 1])[:, None], A, b, k - 1, m, mag, "curl flux %d" % i)
        else:
            r = k - 1 if f in ("RT", "N1") else k
            d = n - 1 if f in ("RT", "BDM") else 1
            i = ctx.choose("entity", list(c.topo[d]))
            A, b = c.transform(d, i)
            if d == 1 and f in ("N1", "N2"):
                w = A
            elif n == 2:
                w = np.array([[A[1, 0]], [-A[0, 0]]])
            else:
                w = np.cross(A[:, 0], A[:, 1])[:, None]
            flux(ctx, big, err, w, A, b, r, m, mag, "moments on (%d, %d)" % (d, i))
            ctx.observe(err[:, :, 0])


def inner(ctx, c, sp, F, r, m, mag, what):
    """integral of every component of F (rows, nc, N) against all monomials of degree <= r is zero"""
    if r < 0:
        return
    P, w = gauss(c.sd, m)
    A, b = c.transform(c.top, 0)
    X = P @ A.T + b
    t = np.array([np.prod(P ** np.array(a), axis=1) for a in poly.exps_total(c.sd, r)])
    val = np.einsum("icN,pN,tp,p->ict", F, sp.V(X), t, w, optimize=True)
    ctx.close(val, np.zeros_like(val), "does-not-commute", what, tol=1e-9 * mag)


def flux(ctx, sp, F, dirs, A, b, r, m, mag, what):
    P, w = gauss(A.shape[1], m)
    X = P @ A.T + b
    t = np.array([np.prod(P ** np.array(a), axis=1) for a in poly.exps_total(A.shape[1], r)])
    val = np.einsum("icN,pN,cd,tp,p->idt", F, sp.V(X), dirs, t, w, optimize=True)
    ctx.close(val, np.zeros_like(val), "does-not-commute" if what.startswith("curl") else "moments-not-preserved", what, tol=1e-9 * mag)
