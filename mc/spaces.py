"""Independent descriptions of the documented polynomial spaces: matrices whose
rows (members, ncomp * N) span the space in the model Space of (cell, D)."""
import itertools

import numpy as np

from . import cells, poly


def total(sp, k):
    """rows: all monomials of total degree <= k"""
    return np.array([sp.unit(e) for e in sp.exps if sum(e) <= k]).reshape(-1, sp.N)


def homog(sp, k):
    return np.array([sp.unit(e) for e in sp.exps if sum(e) == k]).reshape(-1, sp.N)


def vec(rows, n):
    """all rows in every one of n components"""
    out = []
    for i in range(n):
        for r in rows:
            m = np.zeros((n, rows.shape[1]))
            m[i] = r
            out.append(m)
    return np.array(out)


def times(sp, rows, factor):
    """multiply by polynomial factor {exps: w}; result has to fit in sp"""
    return poly.mult(sp, rows, sp, factor)


def xi(sp, d):
    e = [0] * sp.sd
    e[d] = 1
    return {tuple(e): 1.0}


def sym(rows, n):
    out = []
    for i in range(n):
        for j in range(i, n):
            for r in rows:
                m = np.zeros((n, n, rows.shape[1]))
                m[i, j] = r
                m[j, i] = r
                out.append(m.reshape(n * n, -1))
    return np.array(out)


def bary(sp, cellname):
    """barycentric coordinates as {exps: w} in the centred variables of sp"""
    c = cells.cell(cellname)
    V = np.hstack([(c.verts - sp.c) / sp.s, np.ones((c.sd + 1, 1))])
    W = np.linalg.inv(V)            # columns: lambda_i = W[:-1,i].x + W[-1,i]
    out = []
    for i in range(c.sd + 1):
        f = {(0,) * c.sd: W[-1, i]}
        for d in range(c.sd):
            f[tuple(int(d == j) for j in range(c.sd))] = W[d, i]
        out.append(f)
    return out


def prod_bary(sp, cellname, idx, rows):
    L = bary(sp, cellname)
    for i in idx:
        rows = times(sp, rows, L[i])
    return rows


def nullspace(A, tol=1e-10):
    u, s, vt = np.linalg.svd(A)
    r = int(np.sum(s > tol * max(1.0, s[0]))) if s.size else 0
    return vt[r:]


def constrained(basis, functionals):
    """members of span(basis) killed by the functionals: basis (m, ...), functionals(m-array) -> (m, nc)"""
    M = functionals(basis)          # (m, nc)
    N = nullspace(M.T)
    return np.tensordot(N, basis, axes=(1, 0))


def edge_points(c, e, k):
    A, b = c.transform(1, e)
    t = (np.arange(k + 1) + 0.37) / (k + 1.3)
    return t[:, None] @ A.T + b


def edge_degree_constraints(sp, c, basis, comp, k, D):
    """functionals that vanish iff comp(basis) restricted to every edge is of degree <= k
    (divided differences on D+1 points); comp(e, values(m, nc, npts)) -> (m, npts)"""
    cols = []
    for e in c.topo[1]:
        pts = edge_points(c, e, D)
        t = (np.arange(D + 1) + 0.37) / (D + 1.3)
        Vm = np.vander(2 * t - 1, D + 1, increasing=True)
        Vi = np.linalg.inv(Vm)
        vals = comp(e, basis @ sp.V(pts).T)          # (m, npts)
        coef = vals @ Vi.T
        cols.append(coef[:, k + 1:])
    return np.hstack(cols)


def normal(c, e):
    a, b = [c.verts[v] for v in c.topo[1][e]]
    t = b - a
    return np.array([t[1], -t[0]]), t


def simplicial(entry):
    """rows (members, ncomp, N) spanning the documented space of the entry, and the number of
    leading basis functions it applies to (None = all)."""
    sp = poly.space(entry.cell, entry.D)
    c = cells.cell(entry.cell)
    n, k, f = c.sd, entry.degree, entry.family
    one = lambda rows: rows[:, None, :]
    if f in ("CG", "DG", "Taylor", "Bernstein", "GL", "GLL", "GR", "DPC"):
        return one(total(sp, k)), None
    if f == "P0":
        return one(total(sp, 0)), None
    if f == "CR":
        return one(total(sp, 1)), None
    if f == "Hermite":
        return one(total(sp, 3)), None
    if f == "Morley":
        return one(total(sp, 2)), None
    if f in ("Argyris", "QArgyris"):
        return one(total(sp, k)), None
    if f == "Bell":
        P5 = one(total(sp, 5))

        def nd(basis):
            G = np.stack([sp.deriv(basis[:, 0, :], a) for a in ((1, 0), (0, 1))], axis=1)
            return edge_degree_constraints(sp, c, G, lambda e, v: np.einsum("d,mdp->mp", normal(c, e)[0], v), 3, 5)
        return constrained(P5, nd), 18
    if f == "Bubble":
        return one(prod_bary(sp, entry.cell, range(n + 1), total(sp, k - n - 1))), None
    if f == "FBubble":
        # members of P_k that vanish at all lattice nodes that are not interior to a facet
        L = cells.simplex_lattice(n, k)
        lam = np.hstack([L, 1 - L.sum(axis=1, keepdims=True)])
        keep = (np.sum(lam < 1e-12, axis=1) == 1)
        B = total(sp, k)
        other = cells.to_cell(c, L[~keep])
        return one(constrained(B, lambda b: b @ sp.V(other).T)), None
    if f == "KMV":
        rows = [total(sp, k)]
        if n == 2 and entry.D > k:
            rows.append(prod_bary(sp, entry.cell, range(3), total(sp, entry.D - 3)))
        if n == 3 and entry.D > k:
            for fac in itertools.combinations(range(4), 3):
                rows.append(prod_bary(sp, entry.cell, fac, total(sp, k + 1 - 3)))
            rows.append(prod_bary(sp, entry.cell, range(4), total(sp, entry.D - 4)))
        return one(np.vstack(rows)), None
    if f in ("RT", "DRT"):
        H = homog(sp, k - 1)
        x = np.stack([times(sp, H, xi(sp, d)) for d in range(n)], axis=1)
        return np.vstack([vec(total(sp, k - 1), n), x]), None
    if f == "N1":
        H = homog(sp, k - 1)
        X = [times(sp, H, xi(sp, d)) for d in range(n)]
        if n == 2:
            x = [np.stack([X[1], -X[0]], axis=1)]
        else:
            Z = np.zeros_like(X[0])
            x = [np.stack([Z, X[2], -X[1]], axis=1), np.stack([-X[2], Z, X[0]], axis=1), np.stack([X[1], -X[0], Z], axis=1)]
        return np.vstack([vec(total(sp, k - 1), n)] + x), None
    if f in ("BDM", "N2"):
        return vec(total(sp, k), n), None
    if f == "BDFM":
        B = vec(total(sp, 2), 2)
        return constrained(B, lambda b: edge_degree_constraints(
            sp, c, b, lambda e, v: np.einsum("d,mdp->mp", normal(c, e)[0], v), 1, 2)), None
    if f == "MTW":
        B = vec(total(sp, 3), 2)

        def cons(b):
            div = sp.deriv(b[:, 0], (1, 0)) + sp.deriv(b[:, 1], (0, 1))
            nonconst = div[:, [i for i, e in enumerate(sp.exps) if sum(e) > 0]]
            return np.hstack([nonconst, edge_degree_constraints(
                sp, c, b, lambda e, v: np.einsum("d,mdp->mp", normal(c, e)[0], v), 1, 3)])
        return constrained(B, cons), 9
    if f == "AW":
        B = sym(total(sp, 3), 2)

        def cons(b):
            b4 = b.reshape(len(b), 2, 2, -1)
            out = []
            for i in range(2):
                div = sp.deriv(b4[:, i, 0], (1, 0)) + sp.deriv(b4[:, i, 1], (0, 1))
                out.append(div[:, [j for j, e in enumerate(sp.exps) if sum(e) > 1]])
            return np.hstack(out)
        return constrained(B, cons), 24
    if f == "AWnc":
        B = sym(total(sp, 2), 2)

        def nn(e, v):
            nn_, _ = normal(c, e)
            return np.einsum("i,mijp,j->mp", nn_, v.reshape(len(v), 2, 2, -1), nn_)
        return constrained(B, lambda b: edge_degree_constraints(sp, c, b, nn, 1, 2)), 15
    if f in ("Regge", "HHJ"):
        return sym(total(sp, k), n), None
    if f == "Ser":
        rows = [sp.unit(e) for e in sp.exps if sum(i for i in e if i > 1) <= k]
        return one(np.array(rows)), None
    raise KeyError(f)


class _Leaf(object):
    pass


def leaf(expr):
    """(family, cell, degree) of a factor expression like RT(T, 2, variant='integral')"""
    fam, rest = expr.split("(", 1)
    args = [a.strip() for a in rest.rstrip(")").split(",")]
    e = _Leaf()
    e.expr, e.family, e.cell, e.degree = expr, fam, args[0], int(args[1])
    e.D = e.degree
    return e


def product(f, D):
    """span of a product element F1 (with .tree) in the Space of total degrees D per factor simplex:
    rows (m, ncomp, N) with N = prod of the factor sizes."""
    op = f.tree[0]
    if op == "leaf":
        e = leaf(f.expr)
        e.D = D[0]
        return simplicial(e)[0]
    if op == "tp":
        a, b = f.tree[1:]
        ra = product(a, D[:len(a.D)])
        rb = product(b, D[len(a.D):])
        out = np.einsum("acx,bdy->abcdxy", ra, rb)
        return out.reshape(len(ra) * len(rb), ra.shape[1] * rb.shape[1], -1)
    if op == "flat":
        return product(f.tree[1], D)
    if op == "enr":
        return np.vstack([product(t, D) for t in f.tree[1:]])
    if op in ("Hdiv", "Hcurl"):
        t = f.tree[1]
        a, b = t.tree[1:]
        r = product(t, D)
        na, nb = sum(cells.cell(a.cell).dims), sum(cells.cell(b.cell).dims)
        out = np.zeros((len(r), na + nb, r.shape[2]))
        place(op, a, b, na, nb, r, out)
        return out
    raise KeyError(op)


def place(op, a, b, na, nb, r, out):
    """documented placement (and sign) of the product r (m, c, ...) of a and b in out (m, na+nb, ...)"""
    own = "contravariant piola" if op == "Hdiv" else "covariant piola"
    if a.mapping == "affine" and b.mapping == "affine":
        if op == "Hdiv":
            if a.k == 0:
                out[:, 0] = -r[:, 0]
            else:
                out[:, -1] = r[:, 0]
        else:
            if a.k == 1:
                out[:, 0] = r[:, 0]
            else:
                out[:, -1] = r[:, 0]
        return
    v, s = (a, slice(0, na)) if a.mapping != "affine" else (b, slice(na, na + nb))
    if v.mapping == own:
        out[:, s] = r
    else:
        i = s.start
        sg = 1.0 if op == "Hdiv" else -1.0
        out[:, i] = sg * r[:, 1]
        out[:, i + 1] = -sg * r[:, 0]
