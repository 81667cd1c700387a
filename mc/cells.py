"""Independent model of the reference cells (no FIAT code).

A cell is a product of simplices.  Entities of a simplex are given by ordered
vertex tuples; entities of a product are products of those, numbered
lexicographically; a "flat" cell (quadrilateral, hexahedron) numbers the
entities of all multi-dimensions with the same sum consecutively, multi-
dimensions in ascending order.
"""
import itertools
import math
from functools import lru_cache

import numpy as np

UFC_TOPO = {
    0: {0: {0: (0,)}},
    1: {0: {0: (0,), 1: (1,)}, 1: {0: (0, 1)}},
    2: {0: {i: (i,) for i in range(3)},
        1: {0: (1, 2), 1: (0, 2), 2: (0, 1)}, 2: {0: (0, 1, 2)}},
    3: {0: {i: (i,) for i in range(4)},
        1: {0: (2, 3), 1: (1, 3), 2: (1, 2), 3: (0, 3), 4: (0, 2), 5: (0, 1)},
        2: {0: (1, 2, 3), 1: (0, 2, 3), 2: (0, 1, 3), 3: (0, 1, 2)},
        3: {0: (0, 1, 2, 3)}},
}


def _v(n, lo, hi):
    vs = [[lo] * n]
    for i in range(n):
        w = [lo] * n
        w[i] = hi
        vs.append(w)
    return np.array(vs, dtype=float).reshape(n + 1, n)


DEF_TOPO = {
    1: UFC_TOPO[1],
    2: {0: {i: (i,) for i in range(3)}, 1: {0: (1, 2), 1: (2, 0), 2: (0, 1)}, 2: {0: (0, 1, 2)}},
    3: {0: {i: (i,) for i in range(4)},
        1: {0: (1, 2), 1: (2, 0), 2: (0, 1), 3: (0, 3), 4: (1, 3), 5: (2, 3)},
        2: {0: (1, 3, 2), 1: (2, 3, 0), 2: (3, 1, 0), 3: (0, 1, 2)},
        3: {0: (0, 1, 2, 3)}},
}
INT_TOPO = {
    2: {0: {i: (i,) for i in range(3)}, 1: {0: (0, 1), 1: (1, 2), 2: (2, 0)}, 2: {0: (0, 1, 2)}},
    3: {0: {i: (i,) for i in range(4)},
        1: {0: (0, 1), 1: (1, 2), 2: (2, 0), 3: (0, 3), 4: (1, 3), 5: (2, 3)},
        2: {0: (0, 1, 3), 1: (1, 2, 3), 2: (0, 3, 2), 3: (0, 2, 1)},
        3: {0: (0, 1, 2, 3)}},
}


class Simplex(object):
    def __init__(self, name, n, verts, topo):
        self.name, self.n, self.verts, self.topo = name, n, verts, topo
        self.factors = (self,)

    def contains(self, p, eps=0.0):
        lam = self.bary(p)
        return bool(np.min(lam) >= -eps)

    def bary(self, p):
        A = np.vstack([self.verts.T, np.ones(self.n + 1)])
        return np.linalg.solve(A, np.append(np.asarray(p, float), 1.0))


def _simplices():
    out = {"P": Simplex("P", 0, np.zeros((1, 0)), UFC_TOPO[0])}
    for n, c in ((1, "I"), (2, "T"), (3, "S")):
        out[c] = Simplex(c, n, _v(n, 0.0, 1.0), UFC_TOPO[n])
        out["D" + c] = Simplex("D" + c, n, _v(n, -1.0, 1.0), DEF_TOPO[n])
        if n > 1:
            out["N" + c] = Simplex("N" + c, n, _v(n, 0.0, 1.0), INT_TOPO[n])
    return out


SIMPLEX = _simplices()


class MCell(object):
    """Reference cell: a simplex, a product of cells, or a flat product.

    self.factors are simplices; self.ents[(dim, ent)] = (simplex dims, simplex
    entities); dimension keys follow the structure of the product."""

    def __init__(self, name, subs=None, simplex=None, flat=False):
        self.name, self.flat = name, flat
        self.subs = subs
        self.product = subs is not None
        self.ents, self.topo = {}, {}
        if simplex is not None:
            self.factors = [simplex]
            for d in sorted(simplex.topo):
                self.topo[d] = dict(simplex.topo[d])
                for e in simplex.topo[d]:
                    self.ents[(d, e)] = ((d,), (e,))
            self.verts = simplex.verts
            self.top = simplex.n
        else:
            self.factors = [f for s in subs for f in s.factors]
            self.verts = np.array([np.concatenate(c) for c in itertools.product(*[s.verts for s in subs])])
            nv = [len(s.verts) for s in subs]
            strides = [int(np.prod(nv[i + 1:])) for i in range(len(nv))]
            prod = {}
            for dim in itertools.product(*[sorted(s.topo) for s in subs]):
                prod[dim] = []
                for es in itertools.product(*[sorted(s.topo[d]) for s, d in zip(subs, dim)]):
                    vs = tuple(sum(w * v for w, v in zip(strides, combo))
                               for combo in itertools.product(*[s.topo[d][e] for s, d, e in zip(subs, dim, es)]))
                    md = sum((s.ents[(d, e)][0] for s, d, e in zip(subs, dim, es)), ())
                    me = sum((s.ents[(d, e)][1] for s, d, e in zip(subs, dim, es)), ())
                    prod[dim].append(((md, me), vs))
            if flat:
                for dim in sorted(prod):
                    d = sum(dim)
                    self.topo.setdefault(d, {})
                    for me, vs in prod[dim]:
                        self.ents[(d, len(self.topo[d]))] = me
                        self.topo[d][len(self.topo[d])] = vs
            else:
                for dim, lst in prod.items():
                    self.topo[dim] = {}
                    for i, (me, vs) in enumerate(lst):
                        self.topo[dim][i] = vs
                        self.ents[(dim, i)] = me
            self.top = sum(f.n for f in self.factors) if flat else tuple(s.top for s in subs)
        self.dims = tuple(f.n for f in self.factors)
        self.sd = sum(self.dims)
        self.volume = float(np.prod([abs(np.linalg.det(f.verts[1:] - f.verts[0])) / math.factorial(f.n)
                                     if f.n else 1.0 for f in self.factors]))

    def tdim(self, dim):
        return dim if isinstance(dim, int) else sum(self.tdim(d) for d in dim)

    def entities(self, codim=None):
        out = [k for k in self.ents if codim is None or self.sd - self.tdim(k[0]) == codim]
        return sorted(out, key=lambda k: (self.tdim(k[0]), str(k[0]), k[1]))

    def entity_dims(self, dim, ent):
        """Simplex dims of the reference shape of the entity."""
        return self.ents[(dim, ent)][0]

    def transform(self, dim, ent):
        """Affine map (A, b) from the reference entity (UFC simplices) into the cell."""
        mdim, es = self.ents[(dim, ent)]
        n = sum(mdim)
        A = np.zeros((self.sd, n))
        b = np.zeros(self.sd)
        r = c = 0
        for f, d, e in zip(self.factors, mdim, es):
            vs = [f.verts[v] for v in f.topo[d][e]]
            b[r:r + f.n] = vs[0]
            for j in range(d):
                A[r:r + f.n, c + j] = vs[j + 1] - vs[0]
            r += f.n
            c += d
        return A, b

    def ref_transform(self, dim, ent):
        """Affine map from the entity's own reference cell (which for default and
        Intrepid simplices is again a default / Intrepid simplex) into the cell,
        and the map from the UFC shape to that reference cell."""
        A, b = self.transform(dim, ent)
        S, t = subref(self.factors, self.entity_dims(dim, ent))
        Si = np.linalg.inv(S) if len(S) else S
        return A @ Si, b - A @ Si @ t, S, t

    def closure(self, dim, ent):
        """All entities contained in the closure of (dim, ent), itself included."""
        vs = set(self.topo[dim][ent])
        return [(d, e) for d in self.topo for e, w in self.topo[d].items() if set(w) <= vs]

    def contains(self, p, eps=0.0):
        r = 0
        for f in self.factors:
            if f.n and not f.contains(p[r:r + f.n], eps):
                return False
            r += f.n
        return True


def subref(factors, mdim):
    """UFC shape -> reference cell of an entity with simplex dims mdim."""
    n = sum(mdim)
    S, t = np.zeros((n, n)), np.zeros(n)
    c = 0
    for f, d in zip(factors, mdim):
        default = f.name[0] == "D"
        S[c:c + d, c:c + d] = np.eye(d) * (2.0 if default else 1.0)
        t[c:c + d] = -1.0 if default else 0.0
        c += d
    return S, t


@lru_cache(None)
def cell(name):
    if name in SIMPLEX:
        return MCell(name, simplex=SIMPLEX[name])
    if name == "Q":
        return MCell("Q", [cell("I"), cell("I")], flat=True)
    if name == "H":
        return MCell("H", [cell("I")] * 3, flat=True)
    parts = split_product(name)
    return MCell(name, [cell(p) for p in parts])


def split_product(name):
    """'(IxI)xI' -> ['IxI', 'I']"""
    parts, depth, cur = [], 0, ""
    for ch in name:
        if ch == "(":
            depth += 1
            if depth == 1:
                continue
        if ch == ")":
            depth -= 1
            if depth == 0:
                continue
        if ch == "x" and depth == 0:
            parts.append(cur)
            cur = ""
        else:
            cur += ch
    return parts + [cur]


def simplex_lattice(n, k, lo=0):
    """Multi-indices of the lattice of degree k on the UFC n-simplex, i >= lo."""
    if n == 0:
        return np.zeros((1, 0))
    out = []
    for idx in itertools.product(range(k + 1), repeat=n):
        if sum(idx) <= k:
            if lo == 0 or (min(idx) >= lo and k - sum(idx) >= lo):
                out.append([i / float(k) if k else 0.0 for i in idx])
    return np.array(out).reshape(len(out), n)


# a generic affine contraction towards the interior (irrational offsets: no
# symmetry, no lattice coincidences)
_OFF = np.array([0.0613, 0.0827, 0.0471, 0.0719])


def generic_points(n, k):
    """unisolvent for P_k on the UFC n-simplex, all strictly interior, generic."""
    L = simplex_lattice(n, k)
    return L * 0.7391 + _OFF[:n]


def spread_points(k):
    """k+1 strictly interior points of the UFC interval, clustered at its ends (well conditioned for high degrees)"""
    return (0.5 - 0.5 * np.cos(np.pi * (np.arange(k + 1) + 0.5) / (k + 1))).reshape(-1, 1) * 0.98 + 0.0131


def product_points(dims, ks, gen):
    sets = [gen(n, k) for n, k in zip(dims, ks)]
    out = [np.concatenate(c) for c in itertools.product(*sets)]
    return np.array(out).reshape(len(out), sum(dims))


def ref_points(dims, k, kind="generic"):
    """Points on the reference entity that is the product of UFC simplices."""
    ks = k if isinstance(k, (tuple, list)) else [k] * len(dims)
    if kind == "generic":
        return product_points(dims, ks, generic_points)
    if kind == "lattice":
        return product_points(dims, ks, simplex_lattice)
    raise KeyError(kind)


def to_cell(c, pts):
    """Map points on the UFC reference shape to the cell c (Default cells)."""
    A, b = c.transform(c.top, 0)
    return np.asarray(pts) @ A.T + b
