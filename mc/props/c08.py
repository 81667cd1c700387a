"""Reference cells: topology, geometry and entity maps agree with an independent model."""
import itertools
import math

import numpy as np
from FIAT import reference_element as RE

from .. import cells, catalog

BOUNDS = {"quick": "all simplices (UFC, default, Intrepid) and every product of up to three factors from "
                   "{point, interval, triangle, tetrahedron, quadrilateral}, flat quadrilateral and hexahedron; every entity"}

SIMP = ["P", "I", "T", "S", "DI", "DT", "DS", "NT", "NS"]
UFC = ["I", "T", "S", "Q"]


def configs(tier):
    out = list(SIMP) + ["Q", "H"]
    names = ["I", "T", "S", "Q", "P", "H"]
    for a in names:
        for b in names:
            if tier != "quick" or cells.cell(a).sd + cells.cell(b).sd <= 5:
                out.append("%sx%s" % (a, b))
    for t in itertools.product("IT", repeat=3):
        if tier != "quick" or t.count("T") < 3:
            out.append("x".join(t))
    out += ["(IxI)xI", "Ix(IxI)", "(TxI)xI", "Qx(IxI)", "DIxDI", "DTxDI", "DTxI", "(IxIxI)xI", "Ix(IxIxI)", "((IxI)xI)xI", "(IxPxI)xT",
            "(IxI)x(IxI)", "IxIxIxI", "TxPxI", "((TxI)xP)xI", "DTxNT"]
    if tier == "thorough":
        out += ["x".join(t) for t in itertools.product("ITSQ", repeat=3)]
        out += ["IxIxIxI", "(IxI)x(IxI)", "(TxI)xT"]
    return list(dict.fromkeys(out)) + ["factories", "lattices", "affine"]


def _conn(m):
    """(d0, d1) -> list per entity of dimension d0 of incident d1 entities"""
    con = {}
    for d0 in m.topo:
        for d1 in m.topo:
            rows = []
            for e0 in sorted(m.topo[d0]):
                v0 = set(m.topo[d0][e0])
                rows.append(tuple(e1 for e1 in sorted(m.topo[d1])
                                  if v0 <= set(m.topo[d1][e1]) or set(m.topo[d1][e1]) <= v0))
            con[(d0, d1)] = rows
    return con


OPS = ["topology", "vertices", "connectivity", "equality", "transform", "subelement", "volume", "normal", "tangents",
       "contains", "points", "flatten", "purity"]


def run(name, ctx):
    if name in ("factories", "lattices", "affine"):
        return globals()["run_" + name](ctx)
    m = cells.cell(name)
    c = catalog.fiat_cell(name)
    op = ctx.choose("op", OPS)
    ctx.step()
    globals()["op_" + op](name, m, c, ctx)


def op_topology(name, m, c, ctx):
    got = c.get_topology()
    ctx.eq({d: {e: tuple(int(v) for v in vs) for e, vs in es.items()} for d, es in got.items()},
           m.topo, "topology", name)
    ctx.eq(c.get_spatial_dimension(), m.sd, "spatial-dimension")
    ctx.eq(c.get_dimension(), m.top, "dimension")
    ctx.observe(repr(m.topo))


def op_vertices(name, m, c, ctx):
    ctx.close(np.array(c.get_vertices()).reshape(m.verts.shape), m.verts, "vertices")
    for d in m.topo:
        for e, vs in m.topo[d].items():
            got = c.get_vertices_of_subcomplex(c.get_topology()[d][e])
            ctx.close(np.array(got).reshape(len(vs), m.sd), m.verts[list(vs)], "entity-vertices")
            ctx.step()


def op_connectivity(name, m, c, ctx):
    got = c.get_connectivity()
    if m.product and not m.flat:
        return      # documented: not offered on tensor product cells
    want = _conn(m)
    dims = sorted(m.topo)
    # documented keys: pairs of dimensions, the second not larger
    ctx.eq(sorted(got), [(i, j) for i in dims for j in dims if j <= i], "connectivity-keys")
    for k in got:
        ctx.eq([tuple(int(x) for x in r) for r in got[k]], want[k], "connectivity", k)
        ctx.step()
        ctx.observe(repr(got[k]))


def op_equality(name, m, c, ctx):
    other = ctx.choose("other", list(OTHERS))
    d = catalog.fiat_cell(other)
    same = _canon(other) == _canon(name)
    ctx.eq(c == d, same, "equality", "%s == %s" % (name, other))
    ctx.eq(c != d, not same, "inequality", "%s != %s" % (name, other))
    if same:
        ctx.eq(hash(c), hash(d), "hash")


OTHERS = ["I", "T", "S", "DI", "DT", "DS", "NT", "NS", "Q", "H", "IxI", "TxI", "IxT", "IxIxI", "QxI", "P"]


def _canon(n):
    return n


def op_transform(name, m, c, ctx):
    ent = ctx.choose("entity", m.entities())
    d, e = ent
    A, b, S, t0 = m.ref_transform(d, e)
    dims = m.entity_dims(d, e)
    t = c.get_entity_transform(d, e)
    rep = ctx.choose("point-type", ["tuple", "list", "array"])
    mk = {"tuple": tuple, "list": list, "array": np.array}[rep]
    for kind, k in (("lattice", 2 if m.sd < 4 else 1), ("generic", 1)):
        for p in cells.ref_points(dims, k, kind):
            p = S @ p + t0
            q = np.asarray(t(mk(p)), dtype=float).reshape(-1)
            ctx.close(q, A @ p + b, "entity-transform:%s" % (d,), "entity %s point %s" % (ent, p), tol=1e-12)
            ctx.step()
    # the transform object is reusable and stateless: first point again
    if sum(dims):
        p = S @ cells.ref_points(dims, 1, "generic")[0] + t0
        ctx.close(np.asarray(t(mk(p)), float).reshape(-1), A @ p + b, "entity-transform-reuse", tol=1e-12)
        ctx.observe(A @ p + b)


def op_subelement(name, m, c, ctx):
    for d in m.topo:
        s = c.construct_subelement(d)
        ctx.step()
        dims = m.entity_dims(d, 0)
        ctx.eq(s.get_spatial_dimension(), m.tdim(d), "subelement-dimension", d)
        S, t = cells.subref(m.factors, dims)
        nv = int(np.prod([k + 1 for k in dims]))
        ctx.eq(len(s.get_vertices()), nv, "subelement-vertices", d)
        vol = float(np.prod([1.0 / math.factorial(k) for k in dims])) * (np.linalg.det(S) if len(S) else 1.0)
        ctx.close(s.volume(), vol, "subelement-volume", str(d), tol=1e-12)
        pts = cells.ref_points(dims, 1, "lattice") @ S.T + t
        got = sorted(tuple(np.round(v, 12)) for v in np.array(s.get_vertices(), float).reshape(nv, sum(dims)))
        ctx.eq(got, sorted(tuple(np.round(v, 12)) for v in pts.reshape(nv, sum(dims))), "subelement-corners", d)
    if not m.product and m.sd > 1:
        ctx.eq(c.get_facet_element(), c.construct_subelement(m.sd - 1), "facet-element")


def _measure(V):
    T = V[1:] - V[0]
    return math.sqrt(max(0.0, np.linalg.det(T @ T.T))) / math.factorial(len(V) - 1)


def op_volume(name, m, c, ctx):
    ctx.close(c.volume(), m.volume, "volume", tol=1e-12)
    if not m.product and m.sd:
        for d in m.topo:
            if d == 0:
                continue
            for e, vs in m.topo[d].items():
                ctx.close(c.volume_of_subcomplex(d, e), _measure(m.verts[list(vs)]), "entity-volume",
                          "%s %s" % (d, e), tol=1e-12)
                ctx.step()


def op_normal(name, m, c, ctx):
    """Normals are orthogonal to the facet, have the documented length and, where
    the docstring promises it, point outward."""
    if m.sd == 0:
        return
    for d, e in m.entities(codim=1):
        V = m.verts[list(m.topo[d][e])]
        T = V[1:] - V[0]
        out = V.mean(axis=0) - m.verts.mean(axis=0)
        if not m.product and m.sd in (1, 2, 3):
            n = np.asarray(c.compute_normal(e), float)
            ctx.step()
            if m.sd > 1:
                ctx.close(T @ n, np.zeros(len(T)), "normal-orthogonal", "facet %d" % e, tol=1e-12)
            want = 2.0 if name == "S" else 1.0
            ctx.close(np.linalg.norm(n), want, "normal-length", "facet %d" % e, tol=1e-12)
            sn = np.asarray(c.compute_scaled_normal(e), float)
            area = _measure(V) if m.sd > 1 else 1.0
            ctx.close(sn, n * area, "scaled-normal", "facet %d" % e, tol=1e-12)
            if name[0] in "DNI":
                ctx.ok(np.dot(n, out) > 0, "normal-outward", "facet %d" % e)
            elif name == "T":
                # UFC convention: right-hand rotation of the ordered edge tangent
                t = V[1] - V[0]
                ctx.close(n, np.array([t[1], -t[0]]) / np.linalg.norm(t), "ufc-normal", tol=1e-12)
            elif name == "S":
                w = np.cross(V[1] - V[0], V[2] - V[0])
                ctx.close(n, -2 * w / np.linalg.norm(w), "ufc-normal", tol=1e-12)
            ctx.observe(n)
        if hasattr(c, "compute_reference_normal") and m.sd and not ("P" in name):
            fi = e
            r = np.asarray(c.compute_reference_normal(d, e), float)
            ctx.step()
            ctx.eq(r.shape, (m.sd,), "reference-normal-shape")
            ctx.close(T @ r, np.zeros(len(T)), "reference-normal-orthogonal", "facet %s %d" % (d, fi), tol=1e-12)
            ctx.close(np.max(np.abs(r)), 1.0, "reference-normal-length", "facet %s %d" % (d, fi), tol=1e-12)
            ctx.ok(np.dot(r, out) > 0, "reference-normal-outward", "facet %s %d" % (d, fi))
            ctx.observe(r)


def op_tangents(name, m, c, ctx):
    if m.product or m.sd == 0:
        return
    for e, vs in m.topo[1].items():
        V = m.verts[list(vs)]
        t = V[1] - V[0]
        ctx.close(c.compute_edge_tangent(e), t, "edge-tangent", tol=1e-12)
        ctx.close(c.compute_normalized_edge_tangent(e), t / np.linalg.norm(t), "unit-edge-tangent", tol=1e-12)
        ctx.step(2)
    if m.sd == 3:
        for e, vs in m.topo[2].items():
            V = m.verts[list(vs)]
            ctx.close(np.array(c.compute_face_tangents(e)), V[1:] - V[0], "face-tangents", tol=1e-12)
            ctx.step()
    if m.sd >= 2:
        for d in range(1, m.sd):
            for e, vs in m.topo[d].items():
                V = m.verts[list(vs)]
                ctx.close(np.array(c.compute_tangents(d, e)), V[1:] - V[0], "tangents", "%d %d" % (d, e), tol=1e-12)
                N = np.array(c.compute_normalized_tangents(d, e))
                ctx.close(N, (V[1:] - V[0]) / np.linalg.norm(V[1:] - V[0], axis=1)[:, None], "unit-tangents", tol=1e-12)
                ctx.step(2)
    if m.sd >= 2:
        for d in range(1, m.sd + 1):
            for e, vs in m.topo[d].items():
                got = np.array(c.compute_face_edge_tangents(d, e))
                want = np.array([m.verts[b] - m.verts[a] for a, b in _edges_of(m, d, vs)])
                ctx.close(got, want, "face-edge-tangents", "%d %d" % (d, e), tol=1e-12)
                ctx.step()


def _edges_of(m, d, vs):
    """all pairs (i < j) of vertices of the entity, lexicographic"""
    return list(itertools.combinations(vs, 2))


def op_contains(name, m, c, ctx):
    if not hasattr(c, "contains_point") or "P" in name or "D" in name or "N" in name:
        return
    eps = ctx.choose("eps", [0, 1e-10, 0.3])
    base = cells.ref_points(m.dims, 1 if m.sd > 4 else 2 if m.sd > 3 else 3, "lattice")
    cen = m.verts.mean(axis=0)
    for f in (1.0, 0.5, 0.999, 1.001, 1.15, 2.0):
        for p in base:
            q = cen + f * (p - cen)
            lam = min(_margins(m, q))
            if abs(lam + eps) < 1e-9:
                if f == 1.0 and eps > 0:
                    pass
                else:
                    continue
            if f == 1.0 and eps == 0:
                continue
            got = c.contains_point(tuple(q), epsilon=eps)
            ctx.step()
            ctx.eq(bool(got), bool(lam >= -eps), "contains-point", "point %s eps %g" % (q, eps))


def _margins(m, q):
    out, r = [], 0
    for f in m.factors:
        x = np.asarray(q[r:r + f.n])
        out += list(x) + [1 - x.sum()]
        r += f.n
    return out


def op_points(name, m, c, ctx):
    """make_points: the interior lattice of the entity, each point once, strictly inside."""
    if m.product:
        return
    ent = ctx.choose("entity", m.entities())
    d, e = ent
    k = ctx.choose("order", list(range(1, 8 if m.sd < 3 else 6)))
    got = c.make_points(d, e, k)
    got = np.array(got, float).reshape(len(got), m.sd)
    ctx.step()
    A, b = m.transform(d, e)
    if d == 0:
        want = b.reshape(1, -1)
    else:
        want = cells.simplex_lattice(d, k, lo=1.0 / k)
        L = [i for i in itertools.product(range(1, k), repeat=d) if sum(i) < k]
        want = np.array([[x / k for x in i] for i in L]).reshape(-1, d) @ A.T + b
    ctx.eq(len(got), len(want), "lattice-count", "entity %s order %d" % (ent, k))
    key = lambda X: np.array(sorted(map(tuple, np.round(X, 10))))
    if len(want):
        ctx.close(key(got), key(want), "lattice-points", "entity %s order %d" % (ent, k), tol=1e-9)
        # the order on an entity is the order on the reference entity mapped by
        # the vertices (what makes dofs match across cells)
        ref = np.array(RE.ufc_simplex(d).make_points(d, 0, k), float).reshape(len(want), d) if d else np.zeros((1, 0))
        ctx.close(got, ref @ A.T + b, "lattice-order", "entity %s order %d" % (ent, k), tol=1e-12)
    ctx.observe(got)


def op_flatten(name, m, c, ctx):
    if name not in ("IxI", "IxIxI", "QxI", "TxI", "TxT", "(IxI)xI", "DIxDI", "Q", "H", "I", "DI", "IxQ", "P"):
        return
    cube = name not in ("TxI", "TxT")
    ctx.eq(RE.is_hypercube(c), cube and name != "P", "is_hypercube", name)
    if not cube:
        try:
            RE.flatten_reference_cube(c)
        except TypeError:
            return
        ctx.ok(False, "flatten-accepts-non-cube", name)
    f = RE.flatten_reference_cube(c)
    if m.sd >= 2 and name != "DIxDI":
        w = cells.cell({2: "Q", 3: "H"}[m.sd])
        ctx.eq(type(f).__name__, {2: "UFCQuadrilateral", 3: "UFCHexahedron"}[m.sd], "flattened-type")
        ctx.close(np.array(f.get_vertices()), w.verts, "flattened-vertices")
    if m.product and not m.flat and name not in ("QxI", "IxQ"):
        ft = RE.flatten_entities(c.get_topology())
        un = RE.compute_unflattening_map(c.get_topology())
        # bijection: every entity of the product exactly once, vertices preserved
        pairs = [(d, e) for d in m.topo for e in m.topo[d]]
        ctx.eq(sorted(un.values(), key=str), sorted(pairs, key=str), "unflatten-onto")
        ctx.eq(sorted(un, key=str), sorted([(d, e) for d in ft for e in ft[d]], key=str), "unflatten-domain")
        for k, (d, e) in un.items():
            ctx.eq(tuple(int(v) for v in ft[k[0]][k[1]]), m.topo[d][e], "unflatten-vertices", k)
            ctx.eq(m.tdim(d), k[0], "unflatten-dimension", k)


def op_purity(name, m, c, ctx):
    """Every query leaves the cell unchanged: asking for everything in one order and
    in the reverse order gives the same answers."""
    order = ctx.choose("order", ["fwd", "rev"])
    qs = [("topology", lambda: c.get_topology()), ("vertices", lambda: c.get_vertices()),
          ("conn", lambda: c.get_connectivity()), ("vol", lambda: c.volume()), ("key", lambda: hash(c)),
          ("dim", lambda: c.get_dimension())]
    first = {k: repr(f()) for k, f in qs}
    seq = qs if order == "fwd" else qs[::-1]
    for k, f in seq:
        ctx.eq(repr(f()), first[k], "query-history", k)
        ctx.step()
    ctx.eq(repr(catalog.fiat_cell(name).get_topology()), first["topology"], "fresh-equals-used")


CELLNAMES = {"vertex": "P", "interval": "I", "triangle": "T", "tetrahedron": "S", "quadrilateral": "Q",
             "hexahedron": "H"}


def run_factories(ctx):
    k = ctx.choose("kind", ["ufc_cell", "ufc_cell-object", "ufc_simplex", "default_simplex", "illegal"])
    if k.startswith("ufc_cell"):
        names = list(CELLNAMES) + ["%s * %s" % p for p in itertools.product(CELLNAMES, repeat=2)] + [
            "interval * interval * interval", "triangle * interval * interval", "interval * triangle * interval"]
        nm = ctx.choose("name", names)
        mname = "x".join(CELLNAMES[x] for x in nm.split(" * "))
        if k == "ufc_cell":
            c = RE.ufc_cell(nm)
        else:
            c = RE.ufc_cell(type("UFLCell", (), {"cellname": lambda self: nm})())
        ctx.step()
        m = cells.cell(mname)
        op_topology(mname, m, c, ctx)
        op_vertices(mname, m, c, ctx)
        ctx.eq(c, catalog.fiat_cell(mname), "ufc_cell", nm)
        ctx.eq(hash(c), hash(catalog.fiat_cell(mname)), "ufc_cell-hash", nm)
    elif k == "illegal":
        f, a = ctx.choose("call", [("ufc_cell", "pentagon"), ("ufc_simplex", 4), ("ufc_simplex", -1),
                                   ("default_simplex", 0), ("default_simplex", 4)])
        try:
            getattr(RE, f)(a)
        except RuntimeError:
            return
        ctx.ok(False, "illegal-cell-accepted", "%s(%r)" % (f, a))
    else:
        n = ctx.choose("dim", [0, 1, 2, 3] if k == "ufc_simplex" else [1, 2, 3])
        mname = ("D" if k[0] == "d" else "") + "PITS"[n]
        c = getattr(RE, k)(n)
        ctx.step()
        m = cells.cell(mname)
        op_topology(mname, m, c, ctx)
        op_vertices(mname, m, c, ctx)
        ctx.eq(c, catalog.fiat_cell(mname), k)


def run_lattices(ctx):
    """make_lattice: every lattice point of the simplex at distance >= `interior` layers, once, lexicographic."""
    n = ctx.choose("dim", [1, 2, 3])
    k = ctx.choose("order", list(range(1, 9 if n < 3 else 7)))
    i = ctx.choose("interior", list(range(0, 5)))
    verts = ctx.choose("verts", [cells.cell("PITS"[n]).verts, cells.cell("D" + "PITS"[n]).verts,
                                 np.array([[0.1, 0.7, -0.3], [1.3, 0.9, 0.2], [0.4, 2.1, 0.3], [0.2, 0.8, 1.9]])[:n + 1, :n],
                                 np.array([[0.1, 0.7, -0.3], [1.3, 0.9, 0.2], [0.4, 2.1, 0.3], [0.2, 0.8, 1.9]])[:n + 1]])
    got = RE.make_lattice([tuple(v) for v in verts], k, i)
    ctx.step()
    want = []
    for idx in itertools.product(range(k + 1), repeat=n):
        idx = idx[::-1]                 # first index fastest
        if sum(idx) <= k - i and min(idx) >= i:
            want.append(verts[0] + sum(a * (v - verts[0]) for a, v in zip(idx, verts[1:])) / k)
    ctx.eq(len(got), len(want), "lattice-count")
    if want:
        ctx.close(np.array(got), np.array(want), "lattice", "dim %d order %d interior %d" % (n, k, i), tol=1e-12)
        ctx.observe(np.array(got))


def run_affine(ctx):
    """make_affine_mapping: the affine map between two simplices, also into higher dimension; volume()."""
    V = [cells.cell(c).verts for c in ("I", "DI", "T", "DT", "S", "DS")]
    V += [np.array([[0.3, 0.2], [1.1, -0.4]]), np.array([[0.1, 0.2, 0.9], [0.7, 0.3, -0.2], [0.5, 1.1, 0.4]]),
          np.array([[0.1, 0.2, 0.9], [0.7, 0.3, -0.2], [0.5, 1.1, 0.4], [1.5, 1.2, 1.4]]),
          np.array([[1.0, 0.0], [0.0, 1.0], [0.0, 0.0]]), np.array([[0.2, 0.1, 0.7], [0.3, 0.9, 0.5]])]
    xs = ctx.choose("from", [v for v in V if v.shape[0] == v.shape[1] + 1])
    ys = ctx.choose("to", [v for v in V if len(v) == len(xs)])
    A, b = RE.make_affine_mapping([tuple(x) for x in xs], [tuple(y) for y in ys])
    ctx.step()
    ctx.close(np.asarray(xs) @ np.asarray(A).T + b, ys, "affine-map", tol=1e-12)
    ctx.close(RE.volume([tuple(y) for y in ys]), _measure(np.asarray(ys)), "volume", tol=1e-12)
    for perm in itertools.permutations(range(len(ys))):
        ctx.close(RE.volume([tuple(ys[p]) for p in perm]), _measure(np.asarray(ys)), "volume-permutation", tol=1e-12)
        ctx.step()
