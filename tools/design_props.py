# id: (method, oracle, why beyond the tests, cost)
D = {
"C01": ("every pair (published functional i, basis function j); basis obtained by direct tabulation, by tabulation on the cell as its own entity, and from the nodal polynomial set where there is one",
  "an evaluator of the published point/derivative dictionaries that knows nothing of FIAT's Riesz machinery; the identity matrix",
  "the Vandermonde inversion is always nodal for the *matrix* FIAT assembled; it is wrong for the *published* dofs when to_riesz, combinator index shifts or component indices disagree", "30 s"),
"C02": ("rank and span equality of the fitted coefficient matrices with the documented space, both directions; degree bound and attainment, value shape",
  "mc/spaces.py", "a wrong but equally large space (missing a term, under-integrated constraint) passes all nodality tests", "30 s"),
"C03": ("every multi-index of order <= 3, requested at every order >= it; all point classes",
  "exact differentiation of the fitted polynomial", "tests look at gradients of a few elements; wrong order, transposed or shifted tables show in mixed or higher derivatives only", "40 s"),
"C04": ("every entity of every dimension (also multi-dimensions of products), every order, entity given or omitted",
  "independent entity maps + reference polynomial", "edges of tetrahedra, default/Intrepid conventions and product entities are not in the tests", "50 s"),
"C05": ("every entity; partition, documented counts, closure ids; sample points of each dof",
  "independent topology and a table of documented counts", "numbering errors survive symmetric tests", "18 s"),
"C06": ("every facet, every ordered pair of facets of the same kind, every basis function",
  "fitted trace polynomials in facet coordinates: zero if the dof is not in the closure, equal between facets if it is", "orientation errors are invisible on a single cell", "40 s"),
"C07": ("every rule that can be requested, every monomial up to the degree claimed",
  "exact rational integrals; containment in the model cell; volume", "one wrong digit in one of ~50 tabulated schemes shows only for some monomials of one degree", "2 s"),
"C08": ("every query of every cell kind and product up to three factors", "mc/cells.py", "tables of topology, default/Intrepid conventions, nested products", "17 s"),
"C09": ("all pairs of factor menus, plain/H(div)/H(curl)/flattened, all entities", "outer products of the factors' own tables; component and sign table of the documented conversion", "only 2-3 pairs are tested", "22 s"),
"C10": ("all part lists, all index sets, all domains, all entities", "the parts' own tables and entity dofs, stacked by the model", "index shifts show only for particular part orders and shapes", "25 s"),
"C11": ("explicit history exploration: all sequences of length 2 over a full menu and of length 3 over a core menu of queries, constructions of other elements included; twin subjects put two objects that share a cell, a nodal basis or a cache key into one history",
  "the answer of a fresh object in a fresh (forked) process; digests of all earlier answers and arguments after each operation", "tests make each call once, in one order, so stale caches and mutated shared state cannot show", "80 s"),
"C12": ("24 kinds x cells x entities x weights; all forms; all ordered pairs of kinds in one dual set", "mathematical definition of each kind integrated exactly on fitted polynomials", "functionals are only tested through elements that happen to use them", "72 s"),
"C13": ("all degrees, points and weights on the grid", "exact moments, closed forms, rational arithmetic for Jacobi identities", "singular points and orders > 2 untested", "50 s"),
"C14": ("every affine map between the cells of a shape (all vertex permutations, axis exchanges), every entity; functions pulled back by the reported mapping", "pull-back formulas and an independent entity correspondence; equality of spans, and of the functions themselves for point-value elements",
  "one numbering of one cell hides every asymmetry", "100 s"),
"C15": ("every permutation, pair and prefix of a point set, 12 representations, integer coordinates", "one point at a time, floats", "tests use one representation", "40 s"),
"C16": ("all degrees, orders, entities", "closed form of Bernstein polynomials and exact derivatives", "-", "4 s"),
"C17": ("all facets, point classes, orders on every cell kind", "facet Lagrange polynomials; NaN / TraceError rules", "-", "3 s"),
"C18": ("complete space of offered degrees", "exact moments, symmetry group, diagonal mass matrix", "a small error in one tabulated node or weight", "12 s"),
"C19": ("all entities, pairs of parallel entities, orders, histories of two requests", "superlinear-degree space, matching traces", "hexahedra of degree >= 3 hardly tested", "7 s"),
"C20": ("each composition, image and kernel of the sequences; all metadata of every element", "ranks of exact differential operators on fitted polynomials", "relations between elements are not tested at all", "29 s"),
"C21": ("the complete grid of requests, each labelled valid (with its documented dimension), invalid or unspecified", "labels from the documentation", "tests try one or two invalid requests", "48 s"),
"C23": ("all elements x point sets (unisolvent, permuted, made dependent in every single point)", "identity matrix; numerical rank of the model", "-", "20 s"),
"C24": ("all variants and q; every monomial field up to the exactness degree", "interpolant computed from the published dofs against the exact projections", "a quadrature one order too low leaves space, dimension and nodality intact", "27 s"),
"C25": ("every entity, function and order of asking", "fitted polynomials restricted to the entity", "-", "45 s"),
"C27": ("nodes, near nodes (1e-15..1e-3), generic points, all orders", "extended-precision Lagrange products", "barycentric formula at and near nodes", "4 s"),
"C28": ("all cells, rules, containers, requests; every single coordinate of every point moved by each of several amounts", "identity", "-", "6 s"),
"C29": ("all selections, unions, projections, multi-indices on small sets", "polynomial algebra of the model", "-", "37 s"),
"C30": ("every name x cell x degree x variant", "documented spaces and layouts of the catalogue", "-", "40 s"),
}
