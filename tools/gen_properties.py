#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

S = "symfem/"
p("C01", "Basis functions are dual to the element's degrees of freedom",
  "For every element that lists degrees of freedom, applying degree of freedom i to basis function j gives exactly 1 when i = j and exactly 0 otherwise, where each degree of freedom means its mathematical definition (point value, directional or partial derivative, point normal/tangential component, or integral against its weight over its sub-entity) and not merely whatever the library's own evaluation returns. The number of basis functions, the number of degrees of freedom and the advertised space dimension are equal. This holds on the default reference cell and on any non-degenerate cell the element can be created on.",
  ["inputs", "configurations"],
  "every family, cell, order and variant accepted by the registry, on default and non-default cells",
  "test_elements applies the library's own functional evaluation to a fixed list of low orders on default cells, so an error shared by the functional and the inverse (or one on a custom cell, an unlisted order or variant) is invisible to it.",
  [S+"finite_element.py", S+"functionals.py", S+"moments.py", S+"elements/"],
  [("dual matrix and its inversion", "finite_element.py:CiarletElement.get_dual_matrix/get_basis_functions"),
   ("functional evaluation", "functionals.py"), ("per-family DOF lists", "elements/*.py")],
  ["get_basis_functions()", "dofs", "space_dim"])
p("C02", "An element spans exactly the space that defines its family",
  "The basis functions of every element are linearly independent and span exactly the polynomial (or piecewise polynomial / rational) space that the literature and the element's documentation use to define its family at that order: in particular the dimension equals the family's closed formula. The Lagrange and complete-polynomial sub- and superdegrees the element reports are the true ones for that space, and the reported maximum degree is the largest degree occurring in it. Enriched elements are judged part by part.",
  ["inputs", "configurations"],
  "every family, cell and order with a closed-form definition, for all supported variants",
  "Tests never state the space: they compare with other libraries that are not installed, or check duality, which holds for any unisolvent space including a wrong one. Degrees are spot-checked at orders up to about 4.",
  [S+"elements/", S+"polynomials/", S+"finite_element.py"],
  [("polynomial bases", "polynomials/polysets.py and elements/*.py"), ("degree properties", "elements/*.py:lagrange_subdegree etc.")],
  ["get_basis_functions()", "get_polynomial_basis()", "lagrange_subdegree and the other degree properties", "maximum_degree"])
p("C03", "Basis functions on neighbouring cells glue with the declared continuity",
  "For any two non-degenerate cells that share a facet, edge or vertex and number its vertices in the same order, identifying the degrees of freedom that both cells associate with the shared sub-entities makes the mapped basis functions have equal traces there in the sense the element declares: values (and derivatives up to order k) for C^k, the tangential part for H(curl), the normal part for H(div), the corresponding double traces for matrix-valued spaces. Basis functions whose degree of freedom does not belong to the closure of a shared entity have vanishing trace of that kind on it. Families that are conforming in one of these senses declare it. (Elements of order 0 and variants that associate every function with the interior promise no continuity; transition elements glue across sub-entities of the same degree.)",
  ["inputs", "configurations"],
  "all elements with a declared continuity and an implemented cell map; all pairs of sub-entities and all cell shapes",
  "The built-in continuity test uses one fixed mirrored neighbour and a few hand-picked sub-entity pairs per cell, only compares the matched degrees of freedom, and never checks vanishing traces.",
  [S+"elements/", S+"finite_element.py", S+"mappings.py", S+"moments.py"],
  [("DOFs defined on sub-entities with intrinsic orientation", "moments.py, elements/*.py"), ("map_to_cell", "finite_element.py")],
  ["map_to_cell", "entity_dofs", "continuity"])
p("C04", "Degrees of freedom are partitioned consistently between sub-entities",
  "Every degree of freedom is associated with exactly one existing sub-entity of the cell, the per-entity lists partition 0..n-1 in increasing order and agree with the per-DOF list, and sub-entities of the same dimension and shape carry the same number of degrees of freedom wherever the element's continuity requires it (Fortin-Soulie and transition elements are deliberately not symmetric). Each point-based degree of freedom acts at a point of its sub-entity's closure, its plotted position lies on its own sub-entity (in the interior for entities of dimension above zero), no two undirected degrees of freedom share a position for elements defined directly, and there are as many positions and directions as degrees of freedom.",
  ["inputs", "configurations"],
  "every family, cell, order and variant; all sub-entity dimensions and numbers, including enriched and directly defined elements",
  "Existing tests only check that entity numbers are in range and that one dof point lies in the cell; nothing checks the partition, nor the positions on high orders or directly defined elements.",
  [S+"finite_element.py", S+"functionals.py", S+"elements/"],
  [("entity_dofs/dof_entities/dof_plot_positions", "finite_element.py"), ("adjusted_dof_point/dof_direction", "functionals.py")],
  ["entity_dofs", "dof_entities", "dof_plot_positions", "dof_directions"])
p("C05", "Functions are pushed forward to cells by their declared transformation",
  "For any affine non-degenerate cell, mapping a function onto it obeys the defining identity of the element's declared map: composition for identity maps, division by the absolute Jacobian determinant for L2, the inverse-transposed Jacobian for covariant, the Jacobian divided by its signed determinant for contravariant, and their two-sided versions for matrix-valued maps. The named inverse maps undo the forward ones, the inverse-transpose variants are their adjoints, and mapping an element's basis to a cell gives each basis function transformed with the map declared by its own degree of freedom.",
  ["inputs", "configurations"],
  "all named maps, all affine cells including orientation-reversing and, where supported, manifold cells, all functions",
  "Tests map two or three elements onto one or two cells of positive orientation; identities must hold for every cell and every function.",
  [S+"mappings.py", S+"finite_element.py"],
  [("pull-back formulas", "mappings.py"), ("per-DOF mapping dispatch", "finite_element.py:CiarletElement.map_to_cell"), ("enriched dispatch", "finite_element.py:EnrichedElement.map_to_cell")],
  ["mappings.*", "map_to_cell"])
p("C07", "Reference-to-cell geometry maps are correct and mutually inverse",
  "For every cell type and every admissible affine image of it, the map to the cell sends reference vertex i to cell vertex i and is affine, the inverse map sends it back, and the two compositions are the identity on the cell; this also holds for cells embedded in a higher-dimensional space. A cell created with custom vertices agrees with the one obtained by mapping.",
  ["inputs", "configurations"],
  "all cell types and all affine vertex tuples, including negatively oriented and embedded manifold cells",
  "Tests use one or two cells per type; the formulas are written separately per cell type and branch on dimension.",
  [S+"references.py"],
  [("get_map_to / get_inverse_map_to / get_map_to_self / get_inverse_map_to_self", "references.py")],
  ["get_map_to", "get_inverse_map_to", "get_map_to_self", "get_inverse_map_to_self"])
p("C08", "Reference cells describe a consistent polytope",
  "For every cell, the sub-entity lists, counts and connectivities describe one consistent polytope with the documented numbering, a sub-entity obtained from a cell is the polytope spanned by its vertices, and normals, tangents, Jacobians, volumes, midpoints, membership tests, point lattices and integration limits agree with the geometry of the vertices. In particular unit normals are orthogonal to their facet, integrating the constant 1 over a cell with its own limits gives its volume, and lattice points are distinct points of the cell.",
  ["inputs", "configurations"],
  "all cell types with default and custom (affine) vertices, all sub-entities, all lattice sizes and rational query points",
  "Tests check normals for two cell types, a handful of points and small lattices on default cells only.",
  [S+"references.py", S+"geometry.py"],
  [("hand-written incidence tables and per-class geometry", "references.py"), ("point-in-cell predicates", "geometry.py")],
  ["sub_entities", "sub_entity", "connectivity", "normal", "tangent", "jacobian", "volume", "midpoint", "contains", "make_lattice", "integration_limits", "integral"])
p("C09", "Functionals evaluate to the quantity they are defined as",
  "Every kind of degree-of-freedom functional, constructed on any cell or sub-entity with any parameters, is linear and evaluates on any function to the value of its mathematical definition: point value or component, derivative of stated order and direction, inner product with a vector or matrix, or the integral over its domain of the stated expression against the (correctly mapped and scaled) weight. Its reported point, direction, entity and numerical value are consistent with that definition.",
  ["inputs", "configurations"],
  "all functional classes, all parameters, all cells and sub-entities, all polynomial (and piecewise) arguments",
  "Tests evaluate only the functionals some low-order element uses, on functions in that element's own space.",
  [S+"functionals.py", S+"moments.py", S+"references.py"],
  [("eval / eval_symbolic of each functional class", "functionals.py"), ("moment construction on sub-entities", "moments.py")],
  ["functional.eval", "eval_symbolic", "dof_point", "dof_direction", "entity"])
p("C10", "Function arithmetic, indexing and substitution are pointwise",
  "For any scalar, vector and matrix functions, basis functions, numbers and expressions, each arithmetic operator, comparison for equality, indexing, dot, cross, determinant, transpose and substitution yields the function whose value at every point is that operation applied to the operands' values, whichever operand comes first; combinations with incompatible shapes are refused. Operations never change their operands.",
  ["inputs", "programs"],
  "all expression programs over the public operators, all operand kinds on either side, all evaluation points",
  "Tests combine one or two functions per operator; programs of operators over mixed operand kinds are unbounded.",
  [S+"functions.py", S+"basis_functions.py"],
  [("operator overloads", "functions.py"), ("lazy forwarding", "basis_functions.py")],
  ["ScalarFunction", "VectorFunction", "MatrixFunction", "BasisFunction operators"])
p("C11", "Function calculus agrees with the analytic definitions",
  "For any function, partial and directional derivatives, Jacobian, gradient, divergence and curl equal their analytic definitions componentwise, integrals over any straight-sided reference cell or sub-entity equal the exact integral with respect to its measure in the cell's coordinates or in supplied parameter variables, and norm and determinant agree with the values. Calculus on vector and matrix functions acts component by component and satisfies the product rule and Stokes-type identities.",
  ["inputs", "programs"],
  "all polynomial functions of every value shape, all cells and sub-entities, all directions",
  "Tests differentiate and integrate a handful of fixed functions on default cells.",
  [S+"functions.py", S+"references.py"],
  [("diff/directional_derivative/jacobian/grad/div/curl/integral/integrate", "functions.py"), ("integration_limits", "references.py")],
  ["diff", "directional_derivative", "jacobian", "grad", "div", "curl", "integral", "integrate"])
p("C12", "Piecewise functions act piece by piece",
  "A piecewise function takes at each point of its domain the value of the function given for a piece containing that point; arithmetic, derivatives, substitution, indexing and mapping of pieces act on the piece containing the point, whatever order or subdivision the operands' pieces were given in, or are refused. Its integral over a cell is the sum of the integrals over the pieces.",
  ["inputs", "programs"],
  "all piecewise functions on intervals, triangles, quadrilaterals and tetrahedra, all operators and points",
  "Tests use a few macro elements and evaluate at few points; operands always list the same pieces in the same order.",
  [S+"piecewise_functions.py", S+"geometry.py"],
  [("get_piece and operator overloads", "piecewise_functions.py"), ("containment predicates", "geometry.py")],
  ["PiecewiseFunction operators", "get_piece", "integral", "map_pieces"])
p("C13", "Quadrature rules integrate exactly to their nominal degree",
  "Each one-dimensional rule with n points returns n distinct nodes in [0, 1] in increasing order and n weights such that every polynomial up to the rule's nominal degree of exactness is integrated exactly: 2n-1 for Gauss-Legendre, 2n-3 for Gauss-Lobatto with both end points included, 2n-2 for Gauss-Radau with the left end point included, and degree 1 for the equispaced rule. Requesting a rule by name gives that rule, and unsupported sizes are refused rather than answered wrongly.",
  ["inputs"],
  "all rules and all supported numbers of points",
  "Tests check only that a few values match another library to floating point tolerance.",
  [S+"quadrature.py"],
  [("tabulated nodes and weights", "quadrature.py")],
  ["equispaced", "lobatto", "radau", "legendre", "get_quadrature"])
p("C14", "Polynomial sets and orthonormal, dual and Lobatto bases are right",
  "Each polynomial set is linearly independent, has the documented dimension and spans the documented space for every dimension, value size, degree and cell; orthonormal (Legendre) bases are orthonormal on their cell and span complete polynomials of that degree in the documented index order; dual bases are dual to it, and Lobatto bases span the functions with the documented zero boundary values.",
  ["inputs", "configurations"],
  "all polynomial-set constructors, all cells, dimensions and degrees",
  "Tests only cover degrees up to about 4 for a few cells and never the spans.",
  [S+"polynomials/"],
  [("polynomial set constructors", "polynomials/polysets.py"), ("orthonormal recurrences", "polynomials/legendre.py"), ("Lobatto bases", "polynomials/lobatto.py"), ("dual bases", "polynomials/dual.py")],
  ["polynomial_set_1d/vector/...", "orthonormal_basis", "lobatto_basis", "l2_dual"])
p("C15", "Every way of reading the basis of an element gives the same functions",
  "Tabulating an element at any points in any value ordering returns exactly the values of its basis functions at those points arranged as documented, the floating-point tabulation agrees to rounding, a lazily obtained single basis function behaves as the corresponding entry of the full basis in every operation, and a tensor-product factorisation, where offered, reproduces the basis in the element's own numbering. An unknown ordering is refused.",
  ["inputs", "configurations"],
  "all elements, all point sets, all orderings, all factorised elements and orders",
  "Tests tabulate a few elements at a few points and factorise low orders only.",
  [S+"finite_element.py", S+"basis_functions.py", S+"elements/q.py", S+"elements/lagrange.py"],
  [("tabulate_basis / tabulate_basis_float / get_basis_function", "finite_element.py"), ("get_tensor_factorisation permutations", "elements/*.py")],
  ["tabulate_basis", "tabulate_basis_float", "get_basis_function", "get_tensor_factorisation", "get_basis_functions(use_tensor_factorisation=True)"])
p("C16", "Element answers do not depend on the history of earlier calls",
  "The answer to any query of an element, reference or function - including whether it is refused - depends only on how the object was created and the query's arguments, not on which queries were made before, on it or on other objects, in what order, or how often. No query changes an object passed to it or any previously returned answer.",
  ["histories", "programs"],
  "all sequences of public queries on one or several live elements, references and functions",
  "Tests create a fresh element and call one thing; memoised state is only visible in sequences of calls.",
  [S+"finite_element.py", S+"basis_functions.py", S+"references.py", S+"functions.py", S+"plotting.py"],
  [("memoised basis/float basis/degree/maps", "finite_element.py, references.py"), ("lazy basis functions", "basis_functions.py")],
  ["every public query of FiniteElement, Reference and AnyFunction"],
  state=[("memo slots", "basis, float basis, tabulation scale, inverse map, maximum degree", "finite_element.py, references.py")])
p("C17", "The on-disk matrix cache never changes a result",
  "With any content of the cache directory left by earlier runs of this library - including runs for other elements, other options or other cells, concurrent processes, and processes that died at any point - the dual matrix and basis functions returned are those computed with no cache, and no call fails because of the cache. Writing a matrix of exact real numbers and reading it back gives the same matrix.",
  ["schedules", "crash_points", "histories"],
  "all interleavings of concurrent processes, crash points inside a cache write, and histories of elements sharing the cache",
  "The one caching test runs in a single process with a warm cache; no test crashes a writer, races two processes or collides two elements.",
  [S+"caching.py", S+"finite_element.py", S+"elements/"],
  [("cache file name and atomicity of writes", "caching.py"), ("cache key", "finite_element.py:CiarletElement.get_dual_matrix"), ("init_kwargs in the key", "elements/*.py")],
  ["get_dual_matrix", "get_basis_functions", "files in the cache directory"],
  state=[("cache file", "content of one cached matrix", "caching.py")])
p("C18", "Creating elements by name gives the family, order and options asked for",
  "Every registered name or alias on each of its cells creates an element of that family with exactly the requested order, cell and options, rejects orders and names outside the family's declared range, and reports keyword options that recreate an equal element. Registering a custom class makes it available under all its names and cells without disturbing other registrations, and a clash is refused and changes nothing.",
  ["inputs", "histories", "configurations"],
  "all names, aliases, cells, orders and variants; all sequences of registrations and creations",
  "Tests create each name at one order; registration sequences, failing registrations and boundary orders are not explored.",
  [S+"create.py", S+"finite_element.py", S+"elements/"],
  [("registry table", "create.py:add_element"), ("order range", "create.py:_order_is_allowed"), ("init_kwargs", "elements/*.py")],
  ["create_element", "create_reference", "add_element", "init_kwargs"],
  state=[("registry", "cell -> name -> class", "create.py:_elementmap")])
p("C19", "Dual and macro elements are consistent across their sub-cells",
  "Elements defined on a refinement of the cell (dual polygons and macro triangles, tetrahedra and quadrilaterals) have pieces that tile the cell without overlap, and their basis functions have across every internal interface exactly the regularity the element is defined with: continuous, C1, or continuous tangential or normal component. Dual basis functions reproduce the documented partition: they sum to one where they must, and the tangential or normal degrees of freedom of the fine space are those the definition prescribes.",
  ["inputs", "configurations"],
  "all macro elements and orders, dual polygons with any number of sides",
  "Tests never compare values across internal interfaces except through dof duality on low orders, and dual polygons only for 4 to 6 sides.",
  [S+"elements/dual.py", S+"elements/hct.py", S+"elements/rhct.py", S+"elements/p1_macro.py", S+"elements/p1_iso_p2.py", S+"elements/guzman_neilan.py", S+"elements/alfeld_sorokina.py"],
  [("piece tables", "elements/*.py"), ("dual coefficients", "elements/dual.py")],
  ["get_basis_functions of macro and dual elements"])
p("C20", "Pictures contain exactly what was drawn in every output format",
  "For any sequence of drawing operations, the saved picture contains exactly those lines, fills, arrows, circles, markers and labels at their projected positions, in drawing order and with the requested colours, in each of the supported formats, and every requested output file is written. Saving one picture, or drawing another, does not affect it. A diagram of an element's degrees of freedom shows each of them exactly once, labelled with its number, in the colour of its entity, at its position (possibly moved along its direction), with an arrow in its direction.",
  ["histories", "programs"],
  "all sequences of drawing operations, colours, options and output file lists",
  "Tests only check that files are produced for a few diagrams, and never look inside them.",
  [S+"plotting.py"],
  [("drawing items and per-format writers", "plotting.py")],
  ["Picture.add_*", "Picture.as_svg", "as_tikz", "save"],
  state=[("items", "ordered list of drawn items", "plotting.py:Picture")])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P))
