PRJ = " Residues modulo random primes near 2^15 stand for exact values: a wrong value escapes with probability about 1/p. Trusts the projection and TLC."
CHECKS.update({
 "C01": (T + "the specification applies the definition of every functional to a random combination of the recorded basis functions",
         "model_checking", "Elements of the catalogue (quick tier: every family and option set at its lowest orders; thorough: all orders up to the catalogue bound) on the default and on random affine cells." + PRJ),
 "C09": (T + "recorded evaluations of random functionals judged by their definitions in the specification",
         "model_checking", "Every functional class on every admissible sub-entity of default and random cells with random parameters and functions." + PRJ),
})
CHECKS.update({
 "C07": (T + "recorded maps judged by the affine geometry of the specification", "model_checking",
         "Random affine cells of every type in every dimension they can be embedded in, plus non-affine ones; identities at random points determine affine maps." + PRJ),
 "C08": (T + "recorded tables, measures, predicates and lattices judged by incidence tables that TLC checks for consistency and by integer geometry",
         "model_checking", "Tables are compared exhaustively; geometry on random cells, points and pairs of cells." + PRJ),
})
CHECKS.update({
 "C02": (T + "recorded basis functions and polynomial sets compared with generators, defining conditions and dimension formulas of every family's space in the specification",
         "model_checking", "Elements and polynomial sets of the catalogue (quick: every family and option set at its lowest orders, sets of up to 70 functions; thorough: higher orders). Families without an independent closed definition are compared with the dimension formula and the degrees they report only." + PRJ),
})
CHECKS.update({
 "C04": (T + "recorded entity tables, DOF points and plotted positions judged by the incidence tables and half-spaces of the cells in the specification",
         "model_checking", "Every family and option set of the catalogue with up to 90 (thorough: 400) functions, on default and affine cells, parts of enriched elements, and random directly defined elements on all cells. Positions are rounded to 1e-6."),
})
CHECKS.update({
 "C05": (T + "recorded named maps and mapped bases compared with the defining identities of the push-forwards in the specification",
         "model_checking", "All named maps, inverses and inverse transposes on random affine cells (embedded ones where the library supports them) with random polynomial functions; map_to_cell of the catalogue's elements in the quick tier's cost budget. The determinant-based inverses of embedded cells and directly defined elements are refused by the library and not judged." + PRJ),
})
CHECKS.update({
 "C03": (T + "recorded mapped bases on pairs of cells that share a sub-entity, traces matched by the incidence tables of the specification",
         "model_checking", "Random affine pairs of cells sharing any pair of facets (and edges and vertices where the sense of continuity applies) for every family and option set at its lowest orders (thorough: up to the catalogue bound); traces of random combinations at random points of the shared entity." + PRJ),
})
MACH = "model-based verification: TLC simulates an explicit TLA+ register machine over functions and prints programs; the library executes them and TLC judges every recorded step with the specification of the operation; "
CHECKS.update({
 "C10": (MACH + "values at random points modulo random primes, shapes, refusals and unchanged operands", "model_checking",
         "Random programs of algebraic operations over functions of all kinds and shapes and over raw operands (quick: 700 programs of 22 steps; thorough: 6000 of 30)." + PRJ),
 "C11": (MACH + "derivatives, norms and integrals compared with term-wise derivatives, quotient rule and exact quadrature in the specification", "model_checking",
         "Calculus steps of random programs (quick: 500 of 22 steps; thorough: 6000 of 30), polynomial integrands, affine domains of every type and dimension and their sub-entities." + PRJ),
})
CHECKS.update({
 "C12": (MACH + "piecewise functions over the cells of a patch judged piece by piece, selection of the piece at a point, traces, integrals over sub-entities and maps", "model_checking",
         "Random programs over piecewise functions on subdivided intervals, polygons and tetrahedra (quick: 120 programs of each of six kinds; thorough: ten times as many)." + PRJ),
})
CHECKS.update({
 "C14": (T + "recorded polynomial sets and bases compared with generators, exact quadrature and term-wise derivatives in the specification",
         "model_checking", "Every set and basis of symfem.polynomials for every dimension or cell, value size 1 to 3, degrees up to 2-8 depending on the cell, default, dummy, permuted and user-defined variables; random sets for L2 duals." + PRJ),
 "C15": (T + "recorded tabulations, single functions and factorisations compared with the basis evaluated in the specification",
         "model_checking", "Every catalogue element within the budget (all families, their options and orders) on the default and a random affine cell, random points in every input form, all orderings and a random unknown one, single functions through every operation, Q factorisations to order 4 (quadrilateral) and 2 (hexahedron) in every variant." + PRJ),
})
CHECKS.update({
 "C16": (T + "a TLC-checked machine of memo tables and the rule that an answer may not depend on them; behaviours drawn from it run as programs of questions in a process, every answer compared with the one a fresh process gives",
         "model_checking", "Random programs of questions (and repeated, reordered and refused questions) over elements, cells and functions; digests of every object passed in or returned before." ),
 "C17": (T + "a TLC-checked machine of processes that read, write, replace and crash around a shared cache directory; its schedules are replayed on real processes whose file system calls are gated, and the outcome of every call judged by the specification",
         "model_checking", "Schedules of up to three processes with crashes at every file operation; directories left by other elements and options; round trips of exact matrices." ),
 "C18": (T + "a TLC-checked machine of the registry whose behaviours are executed on the real registry, and creations of every registered family judged against its declared table",
         "model_checking", "Every registered name, alias, cell, option set and a range of orders inside and outside the declared one; programs of registrations with clashes." + PRJ),
 "C19": (T + "a TLC-checked machine that walks around the fan of a dual polygon; recorded pieces and functions of the real elements on both sides of every internal interface judged by the specification of tilings, splits and regularity",
         "model_checking", "All macro elements on default and random cells and dual elements on polygons with 3 to 12 sides (thorough: more)." + PRJ),
 "C20": (T + "a TLC-checked machine of pictures (operations, projection, bounding box, saving); its simulated behaviours are executed on real pictures and every written file is read back and compared with the content the specification gives",
         "model_checking", "Random programs of drawing, option changes and saving in svg, tikz and png on up to three pictures; diagrams of the degrees of freedom of the catalogue elements; drawings repeated after others."),
})
