"""C04: the degrees of freedom are partitioned between the sub-entities."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import common  # noqa: E402
import catalogue  # noqa: E402
import proj  # noqa: E402

UNIT = 10 ** 6
# not C^k-like families whose DOFs are not shared by neighbours, or differ between equal entities by design
UNSYM = {"transition", "Fortin-Soulie"}


def local(ref, pt):
    """Coordinates of the point with respect to vertex 0 and the axes, in units of 1/UNIT."""
    import sympy
    o, ax = ref.vertices[0], ref.axes
    td = len(ax)
    if td == 0:
        return [], any(sympy.N(a - b, 30) != 0 for a, b in zip(o, pt))
    d = [sympy.sympify(a) - b for a, b in zip(pt, o)]
    A = sympy.Matrix([[sum(sympy.sympify(u) * w for u, w in zip(a, b)) for b in ax] for a in ax])
    r = sympy.Matrix([sum(u * w for u, w in zip(a, d)) for a in ax])
    s = A.LUsolve(r)
    res = [d[g] - sum(s[k] * ax[k][g] for k in range(td)) for g in range(len(d))]
    off = any(abs(sympy.N(q, 30)) > 1e-9 for q in res)
    out = [int(round(sympy.N(q, 30) * UNIT)) for q in s]
    if any(abs(q) > 100 * UNIT for q in out):
        return [100 * UNIT] * td, True
    return out, off


def snapshot(el, kind, sym):
    ref = el.reference
    td = proj.DIM[ref.name]
    ents = [list(e) for e in el.dof_entities()]
    pos = list(el.dof_plot_positions())
    dirs = list(el.dof_directions())
    dofs = list(getattr(el, "dofs", []) or [])
    if kind == "enriched":
        for s in el._subelements:
            dofs += list(getattr(s, "dofs", [None] * s.space_dim))
    o = {"cell": ref.name, "n": el.space_dim, "kind": kind, "gdim": ref.gdim, "rdim": el.range_dim, "sym": sym, "ents": ents,
         "npos": len(pos), "ndir": len(dirs), "parts": [el.space_dim],
         "table": [[list(el.entity_dofs(d, e)) for e in range(ref.sub_entity_count(d))] for d in range(td + 1)],
         "dofs": []}
    for i in range(min(len(pos), el.space_dim)):
        d = dofs[i] if i < len(dofs) else None
        q, off = local(ref, pos[i])
        r = {"pos": q, "off": off, "k": "none", "pt": [], "ptoff": False,
             "dir": 0 if i >= len(dirs) or dirs[i] is None else len(dirs[i])}
        if d is not None:
            r["k"] = "point" if hasattr(d, "point") else "integral"
            r["pt"], r["ptoff"] = local(ref, d.dof_point())
        o["dofs"].append(r)
    return o


def observe(cell, name, order, kw, verts):
    import symfem
    from symfem.finite_element import DirectElement, EnrichedElement
    el = symfem.create_element(cell, name, order, **kw) if verts is None else \
        symfem.create_element(cell, name, order, vertices=verts, **kw)
    kind = "enriched" if isinstance(el, EnrichedElement) else "direct" if isinstance(el, DirectElement) else "ciarlet"
    lab = catalogue.label(cell, name, order, kw, verts)
    sym = name not in UNSYM
    out = [(lab, snapshot(el, kind, sym))]
    if kind == "enriched":
        for i, s in enumerate(el._subelements):
            k = "direct" if isinstance(s, DirectElement) else "ciarlet"
            out.append((f"{lab} part {i}", snapshot(s, k, False)))
    return out


def direct(cell, counts, seed):
    """An element defined directly with the given number of functions on the entities of each dimension."""
    import symfem
    from symfem.finite_element import DirectElement
    rng = common.rng("C04direct", cell, counts, seed)
    ref = symfem.create_reference(cell)
    ents = [(d, e) for d, c in enumerate(counts) for e in range(ref.sub_entity_count(d)) for _ in range(c)]
    if seed:
        rng.shuffle(ents)
    el = DirectElement(ref, 1, [1] * len(ents), ents, ref.tdim, 1)
    return [(f"direct element on {cell} {counts} {seed}", snapshot(el, "direct", True))]


def tasks(thorough):
    out, seen = [], set()
    for c in catalogue.sets(90 if not thorough else 400, 0.25 if not thorough else 60.0) \
            + catalogue.cases(thorough=thorough, budget=60):
        a = (c["cell"], c["name"], c["order"], c["kw"], None)
        lab = catalogue.label(*a)
        if lab not in seen:
            seen.add(lab)
            out.append((lab, observe, a))
    for c in catalogue.cases(thorough=thorough, budget=20, per=2, plain=True):
        for v in catalogue.other_cells(c["cell"], common.rng("C04cells", c["cell"], c["name"], c["order"]),
                                       3 if thorough else 1):
            a = (c["cell"], c["name"], c["order"], c["kw"], v)
            out.append((catalogue.label(*a), observe, a))
    for cell in ("interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron", "prism", "pyramid"):
        td = proj.DIM[cell]
        rng = common.rng("C04counts", cell)
        for s in range(12 if not thorough else 60):
            counts = tuple([rng.randrange(2)] + [rng.randrange(12 if d == td else 7) for d in range(1, td + 1)])
            a = (cell, counts, s)
            out.append((f"direct element on {cell} {counts}", direct, a))
    return out


def run():
    return common.drive(
        "C04", "model_checking",
        "one observation per element (or part of an enriched element): entity tables, DOF points, plotted "
        "positions; judged by the incidence structure and the half-spaces of the reference cell",
        "C04_Entities", tasks(common.THOROUGH), lanes=8, chunk=400,
        limit=900 if common.THOROUGH else 60, deadline=6000 if common.THOROUGH else 300,
        nontrivial=lambda o: o["n"] > 1, refusal=lambda v, a: len(a) > 4 and catalogue.is_refusal(v, a[4]))


if __name__ == "__main__":
    common.main(run)
