"""C07: the maps between reference and cell."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import common  # noqa: E402
import gen  # noqa: E402
import geo  # noqa: E402
import gf  # noqa: E402
import proj  # noqa: E402


def form(rng, verts):
    """The same vertices in one of the accepted input formats."""
    import sympy
    k = rng.randrange(4)
    if k == 0:
        return verts
    if k == 1:
        return [list(v) for v in verts]
    if k == 2 and len(verts[0]) > 0:
        return tuple(sympy.Matrix([list(v)]) for v in verts)
    return tuple(tuple(sympy.sympify(c) for c in v) for v in verts)


def observe(cell, verts, how, k):
    import symfem
    from symfem.functions import parse_function_input
    from symfem.symbols import x
    rng = common.rng("C07", cell, verts, how, k)
    td, gd = proj.DIM[cell], len(verts[0])
    affine = geo.is_affine(cell, verts)
    ref = symfem.create_reference(cell)
    own = symfem.create_reference(cell, vertices=verts)
    if how == "to":
        fwd = ref.get_map_to(form(rng, verts))
        get_inv = lambda: ref.get_inverse_map_to(form(rng, verts))  # noqa: E731
    elif how == "self":
        fwd = own.get_map_to_self()
        get_inv = own.get_inverse_map_to_self
    elif how == "self-reversed":
        get_inv = own.get_inverse_map_to_self
        if affine:
            get_inv()
        fwd = own.get_map_to_self()
        fwd = own.get_map_to_self()
    else:   # through the cell's own default reference
        r = own.default_reference()
        fwd = r.get_map_to(own.vertices)
        get_inv = lambda: r.get_inverse_map_to(own.vertices)  # noqa: E731
    inv = ()
    if affine:
        inv = get_inv()
    ts = [tuple(gen.num(rng) for _ in range(td)) for _ in range(3)]
    gp = [own.get_point(t) for t in ts] if affine else []
    f = gen.poly(rng, td, 2) if td else None
    mp = None
    if affine and td > 0:
        mp = own.map_polyset_from_default([parse_function_input(f)])[0]
        mp = gf.as_plain(mp)

    def build(P):
        num = lambda v: P.point([gf.sympy.sympify(c) for c in v])  # noqa: E731
        return {"p": P.p, "cell": cell, "verts": [num(v) for v in verts], "affine": affine,
                "fwd": [P.scalar(c) for c in fwd], "inv": [P.scalar(c) for c in inv],
                "ts": [num(t) for t in ts], "gp": [num(q) for q in gp],
                "cverts": [num(v) for v in own.vertices], "corigin": num(own.origin),
                "caxes": [num(a) for a in own.axes],
                "poly": [] if mp is None else [P.scalar(f)], "mpoly": [] if mp is None else [P.scalar(mp)]}
    return [(f"{cell} {how} {verts} {k}", proj.with_projector(rng, build))]


def run():
    tasks = []
    n = 60 if common.THOROUGH else 9
    for cell in proj.DEFAULT:
        td = proj.DIM[cell]
        sets = [proj.DEFAULT[cell]] if td else []
        for gd in range(max(td, 1), 4):
            rng = common.rng("C07cells", cell, gd)
            sets += [geo.affine_cell(cell, rng, gd) for _ in range(n)]
            sets += geo.special_cells(cell, rng) if gd == proj.DIM[cell] else []
            if cell in ("quadrilateral", "hexahedron", "prism", "pyramid"):
                sets += [geo.warped_cell(cell, rng, gd) for _ in range(n // 3)]
        for i, v in enumerate(sets):
            for how in ("to", "self", "self-reversed", "default"):
                tasks.append((f"{cell} {how} {v}", observe, (cell, v, how, i)))
    return common.drive(
        "C07", "model_checking",
        "one observation per (cell type, vertices, way of asking for the map); the cells are random "
        "affine images in 1 to 3 dimensions plus non-affine ones (vertex images only)",
        "C07_GeometryMaps", tasks, nontrivial=lambda o: True)


if __name__ == "__main__":
    common.main(run)
