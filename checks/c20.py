"""C20: pictures contain exactly what was drawn, in every output format."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import common  # noqa: E402
import catalogue  # noqa: E402
import pictures  # noqa: E402


def program(i, prog):
    return [(f"drawing program {i}", pictures.execute(prog))]


def diagram(cell, name, order, kw, verts):
    import symfem
    el = symfem.create_element(cell, name, order, **({} if verts is None else {"vertices": verts}), **kw)
    return [("diagram of " + catalogue.label(cell, name, order, kw, verts), pictures.dof_diagram(el))]


def again(seed, k):
    """The last of a sequence of drawings, and the same drawing made by fresh objects."""
    import symfem
    import sympy
    from symfem.functions import ScalarFunction, VectorFunction
    from symfem.symbols import x
    rng = common.rng("C20again", seed, k)
    cell = rng.choice(["interval", "triangle", "triangle", "quadrilateral", "tetrahedron"])
    td = {"interval": 1, "triangle": 2, "quadrilateral": 2, "tetrahedron": 3}[cell]
    co = [[rng.randrange(-2, 3) for _ in range(2 * td + 1)] for _ in range(td)]
    scalar = cell != "tetrahedron" and rng.random() < 0.6
    scales = [sympy.Rational(rng.randrange(1, 7), 2) for _ in range(3)]
    cells = [None] + catalogue.other_cells(cell, rng, 1)
    vs = [rng.choice(cells) for _ in range(3)]
    famly = {"interval": [("Lagrange", 2), ("P1-iso-P2", 1)],
             "triangle": [("Lagrange", 1), ("N1curl", 1), ("HCT", 3), ("vector Lagrange", 1)],
             "quadrilateral": [("Q", 1), ("Qdiv", 1)], "tetrahedron": [("N1curl", 1)]}[cell]
    fam = rng.choice(famly)

    def fresh():
        def comp(c):
            return c[0] + sum(a * v for a, v in zip(c[1:], x[:td])) + sum(a * v * v for a, v in zip(c[1 + td:], x[:td]))
        f = ScalarFunction(comp(co[0])) if scalar else \
            (VectorFunction(tuple(comp(c) for c in co)) if td > 1 else ScalarFunction(comp(co[0])))
        refs = {}

        def ref(v):
            if v not in refs:
                refs[v] = symfem.create_reference(cell) if v is None else symfem.create_reference(cell, v)
            return refs[v]
        el = symfem.create_element(cell, *fam)

        def values(i):
            return lambda n: f.plot(ref(vs[i]), n, value_scale=scales[i])

        def basis(i):
            return lambda n: el.plot_basis_function(i % el.space_dim, n)

        def bf(i):
            return lambda n: el.get_basis_function(i % el.space_dim).plot(el.reference, n)
        return {"v0": values(0), "v1": values(1), "v2": values(2), "b0": basis(0), "b1": basis(1), "d": el.plot_dof_diagram,
                "s0": bf(0), "e": el.reference.plot_entity_diagrams}
    names = ["v0", "v1", "v2", "b0", "b1", "s0", "d", "e"]
    order = [rng.choice(names) for _ in range(2)] + [rng.choice(["v0", "v1", "v2", "v2", "b0", "b1", "d"])]
    a = fresh()
    one = pictures.plots([a[n] for n in order])[-1]
    two = pictures.plots([fresh()[order[-1]]])[-1]
    lab = f"{cell} {'scalar' if scalar else 'vector'} {fam[0]}: {' '.join(order)} ({k})"
    bad = [q for q in two if str(q[0]).startswith("raised")]
    if bad:
        raise ValueError(bad[0][0])
    return [(lab, {"kind": "again", "first": one, "second": two})]


def tasks(thorough, progs):
    out = [(f"drawing program {i}", program, (i, p)) for i, p in enumerate(progs)]
    for c in catalogue.cases(thorough=thorough, budget=60, per=3 if thorough else 2, maxn=120 if thorough else 40):
        a = (c["cell"], c["name"], c["order"], c["kw"], None)
        if c["cell"] == "point":
            continue
        out.append(("diagram of " + catalogue.label(*a), diagram, a))
    for n in (3, 4, 6):
        for nm, k in (("dual", 1), ("BC", 1)):
            out.append((f"diagram of dual polygon({n}) {nm}", diagram, (f"dual polygon({n})", nm, k, {}, None)))
    for k in range(600 if thorough else 60):
        out.append((f"drawings in turn {k}", again, (common.SEED, k)))
    return out


def run():
    rep = common.Report("C20", "model_checking",
                        "one observation per program of drawing and saving (a behaviour of the specification run on "
                        "real pictures, every written file read back), per diagram of degrees of freedom and per "
                        "sequence of drawings")
    out, st = common.tlc("PicturesMC", cfg="PicturesMC.cfg")
    if st["rc"] != 0:
        raise common.MachineryError("PicturesMC: " + out[-800:])
    rep.tlc(st)
    progs, st = common.programs("PicturesMC", 3000 if common.THOROUGH else 250, 24, common.SEED % 100000, cfg="PicturesGen.cfg",
                                limit=60)
    rep.tlc(st)
    return common.drive("C20", "model_checking", None, "C20_Pictures", tasks(common.THOROUGH, progs), lanes=8, chunk=400,
                        limit=300 if common.THOROUGH else 90, deadline=4000 if common.THOROUGH else 300, rep=rep,
                        refusal=lambda v, a: len(a) == 5 and catalogue.is_refusal(v, a[4]))


if __name__ == "__main__":
    common.main(run)
