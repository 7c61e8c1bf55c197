"""C09: functionals evaluate to the quantity they are defined as."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import common  # noqa: E402
import catalogue  # noqa: E402
import gf  # noqa: E402
import proj  # noqa: E402
import gen  # noqa: E402

SPLIT = {"triangle": [((0, 1), (1, 2), (2, 0))]}


def make(kind, ref, cell, e, rng):
    """Constructor arguments of a random functional of this kind; returns (functional, value shape)."""
    from symfem import functionals as F
    import sympy
    gd = ref.gdim
    sub = ref.sub_entity(*e)
    R = sympy.Rational
    pt = gen.entity_point(rng, sub)
    sd = e[0]
    square = ref.tdim == ref.gdim
    if kind == "PointEvaluation":
        return F.PointEvaluation(ref, pt, entity=e), "s"
    if kind == "WeightedPointEvaluation":
        return F.WeightedPointEvaluation(ref, pt, R(rng.randrange(-9, 10), rng.choice([1, 2, 7])), entity=e), "s"
    if kind == "DerivativePointEvaluation":
        der = tuple(rng.randrange(0, 3) for _ in range(gd))
        return F.DerivativePointEvaluation(ref, pt, der, entity=e), "s"
    if kind == "PointDirectionalDerivativeEvaluation":
        return F.PointDirectionalDerivativeEvaluation(ref, pt, gen.vec(rng, gd), entity=e), "s"
    if kind == "PointNormalDerivativeEvaluation":
        return F.PointNormalDerivativeEvaluation(ref, pt, sub, entity=e), "s"
    if kind == "PointComponentSecondDerivativeEvaluation":
        return F.PointComponentSecondDerivativeEvaluation(
            ref, pt, (rng.randrange(gd), rng.randrange(gd)), entity=e), "s"
    if kind == "PointInnerProduct":
        a = gen.vec(rng, gd)
        b = a if rng.random() < 0.4 else gen.vec(rng, gd)
        return F.PointInnerProduct(ref, pt, a, b, entity=e), "m"
    if kind == "DotPointEvaluation":
        w = rng.choice(["v", "v", "s", "m"])
        if w == "s":
            return F.DotPointEvaluation(ref, pt, gen.num(rng), entity=e), "s"
        if w == "m":
            return F.DotPointEvaluation(ref, pt, gen.matrix(rng, gd, gd), entity=e), "m"
        return F.DotPointEvaluation(ref, pt, gen.vec(rng, gd), entity=e), "v"
    if kind == "PointDivergenceEvaluation":
        return F.PointDivergenceEvaluation(ref, pt, entity=e), "v"
    if kind == "IntegralAgainst":
        w = rng.choice(["s", "v", "m"]) if square and (sd > 1 or ref.tdim == 1) else "s"
        if sd == 1 and w == "m":
            w = "v"
        f = gen.poly(rng, sd, 2) if w == "s" else (
            gen.vpoly(rng, sd, sd, 2) if w == "v" else gen.mpoly(rng, sd, sd, 1))
        return F.IntegralAgainst(ref, f, entity=e), w
    if kind == "IntegralOfDivergenceAgainst":
        return F.IntegralOfDivergenceAgainst(ref, gen.poly(rng, sd, 2), entity=e), "v"
    if kind == "IntegralOfDirectionalMultiderivative":
        n = rng.choice([1, 2])
        dirs = tuple(gen.vec(rng, gd) for _ in range(n))
        return F.IntegralOfDirectionalMultiderivative(
            ref, dirs, tuple(rng.randrange(0, 3) for _ in dirs), entity=e,
            scale=rng.choice([1, 1, 3, -2])), "s"
    # moments: a dof of a space on the entity
    dref = type(sub)()
    lp = gen.entity_point(rng, dref)
    ld = rng.random()
    if ld < 0.4:
        dof = F.PointEvaluation(dref, lp, entity=(sd, 0))
    elif ld < 0.7 and sd > 0:
        dof = F.DotPointEvaluation(dref, lp, gen.vec(rng, sd), entity=(sd, 0))
    else:
        dof = F.IntegralAgainst(dref, gen.poly(rng, sd, 1), entity=(sd, 0))
    sf = gen.poly(rng, sd, 2)
    if kind == "IntegralMoment":
        w = rng.choice(["s", "v", "t"] if sd > 1 or ref.tdim == 1 else ["s", "v"]) if square else "s"
        if w == "s":
            return F.IntegralMoment(ref, sf, dof, entity=e, mapping=rng.choice(["identity", "l2"]) if square else "identity"), "s"
        n = gd if w == "v" else sd
        mp = rng.choice(["identity", "covariant", "contravariant"])
        return F.IntegralMoment(ref, gen.vpoly(rng, sd, n, 2), dof, entity=e, mapping=mp), "v"
    if kind == "DerivativeIntegralMoment":
        return F.DerivativeIntegralMoment(ref, sf, gen.vec(rng, gd), dof, entity=e), "s"
    if kind == "DivergenceIntegralMoment":
        return F.DivergenceIntegralMoment(ref, sf, dof, entity=e), "v"
    if kind == "TangentIntegralMoment":
        return F.TangentIntegralMoment(ref, sf, dof, entity=e), "v"
    if kind == "NormalIntegralMoment":
        return F.NormalIntegralMoment(ref, sf, dof, entity=e), "v"
    if kind == "NormalDerivativeIntegralMoment":
        return F.NormalDerivativeIntegralMoment(ref, sf, dof, entity=e), "s"
    if kind == "InnerProductIntegralMoment":
        a = gen.vec(rng, gd)
        b = a if rng.random() < 0.4 else gen.vec(rng, gd)
        return F.InnerProductIntegralMoment(ref, sf, a, b, dof, entity=e), "m"
    if kind == "NormalInnerProductIntegralMoment":
        return F.NormalInnerProductIntegralMoment(ref, sf, dof, entity=e, mapping="identity"), "m"
    raise AssertionError(kind)


def applicable(kind, cell, e, gd):
    td = proj.DIM[cell]
    if kind in ("NormalIntegralMoment", "NormalDerivativeIntegralMoment", "NormalInnerProductIntegralMoment"):
        return e[0] == gd - 1 and e[0] > 0
    if kind == "PointNormalDerivativeEvaluation":
        return e[0] == 1 and gd == 2
    if kind == "TangentIntegralMoment":
        return e[0] == 1
    if kind in proj.KNOWN_INT:
        return e[0] > 0
    return td > 0


def observe(kind, cell, verts, e, k, piecewise):
    import sympy
    import symfem
    from symfem.functions import parse_function_input
    rng = common.rng("C09", kind, cell, verts, e, k)
    ref = symfem.create_reference(cell) if verts is None else symfem.create_reference(cell, vertices=verts)
    vv = tuple(tuple(v) for v in ref.vertices)
    gd = ref.gdim
    d, shape = make(kind, ref, cell, e, rng)
    deg = rng.choice([1, 2, 3])

    def plain():
        return (gen.poly(rng, gd, deg) if shape == "s" else gen.vpoly(rng, gd, gd, deg) if shape == "v"
                else gen.mpoly(rng, gd, gd, min(deg, 2)))
    if piecewise:
        from symfem.piecewise_functions import PiecewiseFunction
        mid = tuple(sum(sympy.sympify(v[i]) for v in vv) / 3 for i in range(2))
        cells = [(vv[a], vv[b], mid) for a, b in ((0, 1), (1, 2), (2, 0))]
        f = PiecewiseFunction({c: plain() for c in cells}, 2)
    else:
        f = parse_function_input(plain())
    raised, val, fl = "", None, None
    try:
        val = gf.as_plain(d.eval(f))
        fl = d.eval(f, symbolic=False)
    except Exception as ex:
        raised = f"{type(ex).__name__}: {str(ex)[:80]}"

    def build(P):
        o = proj.context(P, cell, vv)
        r = proj.describe(P, d)
        assert r is not None, kind
        pt = r.pop("_pt", None)
        bm = proj.basis_matrix(P, [f], ref.tdim)
        o["phi"] = [{"v": pc["v"], "cell": pc["cell"], "a": pc["a"],
                     "f": {"sh": bm["sh"], "c": [[[[c] + m for c, m in zip(pc["c"][0][q], pc["m"][q])], pc["den"]]
                                                 for q in range(len(pc["m"]))]}}
                    for pc in bm["pieces"]]
        if piecewise:
            if r["k"] in proj.KNOWN_POINT:
                r["pcs"] = [q + 1 for q, c in enumerate(cells) if proj.in_piece("triangle", c, pt)][:1]
            elif e[0] == 1:
                se = [vv[i] for i in proj.sub_entities(cell, 1)[e[1]]]
                r["pcs"] = [q + 1 for q, c in enumerate(cells)
                            if all(proj.in_piece("triangle", c, s) for s in se)]
        o["d"] = r
        pv = cell in ("prism", "pyramid") or not o["default"] or piecewise
        box = cell in ("interval", "quadrilateral", "hexahedron") and not pv
        o["n"] = proj.degrees(bm, box) + (r.get("fvdeg", 0) if box else r["fdeg"])
        o["raised"] = raised
        o["value"] = P.num(val) if not raised else 0
        scale = 10 ** 6
        fv = [int(round(float(sympy.sympify(q)) * scale)) for q in (fl, val)] if not raised else [0, 0]
        m = max(abs(q) for q in fv)
        if m > 2 ** 30:
            fv = [q * 2 ** 20 // m for q in fv]
        o["fl"] = fv
        o["rpt"] = P.point(d.dof_point())
        o["apt"] = P.point(d.adjusted_dof_point())
        dd = d.dof_direction()
        o["rdir"] = [] if dd is None else P.point(dd)
        o["rent"] = [d.entity_dim(), d.entity_number()]
        a = d._verif_call[1]
        if "dof" in a:
            o["lpt"] = P.point(a["dof"].dof_point())
            ld = a["dof"].dof_direction()
            o["ldir"] = [] if ld is None else P.point(ld)
        else:
            o["lpt"], o["ldir"] = [], []
        o["vecisvec"] = kind == "DotPointEvaluation" and shape == "v"
        return o
    return proj.with_projector(rng, build, cell=cell, verts=vv)


def run():
    rep = common.Report(
        "C09", "model_checking",
        "random functionals of every kind on default, affine and embedded cells applied to random "
        "polynomial and piecewise functions; the value is recomputed by the specification from the "
        "constructor arguments; every observation is non-trivial")
    reps = 12 if common.THOROUGH else 2
    kinds = sorted(proj.KNOWN_POINT | proj.KNOWN_INT)
    todo = []
    for cell in ("interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron", "prism", "pyramid"):
        td = proj.DIM[cell]
        rng = common.rng("C09cells", cell)
        vs = [None] + catalogue.other_cells(cell, rng, 4 if common.THOROUGH else 2)
        if cell in ("interval", "triangle", "quadrilateral"):
            vs += catalogue.other_cells(cell, rng, 2 if common.THOROUGH else 1, dim=td + 1)
        for kind in kinds:
            ents = [(d, n) for d in range(td + 1) for n in range(len(proj.sub_entities(cell, d)))]
            for v in vs:
                gd = td if v is None else len(v[0])
                app = [e for e in ents if applicable(kind, cell, e, gd)]
                if gd != td and kind in ("PointNormalDerivativeEvaluation", "NormalInnerProductIntegralMoment",
                                         "InnerProductIntegralMoment"):
                    continue
                for k in range(reps):
                    if not app:
                        break
                    e = app[(rng.randrange(len(app)) if k else -1)]
                    todo.append((kind, cell, v, e, k, False))
                if cell == "triangle" and gd == 2 and app:
                    for k in range(reps):
                        todo.append((kind, cell, v, rng.choice([e for e in app if e[0] > 0]), 100 + k, True))
    todo = [t for t in todo if not undefined(*t)]
    res = common.pmap([(observe, t) for t in todo], limit=300 if common.THOROUGH else 60,
                      deadline=7200 if common.THOROUGH else 300, initfn=proj.install_recorder)
    cases, labels = [], []
    for t, (st, v, _) in zip(todo, res):
        if st == "ok":
            cases.append(v)
            labels.append(t)
        elif st == "error":
            rep.violation(f"{t[:5]}: {v.splitlines()[0][:100]}", v[-700:])
        else:
            rep.count(**{st: 1})
    bad, stats = common.judge("C09_Functionals", cases, lanes=16, chunk=600)
    rep.tlc(stats)
    rep.count(evaluations=len(cases))
    for c, t in zip(cases, labels):
        rep.distinct(str(t))
        rep.sample({"kind": t[0], "cell": t[1], "vertices": t[2], "entity": t[3], "value": c["value"], "p": c["p"]})
        for cl in sorted(bad.get(c["id"], ())):
            if cl.startswith("observer:"):
                raise common.MachineryError(f"{t}: {cl}")
            rep.violation(f"{t[0]} on {t[1]} {t[2]} entity {t[3]}" + (" piecewise" if t[5] else "") + f": {cl}", c)
    return rep.finish()


def undefined(kind, cell, v, e, k, pw):
    """Combinations in which the defining expression is ambiguous."""
    # derivatives and point values of piecewise functions where several pieces meet
    return False


if __name__ == "__main__":
    common.main(run)
