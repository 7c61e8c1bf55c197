"""C18: creating elements by name, and the registry of elements."""
import json
import os
import pickle
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import common  # noqa: E402
import catalogue  # noqa: E402
import history  # noqa: E402

FAMILIES = os.path.join(common.SPEC, "families.json")


# ------------------------------------------------------------------ programs of registrations
def isolated(fn):
    """Run fn in a forked process: what it registers is gone afterwards."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            out = ("ok", fn())
        except BaseException as e:
            import traceback
            out = ("error", f"{type(e).__name__}: {e}\n" + traceback.format_exc())
        with os.fdopen(w, "wb") as f:
            pickle.dump(out, f)
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        st, v = pickle.load(f)
    os.waitpid(pid, 0)
    if st == "error":
        raise common.MachineryError(v)
    return v


def make_class(k, d):
    """The object a user registers for a description, and what it declares."""
    from symfem.finite_element import CiarletElement, FiniteElement
    from symfem.functionals import PointEvaluation
    cells = sorted(set(d["cells"]), key=d["cells"].index)

    def init(self, reference, order, tag="plain"):
        CiarletElement.__init__(self, reference, order, [1],
                                [PointEvaluation(reference, reference.midpoint(), entity=(reference.tdim, 0))],
                                reference.tdim, 1)
        self.tag = tag
    ns = {"__init__": init, "init_kwargs": lambda self: {"tag": self.tag}, "names": list(d["names"]), "references": cells,
          "continuity": "L2", "value_type": "scalar", "last_updated": "test"}
    for p in ("lagrange_subdegree", "lagrange_superdegree", "polynomial_subdegree", "polynomial_superdegree"):
        ns[p] = property(lambda self: 0)
    lo, hi, st = d["min"], d["max"], d["style"]
    minset = {c: True for c in cells}
    maxset = {c: hi >= 0 for c in cells}
    if st == 1:
        ns["min_order"] = lo
        if hi >= 0:
            ns["max_order"] = hi
    elif st == 2:
        ns["min_order"] = {c: lo for c in cells}
        if hi >= 0:
            ns["max_order"] = {c: hi for c in cells}
    elif st == 3:
        ns["min_order"] = {cells[0]: lo}
        minset = {c: c == cells[0] for c in cells}
        if hi >= 0:
            ns["max_order"] = {cells[-1]: hi}
            maxset = {c: c == cells[-1] for c in cells}
    else:
        minset = {c: False for c in cells}
        if hi >= 0:
            ns["max_order"] = hi
    if d["kind"] == 2:
        ns["names"] = []
    cls = type(f"Custom{k}", (CiarletElement,), ns)
    obj = cls
    if d["kind"] == 3:
        obj = type(f"Custom{k}", (), {a: v for a, v in ns.items() if not a.startswith("__")})
    elif d["kind"] == 4:
        obj = f"Custom{k}"
    elif d["kind"] == 5:
        obj = FiniteElement
    return obj, {"names": d["names"], "cells": cells, "min": lo, "max": hi, "minset": minset, "maxset": maxset,
                 "good": d["kind"] == 1}


def program(name, pool, ops, seed):
    def go():
        import symfem
        rng = common.rng("C18", seed)
        made = [make_class(k + 1, d) for k, d in enumerate(pool)]
        ev = []

        def create(nm, cell, order):
            tag = rng.choice(["plain", "one", "two"])
            e = {"op": "create", "k": 0, "name": nm, "cell": cell, "order": order, "refused": True, "cls": 0,
                 "gotorder": 0, "gotcell": "", "tag": True}
            user = any(nm in m[1]["names"] for m in made) and nm[0].islower()
            try:
                el = symfem.create_element(cell, nm, order, tag=tag) if user else symfem.create_element(cell, nm, order)
            except Exception:
                return e
            ids = [i + 1 for i, m in enumerate(made) if m[0] is type(el)]
            e.update(refused=False, cls=ids[0] if ids else 0, gotorder=el.order, gotcell=el.reference.name,
                     tag=not ids or not user or el.init_kwargs() == {"tag": tag})
            return e
        for op in ops:
            if op["op"] == "add":
                try:
                    symfem.add_element(made[op["k"] - 1][0])
                    ref = False
                except Exception:
                    ref = True
                ev.append({"op": "add", "k": op["k"], "refused": ref})
            elif op["op"] == "create":
                ev.append(create(op["name"], op["cell"], op["order"]))
        # afterwards everything is looked at
        for nm in ("alpha", "beta", "gamma", "delta"):
            for cell in ("interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron", "prism"):
                ev.append(create(nm, cell, rng.choice([2, 2, 1, 3])))
        for nm, cell in (("Lagrange", "triangle"), ("Lagrange", "interval"), ("Q", "quadrilateral"), ("N1curl", "triangle")):
            ev.append(create(nm, cell, 1))
        return ev, [m[1] for m in made]
    ev, descr = isolated(go)
    return [(name, {"kind": "program", "pool": descr, "ev": ev})]


# ------------------------------------------------------------------ the library's own elements
def element_digest(e):
    c = [type(e).__name__, e.order, e.space_dim, e.range_dim, e.domain_dim, repr(e.range_shape), history.canon(e.reference)]
    if e.space_dim > 130:
        return history.digest(c)
    if hasattr(e, "dofs"):
        c += [history.canon(e.dofs), [d.get_tex()[0] for d in e.dofs], history.canon(e.get_polynomial_basis())]
    elif e.space_dim <= 30:
        c += [history.canon(e.get_basis_functions())]
    return history.digest(c)


def kwstr(d):
    return json.dumps({k: repr(v) for k, v in d.items()}, sort_keys=True)


def element(label, cell, name, order, kw, verts, must, others):
    import symfem
    base = cell.split("(")[0]
    o = {"kind": "element", "name": name, "cell": base, "order": order, "refused": True, "must": must, "gotorder": 0,
         "gotcell": "", "verts": True, "names": [], "sameclass": True, "kwkept": True, "digest": "", "again": "",
         "alias": "", "kwargs": "", "kwagain": ""}

    def new(nm, k):
        if verts is not None:
            return symfem.create_element(cell, nm, order, vertices=verts, **k)
        return symfem.create_element(cell, nm, order, **k)
    try:
        e = new(name, kw)
    except Exception as ex:
        if must and verts is not None and catalogue.is_refusal(f"{type(ex).__name__}: ", verts):
            o["must"] = False
        return [(label, o)]
    want = symfem.create_reference(cell) if verts is None else symfem.create_reference(cell, verts)
    k = e.init_kwargs()
    f = new(name, k)
    g = new(others[0], kw) if others else e
    o.update(refused=False, gotorder=e.order, gotcell=e.reference.name, verts=e.reference.vertices == want.vertices,
             names=list(e.names), sameclass=type(f) is type(e) and type(g) is type(e),
             kwkept=all(k.get(a, v) == v for a, v in kw.items()), digest=element_digest(e),
             again=element_digest(f), kwargs=kwstr(k), kwagain=kwstr(f.init_kwargs()))
    o["alias"] = element_digest(g) if g is not e else o["digest"]
    return [(label, o)]


def tasks(thorough):
    rng = common.rng("C18")
    out = []
    progs, st = common.programs("RegistryMC", 600 if thorough else 130, 20, common.SEED % 10000, cfg="RegistryGen.cfg", limit=60)
    for i, (pool, ops) in enumerate(progs):
        out.append((f"program {i}", program, (f"program {i}", pool, ops, i)))
    fams = json.load(open(FAMILIES))
    where = {(n, c): f for f in fams for n in f["names"] for c in f["cells"]}
    cs = catalogue.cases(thorough=thorough, budget=90, maxn=200 if thorough else 100)
    for c in cs:
        base = c["cell"].split("(")[0]
        f = where[c["name"], base]
        nm = rng.choice(f["names"])
        nm = nm if (nm, base) in where and where[nm, base] is f else c["name"]
        oth = [n for n in f["names"] if n != nm]
        rng.shuffle(oth)
        v = None
        if rng.random() < 0.25 and base != "dual polygon":
            v = catalogue.other_cells(c["cell"], rng, 1)[0]
        lab = catalogue.label(c["cell"], nm, c["order"], c["kw"], v)
        out.append((lab, element, (lab, c["cell"], nm, c["order"], c["kw"], v, True, oth[:1])))
    # orders at and beyond the ends of the declared range, under every name on every cell
    known = {}
    for c in catalogue.data():
        known.setdefault((c["name"], c["cell"].split("(")[0]), []).append(c)
    for f in fams:
        for base, r in f["cells"].items():
            cell = base if base != "dual polygon" else "dual polygon(4)"
            cases = [c for n in f["names"] for c in known.get((n, base), []) if not c["kw"]]
            for n in f["names"]:
                orders = [r["min"] - 1, r["min"] - 2 - rng.randrange(3)] if r["min"] > -1000 else []
                if r["max"] >= 0:
                    orders += [r["max"] + 1, r["max"] + 2 + rng.randrange(3)]
                for k in orders:
                    out.append((f"{n} {base} {k}", element, (f"{n} {base} {k}", cell, n, k, {}, None, False, [])))
                first = [c for c in cases if c["order"] == max(r["min"], 0) and c["cost"] < (9 if thorough else 1)]
                if first:
                    oth = [m for m in f["names"] if m != n][:1]
                    out.append((f"{n} {base} {first[0]['order']}", element,
                                (f"{n} {base} {first[0]['order']}", first[0]["cell"], n, first[0]["order"], {}, None, True, oth)))
    # names and cells that do not exist
    every = sorted({n for f in fams for n in f["names"]})
    cells = sorted({c for f in fams for c in f["cells"]})
    for i in range(400 if thorough else 150):
        n = rng.choice(every)
        k = rng.randrange(6)
        bad = [n.lower(), n.upper(), n + " ", n[:-1], n.replace(" ", "-"), n][k]
        cell = rng.choice(cells)
        if (bad, cell) not in where and bad:
            lab = f"{bad!r} {cell}"
            out.append((lab, element, (lab, cell if cell != "dual polygon" else "dual polygon(4)", bad, rng.randrange(4), {}, None, False, [])))
    return out


def run():
    os.environ["FAMILIES"] = FAMILIES
    rep = common.Report("C18", "model_checking", "program of registrations and creations, or creation of one of the library's elements")
    out, st = common.tlc("RegistryMC", cfg="RegistryMC.cfg", workers=4, timeout=200)
    if "No error has been found" not in out:
        raise common.MachineryError("RegistryMC:\n" + out[-1500:])
    rep.tlc(st)
    return common.drive("C18", "model_checking", "", "C18_Registry", tasks(common.THOROUGH), rep=rep,
                        limit=200 if common.THOROUGH else 60, nontrivial=lambda o: o["kind"] == "program" or not o["refused"])


if __name__ == "__main__":
    common.main(run)
