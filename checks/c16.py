"""C16: answers do not depend on the history of earlier calls."""
import json
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import common  # noqa: E402
import catalogue  # noqa: E402
import history  # noqa: E402
import proj  # noqa: E402

FUNCTIONS = ["scalar", "vector", "matrix", "piecewise", "piecewise vector", "basis function"]
LAZY = [("triangle", "Lagrange", 2), ("triangle", "N1curl", 1), ("triangle", "Regge", 1), ("triangle", "HCT", 3),
        ("triangle", "P1-iso-P2", 1), ("quadrilateral", "Q", 2), ("triangle", "matrix Lagrange", 1)]


def observe(name, recipes, program):
    return [(name, history.observe(recipes, program))]


def model():
    """The discipline of remembered results, explored exhaustively on a small instance."""
    out, st = common.tlc("LifecycleMC", cfg="LifecycleMC.cfg", workers=4, timeout=200)
    if "No error has been found" not in out:
        raise common.MachineryError("LifecycleMC:\n" + out[-2000:])
    bad, _ = common.tlc("LifecycleMC", cfg="LifecycleShared.cfg", workers=4, timeout=200)
    if "OwnAnswers is violated" not in bad:
        raise common.MachineryError("LifecycleMC with shared names on disk should fail")
    return st


def bundles(rng, thorough):
    """Groups of recipes whose objects live together: kinds and recipes."""
    cs = [c for c in catalogue.data() if c["n"] and c["n"] <= (24 if thorough else 14)
          and c["cost"] <= (3 if thorough else 0.6)]
    fam = {}
    for c in cs:
        fam.setdefault((c["name"], c["cell"]), []).append(c)
    by_cell = {}
    for c in cs:
        by_cell.setdefault(c["cell"], []).append(c)

    def E(c, moved=False):
        v = None
        if moved:
            v = catalogue.other_cells(c["cell"], rng, 1)[0]
        return ("E", c["cell"], c["name"], c["order"], tuple(sorted(c["kw"].items())), v)
    out = {"EE": [], "EER": [], "RRR": [], "FFFF": []}
    fams = sorted(fam)
    rng.shuffle(fams)
    for f in fams * (3 if thorough else 1):
        c = rng.choice(fam[f])
        sib = [d for d in fam[f] if d is not c]
        d = rng.choice(sib) if sib and rng.random() < 0.7 else rng.choice(by_cell[c["cell"]])
        out["EE"].append((E(c), E(d)))
        if rng.random() < 0.35:
            out["EER"].append((E(c), E(c, True), ("R", c["cell"], rng.choice([None, catalogue.other_cells(c["cell"], rng, 1)[0]]))))
    for cell in proj.DEFAULT:
        if cell == "point":
            continue
        for _ in range(16 if thorough else 7):
            out["RRR"].append((("R", cell, None), ("R", cell, catalogue.other_cells(cell, rng, 1)[0]),
                               ("R", cell, catalogue.other_cells(cell, rng, 1, min(3, proj.DIM[cell] + 1))[0])))
    for i in range(60 if thorough else 24):
        def F():
            k = rng.choice(FUNCTIONS)
            return ("F", k, rng.choice(LAZY) if k == "basis function" else rng.randrange(1000))
        out["FFFF"].append((F(), F(), F(), F()))
    return out


def tasks(thorough):
    import tempfile
    rng = common.rng("C16")
    out, stats = [], {"generated": 0, "distinct": 0}
    for kinds, groups in bundles(rng, thorough).items():
        fd, path = tempfile.mkstemp(suffix=".json", dir=common.scratch())
        with os.fdopen(fd, "w") as f:
            json.dump(list(kinds), f)
        per = 2 if thorough else 1
        progs, st = common.programs("LifecycleGen", len(groups) * per, 60 if thorough else 30 if kinds == "EE" else 40, common.SEED % 100000,
                                    env={"RECIPES": path}, limit=100)
        stats["generated"] += st["generated"]
        for i, p in enumerate(progs[:len(groups) * per]):
            rs = groups[i % len(groups)]
            name = f"program {i} {kinds}: " + "; ".join(describe(r) for r in rs)
            out.append((name, observe, (name, rs, p)))
    return out, stats


def describe(r):
    if r[0] == "E":
        return catalogue.label(r[1], r[2], r[3], dict(r[4]), r[5])
    return " ".join(str(c) for c in r[1:] if c is not None)


def run():
    rep = common.Report("C16", "model_checking", "program of questions asked of elements, cells and functions")
    rep.tlc(model())
    ts, st = tasks(common.THOROUGH)
    rep.tlc(st)
    return common.drive("C16", "model_checking", "", "C16_History", ts, chunk=400,
                        limit=300 if common.THOROUGH else 60, rep=rep, initfn=history.start_zygote,
                        nontrivial=lambda o: len(o["ev"]) > 5)


if __name__ == "__main__":
    common.main(run)
