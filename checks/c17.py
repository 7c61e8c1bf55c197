"""C17: the on-disk matrix cache never changes a result."""
import os
import shutil
import socket
import subprocess
import sys
import tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import common  # noqa: E402
import cachectl  # noqa: E402
import catalogue  # noqa: E402
import gf  # noqa: E402
import history  # noqa: E402
import proj  # noqa: E402

ELEMENTS = [("interval", "Lagrange", 1, (), None), ("triangle", "Lagrange", 1, (), None),
            ("triangle", "N1curl", 1, (), None), ("interval", "Lagrange", 3, (("variant", "gll"),), None),
            ("interval", "Lagrange", 2, (("variant", "legendre"),), None), ("interval", "Lagrange", 0, (), None)]


# ---------------------------------------------------------------- processes under schedules
def expected(srv, el):
    p = srv.spawn(el, "plain")
    cachectl.run([p], [])
    if p.out is None or p.out[0] != "result":
        raise common.MachineryError(f"uncached matrix of {el}: {p.out}")
    return p.out[1]


def fs(hist):
    """The operations of a history, files numbered."""
    names = {}

    def idx(f):
        return names.setdefault(f, len(names) + 1) if f else 0
    return [{"p": q, "op": e["op"], "f": idx(e["f"]), "to": idx(e["to"]), "n": e["n"], "r": e["r"], "killed": e["a"] == "k"}
            for q, e in hist]


def outcome(p, el, what, exp):
    want = exp[el][1 if what == "inverse" else 0]
    return {"killed": p.killed, "over": p.over, "failed": p.out is None or p.out[0] == "failed",
            "got": p.out[1] if p.out and p.out[0] == "result" else str(p.out[1]) if p.out else "", "want": want}


def scheduled(name, who, schedule):
    """Processes (element index, what) under a schedule, then one that runs alone."""
    srv = cachectl.server()
    srv.wipe()
    els = {e: ELEMENTS[e] for e, _ in who}
    exp = {e: expected(srv, els[e]) for e in els}
    ps = [srv.spawn(els[e], w) for e, w in who]
    hist = cachectl.run(ps, schedule)
    if hist is None:
        return []
    outs = [outcome(p, e, w, exp) for p, (e, w) in zip(ps, who)]
    late = [srv.spawn(els[e], w) for e, w in sorted(set(who))]
    for p, (e, w) in zip(late, sorted(set(who))):
        h = cachectl.run([p], [])
        if h is None:
            return []
        hist += [(len(ps) + 1, ev) for _, ev in h]
        outs.append(outcome(p, e, w, exp))
    return [(name, {"kind": "processes", "n": len(ps), "ops": fs(hist), "outs": outs})]


def starting(name, state, n, schedule):
    """Processes that import the library at the same time, from some state of the cache directory."""
    root = tempfile.mkdtemp(prefix="start-", dir=common.scratch())
    cache = os.path.join(root, "home", "cache")
    os.mkdir(os.path.join(root, "home"))
    if state != "nothing":
        os.mkdir(cache)
    if state == "directory":
        os.mkdir(os.path.join(cache, "symfem"))
    if state == "file":
        open(os.path.join(cache, "symfem"), "w").close()
    el = ELEMENTS[1]
    exp = {1: expected(cachectl.server(), el)}
    ps = []
    import json
    for _ in range(n):
        a, b = socket.socketpair()
        fd = b.fileno()
        env = cachectl.environment(cache)
        env.update(VP_CTL=f"{fd},{fd}", VP_DIR=cache)
        pr = subprocess.Popen([cachectl.PYTHON, "-B", os.path.join(cachectl.HERE, "cacheserver.py"), cache, str(fd),
                               json.dumps(el), "inverse"], env=env, pass_fds=[fd], stdout=subprocess.DEVNULL,
                              stderr=subprocess.DEVNULL)
        b.close()
        ps.append(cachectl.Process(a, pr))
    hist = cachectl.run(ps, schedule, limit=90)
    shutil.rmtree(root, ignore_errors=True)
    if hist is None:
        return []
    return [(name, {"kind": "processes", "n": n, "ops": fs(hist), "outs": [outcome(p, 1, "inverse", exp) for p in ps]})]


# ---------------------------------------------------------------- names on disk
def listing():
    root = os.environ["XDG_CACHE_HOME"]
    return sorted(os.path.relpath(os.path.join(d, f), root) for d, _, fs in os.walk(root) for f in fs)


def named(label, el):
    """The files an element leaves and the matrices it computed; and what is read back."""
    history.wipe()
    out = []
    e = history.make(("E",) + el)
    if not hasattr(e, "dofs"):
        return []           # not an element with functionals
    for inv in (False, True):
        try:
            # what other elements this one is made of leave in the cache is not its own
            e.get_dual_matrix(inverse=inv, caching=False)
            before = set(listing())
            m = e.get_dual_matrix(inverse=inv)
        except (TypeError, AttributeError):
            return []       # not an element with a dual matrix of its own
        new = [f for f in listing() if f not in before]
        back = history.make(("E",) + el).get_dual_matrix(inverse=inv)
        plain = history.make(("E",) + el).get_dual_matrix(inverse=inv, caching=False)
        out.append({"label": label, "inv": inv, "files": new, "d": history.digest(history.canon(m)),
                    "back": history.digest(history.canon(back)), "plain": history.digest(history.canon(plain))})
    return out


def elements(thorough):
    out = []
    for c in catalogue.cases(thorough=thorough, budget=60 if thorough else 25, maxn=90 if thorough else 30, maxcost=8 if thorough else 2.5):
        if c["n"] == 0:
            continue
        e = (c["cell"], c["name"], c["order"], tuple(sorted(c["kw"].items())))
        out.append(e + (None,))
    for c in catalogue.cases(thorough=thorough, budget=20 if thorough else 8, per=1, maxn=40 if thorough else 16, maxcost=2 if thorough else 0.6):
        if c["n"] == 0:
            continue
        e = (c["cell"], c["name"], c["order"], tuple(sorted(c["kw"].items())))
        out.append(e + (catalogue.other_cells(c["cell"], common.rng("C17cell", c["cell"], c["order"] % 2), 1)[0],))
    return out


# ---------------------------------------------------------------- writing and reading back
def entry(rng):
    import sympy
    q = sympy.Rational(rng.randrange(-40, 41), rng.choice([1, 2, 3, 7, 30, 360]))
    k = rng.randrange(9)
    if k < 3:
        return q
    s = sympy.sqrt(rng.choice([2, 3, 5, 6, 15, 35]))
    if k == 3:
        return s * q
    if k == 4:
        return q + s / rng.randrange(2, 9)
    if k == 5:
        return sympy.sqrt(sympy.Rational(rng.choice([3, 7, 11]), rng.choice([5, 13])) + s / 7)
    if k == 6:
        return 1 / (s + rng.randrange(3, 9))
    if k == 7:
        return sympy.Integer(rng.choice([0, 1, -1, 10 ** 12 + 7, 10 ** 30 + 1]))
    return (q + s) * sympy.sqrt(rng.choice([7, 11])) - s ** 3


def round_trip(i):
    import sympy
    from symfem import caching
    rng = common.rng("C17rt", i)
    r, c = rng.choice([(1, 1), (1, 4), (4, 1), (2, 3), (3, 2), (5, 5)])
    m = sympy.Matrix(r, c, lambda a, b: entry(rng))
    history.wipe()
    m0 = history.canon(m)
    s = caching.matrix_from_string(caching.matrix_to_string(m))
    caching.save_cached_matrix("test", f"matrix {i}", m)
    other = sympy.Matrix(r, c, lambda a, b: entry(rng))
    caching.save_cached_matrix("other", f"matrix {i}", other)
    caching.save_cached_matrix("test", f"matrix {i}, another", other)
    a = caching.load_cached_matrix("test", f"matrix {i}", (r, c))
    # another size, another name and another type are not this matrix
    none = [caching.load_cached_matrix("test", f"matrix {i}", (r + 1, c)), caching.load_cached_matrix("test", f"matrix {i}", (r, c + 1)),
            caching.load_cached_matrix("test", f"matrix {i}.", (r, c)), caching.load_cached_matrix("tes", f"matrix {i}", (r, c))]
    o = {"kind": "matrix", "rows": r, "cols": c, "want": [history._num(e) for e in m],
         "string": {"rows": s.rows, "cols": s.cols, "flat": [history._num(e) for e in s]},
         "disk": {"rows": a.rows, "cols": a.cols, "flat": [history._num(e) for e in a]} if a is not None else
                 {"rows": 0, "cols": 0, "flat": []},
         "none": [b is None for b in none], "same": history.canon(m) == m0}
    return [(f"matrix {i}", o)]


# ---------------------------------------------------------------- the check
def models():
    tot = {"distinct": 0, "generated": 0}
    for prot, checked, good in (("replace", "no", True), ("shared", "no", False), ("in place", "no", False)):
        out, st = common.tlc("CacheFSMC", cfg="CacheFSMC.cfg", workers=4, timeout=200,
                             env={"NPROCS": "3", "PROTOCOL": prot, "CHECKED": checked, "RECORD": "no"})
        if ("No error has been found" in out) != good:
            raise common.MachineryError(f"CacheFS {prot}:\n" + out[-1500:])
        if good:
            tot["distinct"] += st["distinct"]
            tot["generated"] += st["generated"]
    return tot


def schedules(n, procs, protocol, seed):
    progs, st = common.programs("CacheFSMC", n, 30, seed, cfg="CacheFSGen.cfg", limit=60,
                                env={"NPROCS": str(procs), "PROTOCOL": protocol, "CHECKED": "no", "RECORD": "yes"})
    seen, out = set(), []
    for p in progs:
        if str(p) not in seen:
            seen.add(str(p))
            out.append(p)
    return out


def tasks(thorough):
    rng = common.rng("C17")
    out = []
    k = 400 if thorough else 45
    for procs, prot in ((2, "replace"), (3, "replace"), (2, "in place"), (3, "shared")):
        for i, s in enumerate(schedules(k, procs, prot, common.SEED % 10000 + procs)):
            e = rng.randrange(len(ELEMENTS))
            who = [(e if rng.random() < 0.85 else rng.randrange(len(ELEMENTS)), rng.choice(["inverse", "inverse", "dual"]))
                   for _ in range(procs)]
            out.append((f"schedule {prot} {procs} {i}", scheduled, (f"schedule {prot} {procs} {i}", who, s)))
    # one process that dies at each point of its life, after each way of splitting what it writes
    for e in range(len(ELEMENTS)):
        for split in (("end", "one", "half") if e < 4 or thorough else ("half",)):
            for n in range(1, 16):
                s = [[1, split]] * (n - 1) + [[1, "kill"]]
                nm = f"death of a process at operation {n}, {split}, {ELEMENTS[e][:3]}"
                out.append((nm, scheduled, (nm, [(e, "inverse")], s)))
    for state in ("nothing", "empty", "directory", "file"):
        for i, s in enumerate(schedules(12 if thorough else 3, 3, "replace", common.SEED % 10000 + 77)):
            nm = f"start with {state} {i}"
            out.append((nm, starting, (nm, state, 3, [t for t in s if i or t[1] != "kill"])))
    out += [(f"matrix {i}", round_trip, (i,)) for i in range(600 if thorough else 80)]
    return out


def run():
    rep = common.Report("C17", "model_checking", "schedule of processes sharing the cache, element leaving files in it, or matrix")
    cachectl.build()
    rep.tlc(models())
    els = elements(common.THOROUGH)
    res = common.pmap([(named, (catalogue.label(*e[:3], dict(e[3]), e[4]), e)) for e in els],
                      limit=120 if common.THOROUGH else 40, deadline=None if common.THOROUGH else 150)
    entries = []
    for e, (st, v, _) in zip(els, res):
        lab = catalogue.label(*e[:3], dict(e[3]), e[4])
        if st == "ok":
            entries += v
        elif st == "error" and not catalogue.is_refusal(v, e[4]) and "NonInvertible" not in v:
            if v.startswith("MachineryError") or v == "worker died":
                raise common.MachineryError(v[-800:])
            rep.violation(f"{lab}: raised {common.first_line(v)}", v[-900:])
        else:
            rep.count(**{st: 1})
    rep.count(elements=len(entries))
    bad, st = common.judge("C17_Names", [{"entries": entries}], lanes=1)
    rep.tlc(st)
    for cl in sorted(c for v in bad.values() for c in v):
        rep.violation(cl, {"elements": [e for e in entries if e["label"] in cl][:4]})
    return common.drive("C17", "model_checking", "", "C17_Cache", tasks(common.THOROUGH), chunk=2000,
                        limit=150, rep=rep, deadline=None if common.THOROUGH else 300,
                        nontrivial=lambda o: o["kind"] == "matrix" or len(o["ops"]) > 3)


if __name__ == "__main__":
    common.main(run)
