"""Shared machinery of the checks: environment, worker pool, TLC, evidence, verdicts."""
import hashlib
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NPROC = int(os.environ.get("VERIF_JOBS", "8"))
TLA_CP = "/opt/veriftools/tla/tla2tools.jar"

sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ.setdefault("PYTHONHASHSEED", "0")

_SCRATCH = None
_OWNER = os.getpid()


def scratch():
    """A scratch directory owned by this run, removed at exit."""
    global _SCRATCH
    if _SCRATCH is None:
        import atexit
        _SCRATCH = tempfile.mkdtemp(prefix="symverif-")
        pid = os.getpid()

        def clean(path=_SCRATCH):
            if os.getpid() == pid:
                shutil.rmtree(path, ignore_errors=True)
        atexit.register(clean)
    return _SCRATCH


def import_symfem(cache=None):
    """Import symfem from /repo's working tree, with a private cache directory."""
    if "symfem" in sys.modules:
        return sys.modules["symfem"]
    if cache is None:
        cache = tempfile.mkdtemp(prefix="cache-", dir=scratch())
    os.environ["XDG_CACHE_HOME"] = cache
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import symfem
    assert os.path.realpath(symfem.__file__).startswith(REPO + "/"), symfem.__file__
    return symfem


def rng(*key):
    """A random generator that depends on the seed and the key only."""
    h = hashlib.sha256(repr((SEED,) + key).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


# ------------------------------------------------------------------------------------ worker pool
class TaskTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise TaskTimeout()


def _worker(conn, initfn, scratch_dir):
    global _SCRATCH
    _SCRATCH = scratch_dir
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    signal.signal(signal.SIGALRM, _alarm)
    import_symfem()
    if initfn:
        initfn()
    while True:
        msg = conn.recv()
        if msg is None:
            break
        n, fn, args, limit = msg
        t0 = time.time()
        try:
            signal.alarm(int(limit))
            try:
                res = ("ok", fn(*args))
            finally:
                signal.alarm(0)
        except TaskTimeout:
            res = ("timeout", None)
        except BaseException as e:  # noqa: B902  reported to the parent
            res = ("error", f"{type(e).__name__}: {e}\n" + traceback.format_exc())
        conn.send((n, res, time.time() - t0))


def pmap(tasks, limit=120, deadline=None, nproc=None, initfn=None):
    """Run (fn, args) tasks in worker processes.

    Returns a list of (status, value, seconds); status is ok, error, timeout or skipped.  Tasks are
    started in the given order; none is started after the deadline (seconds from now).
    """
    nproc = min(nproc or NPROC, max(1, len(tasks)))
    ctx = mp.get_context("fork")
    t0 = time.time()
    out = [("skipped", None, 0.0)] * len(tasks)
    sc = scratch()
    workers = {}
    from multiprocessing.connection import wait

    def start():
        a, b = ctx.Pipe()
        pr = ctx.Process(target=_worker, args=(b, initfn, sc), daemon=True)
        pr.start()
        b.close()
        workers[a] = [pr, None, 0.0]
        return a

    queue = list(range(len(tasks)))[::-1]

    def feed(conn):
        if queue and (deadline is None or time.time() - t0 < deadline):
            n = queue.pop()
            fn, args = tasks[n]
            workers[conn][1] = n
            workers[conn][2] = time.time()
            conn.send((n, fn, args, limit))
            return True
        return False

    idle = [start() for _ in range(nproc)]
    busy = set()
    for c in idle:
        if feed(c):
            busy.add(c)
    while busy:
        for c in wait(list(busy), timeout=1.0):
            n = workers[c][1]
            try:
                n, res, dt = c.recv()
                out[n] = (res[0], res[1], dt)
                if not feed(c):
                    busy.discard(c)
            except (EOFError, ConnectionResetError):
                out[n] = ("error", "worker died", 0.0)
                busy.discard(c)
                workers.pop(c)
                c2 = start()
                if feed(c2):
                    busy.add(c2)
        for c in list(busy):
            if workers[c][1] is not None and time.time() - workers[c][2] > limit + 20:
                pr = workers[c][0]
                out[workers[c][1]] = ("timeout", None, float(limit))
                pr.kill()
                busy.discard(c)
                workers.pop(c)
                c2 = start()
                if feed(c2):
                    busy.add(c2)
    for c, (pr, _, _) in workers.items():
        try:
            c.send(None)
        except (BrokenPipeError, OSError):
            pass
    for c, (pr, _, _) in workers.items():
        pr.join(2)
        if pr.is_alive():
            pr.kill()
    return out


# -------------------------------------------------------------------------------------------- TLC
class MachineryError(Exception):
    pass


def tlc(module, cfg="Runner.cfg", env=None, args=(), workers=NPROC, timeout=800, heap="8g"):
    """Run TLC in /verif/spec; returns (stdout, statistics)."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    e = dict(os.environ)
    e.update(env or {})
    e["JAVA_TOOL_OPTIONS"] = (e.get("JAVA_TOOL_OPTIONS", "") +
                              f" -Xmx{heap} -Xss64m -XX:+UseParallelGC -Djava.io.tmpdir={meta}").strip()
    cmd = ["tlc", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", cfg, *args, module + ".tla"]
    t0 = time.time()
    try:
        pr = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                            text=True, timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        out = ex.stdout or b""
        if isinstance(out, bytes):
            out = out.decode(errors="replace")
        raise MachineryError(f"TLC timed out on {module}: {out[-1500:]}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = pr.stdout
    st = {"rc": pr.returncode, "seconds": round(time.time() - t0, 2), "generated": 0, "distinct": 0}
    import re
    m = re.findall(r"([\d,]+) states generated(?:.*?), ([\d,]+) distinct states found", out)
    if m:
        st["generated"] = int(m[-1][0].replace(",", ""))
        st["distinct"] = int(m[-1][1].replace(",", ""))
    m = re.findall(r"The number of states generated: ([\d,]+)", out)
    if m:
        st["generated"] = int(m[-1].replace(",", ""))
    return out, st


def printed(out):
    """JSON values printed by PrintT(ToJson(..))."""
    vals = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"{') and line.endswith('}"'):
            try:
                vals.append(json.loads(json.loads(line)))
            except ValueError:
                pass
    return vals


def programs(module, num, depth, seed, env=None, cfg=None, timeout=300, limit=None):
    """Behaviours of a specification in simulation mode: what it prints with PrintT(ToJson(..)) per trace."""
    e = {"DEPTH": str(depth)}
    e.update(env or {})
    out, st = tlc(module, cfg=cfg or module + ".cfg", env=e, workers=1, timeout=timeout,
                  args=("-simulate", f"num={num}", "-depth", str(limit or 4 * depth + 10), "-seed", str(seed)))
    vals = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"[') and line.endswith(']"'):
            vals.append(json.loads(json.loads(line)))
    if not vals or "Error:" in out:
        raise MachineryError(f"TLC simulation of {module} failed:\n" + out[-2500:])
    return vals, st


def judge(module, cases, lanes=8, chunk=None, timeout=800, cfg="Runner.cfg"):
    """Have TLC consume the recorded cases; returns ({case id: set of clauses}, statistics)."""
    for i, c in enumerate(cases):
        c["id"] = i + 1
    total = {"generated": 0, "distinct": 0, "seconds": 0.0, "runs": 0}
    bad = {}
    size = chunk or len(cases) or 1
    for k in range(0, len(cases), size):
        part = cases[k:k + size]
        fd, path = tempfile.mkstemp(suffix=".json", dir=scratch())
        with os.fdopen(fd, "w") as f:
            json.dump(part, f, separators=(",", ":"))
        out, st = tlc(module, cfg=cfg, env={"OBS": path}, timeout=timeout)
        if st["rc"] != 0 or "No error has been found" not in out:
            k = out.find("Error:")
            raise MachineryError(f"TLC failed on {module}:\n" + out[max(k, 0):][:1500] + "\n...\n" + out[-2500:])
        if st["distinct"] != len(part) + lanes:
            raise MachineryError(f"{module}: {st['distinct']} states for {len(part)} observations")
        for v in printed(out):
            bad.setdefault(v["id"], set()).update(v["clauses"])
        for q in ("generated", "distinct", "seconds"):
            total[q] += st[q]
        total["runs"] += 1
        os.unlink(path)
    return bad, total


# ---------------------------------------------------------------------------------------- verdicts
def known_findings(prop):
    """Known findings: {key: description} for one property."""
    out = {}
    path = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(path):
        with open(path) as f:
            data = json.load(f)
        for k in data.get("findings", []):
            if k["property"] == prop:
                out[k["key"]] = k["what"]
    return out


class Report:
    """Collects what a check found, prints the verdict and writes the evidence file."""

    def __init__(self, prop, level, rule):
        self.prop, self.level, self.rule = prop, level, rule
        self.t0 = time.time()
        self.viol = []       # (key, details)
        self.coverage = {"evaluations": 0, "distinct_nontrivial": 0, "rule": rule, "samples": []}
        self.assumptions = []
        self._keys = set()

    def violation(self, key, details):
        self.viol.append((key, details))

    def count(self, evaluations=0, **kw):
        self.coverage["evaluations"] += evaluations
        for k, v in kw.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                self.coverage[k] = self.coverage.get(k, 0) + v
            else:
                self.coverage[k] = v

    def distinct(self, *keys):
        self._keys.update(keys)

    def sample(self, s):
        if len(self.coverage["samples"]) < 6:
            self.coverage["samples"].append(s)

    def tlc(self, st):
        self.coverage["states"] = self.coverage.get("states", 0) + st["distinct"]
        self.coverage["transitions"] = self.coverage.get("transitions", 0) + max(st["generated"], 0)

    def finish(self):
        known = known_findings(self.prop)
        seen_known, new = {}, []
        for key, details in self.viol:
            hit = None
            for k in known:
                if key == k:
                    hit = k
            if hit:
                seen_known[hit] = known[hit]
            else:
                new.append((key, details))
        self.coverage["distinct_nontrivial"] = len(self._keys)
        self.coverage.setdefault("traces_validated_against_impl", self.coverage["evaluations"])
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick",
              "seed": SEED, "level": self.level, "coverage": self.coverage,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(new)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k, w in sorted(seen_known.items()):
            print(f"KNOWN-FINDING: property={self.prop} {w}")
        if new:
            rp = os.path.join(VERIF, "evidence", f"{self.prop}.replay.json")
            with open(rp, "w") as f:
                json.dump([{"key": k, "details": d} for k, d in new[:2000]], f, indent=1, default=str)
            for k, d in new[:12]:
                print(f"  {self.prop}: {k[:200]} :: " + str(d)[:120].replace("\n", " "))
            print(f"VIOLATION property={self.prop} replay={rp}")
            return 1
        c = self.coverage
        print(f"{self.prop}: held on {c['evaluations']} observations "
              f"({c['distinct_nontrivial']} distinct), {c.get('states', 0)} specification states, "
              f"{ev['wall_s']} s")
        return 0


def first_line(trace):
    return trace.split("\n", 1)[0][:300]


def drive(prop, level, rule, module, tasks, lanes=8, chunk=None, limit=60, deadline=420, initfn=None,
          assumptions=(), nontrivial=None, finish=True, refusal=None, rep=None, timeout=800):
    """Run observation tasks (label, fn, args), let the specification judge what they return.

    A task returns a list of (label, observation); an exception is itself a violation unless
    refusal(trace, args) accepts it.
    """
    rep = rep or Report(prop, level, rule)
    rep.assumptions += list(assumptions)
    res = pmap([(fn, args) for _, fn, args in tasks], limit=limit, deadline=deadline, initfn=initfn)
    cases, labels = [], []
    for (lab, fn, args), (st, v, _) in zip(tasks, res):
        if st == "ok":
            for lb, o in v:
                cases.append(o)
                labels.append(lb)
        elif st == "error" and refusal and refusal(v, args):
            rep.count(refused=1)
        elif st == "error":
            if v.startswith("MachineryError") or v == "worker died":
                raise MachineryError(f"{lab}: {v[-1500:]}")
            rep.violation(f"{lab}: raised {first_line(v)}", v[-900:])
        else:
            rep.count(**{st: 1})
    bad, stats = judge(module, cases, lanes=lanes, chunk=chunk, timeout=timeout) if cases else ({}, {"distinct": 0, "generated": 0})
    rep.tlc(stats)
    rep.count(evaluations=len(cases))
    step = max(1, len(cases) // 5)
    for i, (c, lab) in enumerate(zip(cases, labels)):
        if nontrivial is None or nontrivial(c):
            rep.distinct(lab)
        if i % step == 0:
            rep.sample({"observation": lab, "detail": str(c)[:300]})
        for cl in sorted(bad.get(c["id"], ())):
            if cl.startswith("observer:"):
                raise MachineryError(f"{lab}: {cl}")
            rep.violation(f"{lab}: {cl}", {"observation": lab, "detail": str(c)[:1500]})
    return rep.finish() if finish else rep


def main(run):
    """Entry point of a check script: exit 0/1, anything else is a failure of the machinery."""
    try:
        rc = run()
    except MachineryError as e:
        print("MACHINERY FAILURE:", e)
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
