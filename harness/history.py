"""Programs of questions asked of live objects (C16): execution, fresh answers and digests of answers."""
import hashlib
import os
import pickle
import re
import shutil
import signal
import struct
import tempfile

import common
import proj

VALS = [(3, 7), (2, 11), (5, 13), (7, 17), (11, 19), (4, 23), (6, 29), (9, 31), (10, 37)]


# ------------------------------------------------------------------------------------- digests
def _num(e):
    """A number for an expression: its value at a fixed point of all its variables."""
    import sympy
    e = sympy.sympify(e)
    if not isinstance(e, sympy.Expr):
        return str(e)
    fs = sorted(e.free_symbols, key=str)
    if fs:
        names = {"x": 0, "y": 1, "z": 2}
        sub = {}
        k = 3
        for s in fs:
            n = names.get(str(s))
            if n is None:
                n = k % len(VALS)
                k += 1
            sub[s] = sympy.Rational(*VALS[n])
        e = e.subs(sub)
    if e.is_Float or e.has(sympy.Float):
        v = complex(e)
        return "f%d,%d" % (round(v.real * 1e6), round(v.imag * 1e6))
    v = e if e.is_Rational else sympy.N(e, 40)
    try:
        r, i = v.as_real_imag()
        return "%d,%d" % (int(round(r * 10 ** 12)), int(round(i * 10 ** 12)))
    except (TypeError, AttributeError):
        return "?" + type(v).__name__


def canon(a, depth=0):
    """A nested tuple describing an answer by what it means, not by how it is written."""
    import sympy
    from symfem.functions import AnyFunction
    from symfem.finite_element import FiniteElement
    from symfem.functionals import BaseFunctional
    from symfem.references import Reference
    if depth > 8:
        return "deep"
    if a is None or isinstance(a, bool):
        return repr(a)
    if isinstance(a, str):
        return "s" + a
    if isinstance(a, float):
        return _num(a)
    if isinstance(a, (int, sympy.Basic)) and not isinstance(a, sympy.MatrixBase):
        return _num(a)
    if isinstance(a, sympy.MatrixBase):
        return ("m", a.rows, a.cols) + tuple(_num(e) for e in a)
    if isinstance(a, AnyFunction):
        out = []
        for verts, g in proj.sympy_pieces(a):
            vs = None if verts is None else tuple(tuple(_num(c) for c in v) for v in verts)
            out.append((vs, canon_plain(g)))
        return ("fn", tuple(out))
    if isinstance(a, BaseFunctional):
        return ("dof", type(a).__name__, canon(a.entity, depth + 1), canon(a.dof_point(), depth + 1),
                canon(a.dof_direction(), depth + 1), str(a.mapping))
    if isinstance(a, Reference):
        return ("cell", a.name, canon(a.vertices, depth + 1))
    if isinstance(a, FiniteElement):
        return ("element", type(a).__name__, a.order, canon(a.reference, depth + 1), canon(a.init_kwargs(), depth + 1))
    if isinstance(a, dict):
        return ("d",) + tuple(sorted(((str(canon(k, depth + 1)), canon(v, depth + 1)) for k, v in a.items())))
    if isinstance(a, (list, tuple)):
        # lists and tuples are told apart by the type the user sees
        return (("l" if isinstance(a, list) else "t"),) + tuple(canon(e, depth + 1) for e in a)
    if isinstance(a, (set, frozenset)):
        return ("set",) + tuple(sorted(str(canon(e, depth + 1)) for e in a))
    return type(a).__name__


def canon_plain(g):
    import sympy
    if isinstance(g, sympy.MatrixBase):
        return ("m", g.rows, g.cols) + tuple(_num(e) for e in g)
    if isinstance(g, (list, tuple)):
        return ("t",) + tuple(canon_plain(e) for e in g)
    return _num(g)


def digest(c):
    return hashlib.sha256(repr(c).encode()).hexdigest()[:12]


# ------------------------------------------------------------------------------------- objects
def make(r):
    import sympy
    import symfem
    if r[0] == "E":
        _, cell, name, order, kw, verts = r
        kw = dict(kw)
        return symfem.create_element(cell, name, order, **kw) if verts is None else \
            symfem.create_element(cell, name, order, vertices=verts, **kw)
    if r[0] == "R":
        return symfem.create_reference(r[1]) if r[2] is None else symfem.create_reference(r[1], r[2])
    import gen
    from symfem.functions import MatrixFunction, ScalarFunction, VectorFunction
    from symfem.piecewise_functions import PiecewiseFunction
    _, kind, key = r
    g = common.rng("C16fn", kind, key)
    if kind == "scalar":
        return ScalarFunction(gen.poly(g, 3, 3))
    if kind == "vector":
        return VectorFunction([gen.poly(g, 2, 2), gen.poly(g, 3, 2), gen.poly(g, 2, 1)])
    if kind == "matrix":
        return MatrixFunction([[gen.poly(g, 2, 2), gen.poly(g, 2, 1)], [gen.poly(g, 3, 1), gen.poly(g, 2, 2)]])
    m = (sympy.Rational(1, g.randrange(2, 5)), sympy.Rational(1, g.randrange(3, 6)))
    tri = [(m, (1, 0), (0, 1)), (m, (0, 1), (0, 0)), (m, (0, 0), (1, 0))]
    if kind == "piecewise":
        return PiecewiseFunction({t: gen.poly(g, 2, 2) for t in tri}, 2)
    if kind == "piecewise vector":
        return PiecewiseFunction({t: (gen.poly(g, 2, 2), gen.poly(g, 2, 1)) for t in tri}, 2)
    if kind == "basis function":
        cell, name, order = key
        e = symfem.create_element(cell, name, order)
        return e.get_basis_function(order % e.space_dim)
    raise ValueError(kind)


class Asked:
    """The answer to one question, with the objects passed to it before and after."""

    def __init__(self, answer, args):
        self.answer = answer
        self.args = args


def cells_for(cell, td, key):
    import catalogue
    return catalogue.other_cells(cell, common.rng("C16cell", cell, key), 1)[0]


def point_of(r, n, v, form=0):
    import sympy
    g = common.rng("C16pt", n, v)
    return [sympy.Rational(g.randrange(1, 6), 7 + 5 * i) for i in range(n)]


def svg(write):
    """What a picture says, with its numbers rounded away from ties."""
    d = tempfile.mkdtemp(prefix="plot-", dir=common.scratch())
    try:
        f = os.path.join(d, "p.svg")
        write(f)
        with open(f) as h:
            s = h.read()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return re.sub(r"-?\d+\.\d+(e-?\d+)?", lambda m: str(int(float(m.group(0)) * 50 + 1000.31737)), s)


def ask(o, kind, q, v, other, want):
    """Ask question q (variant v) of object o; want(list) registers argument objects."""
    import sympy
    from symfem.symbols import x
    a, v = v, (v - 1) % 3 + 1            # argument and form of the question
    if kind == "E":
        td = o.reference.tdim
        n = o.space_dim
        gd = o.reference.gdim

        def pts():
            p = [point_of(None, gd, a), point_of(None, gd, a + 7)]
            return want([tuple(i) for i in p] if v == 2 else p)
        if q == "basis":
            return o.get_basis_functions()
        if q == "tensor basis":
            return o.get_basis_functions(use_tensor_factorisation=True)
        if q == "function":
            return o.get_basis_function((a * 7) % n)
        if q == "tabulate":
            return o.tabulate_basis(pts()) if v == 1 else o.tabulate_basis(pts(), ["xx,yy,zz", "xyz,xyz"][v - 2])
        if q == "tabulate float":
            return o.tabulate_basis_float(want([[float(c) for c in p] for p in (point_of(None, gd, a),)]))
        if q == "dual":
            return o.get_dual_matrix()
        if q == "dual inverse":
            return o.get_dual_matrix(inverse=True)
        if q == "dual uncached":
            return o.get_dual_matrix(caching=False) if v == 1 else o.get_dual_matrix(inverse=v == 2, caching=False)
        if q == "polynomial basis":
            return o.get_polynomial_basis()
        if q in ("map to cell", "map basis"):
            verts = want([list(p) for p in cells_for(o.reference.name, td, a)])
            if q == "map to cell":
                return o.map_to_cell(verts)
            return o.map_to_cell(verts, want(list(o.get_basis_functions())[:2]))
        if q == "entity dofs":
            return [[o.entity_dofs(d, i) for i in range(o.reference.sub_entity_count(d))] for d in range(td + 1)]
        if q == "dof positions":
            return [o.dof_plot_positions(), o.dof_entities(), o.dof_directions()][v - 1]
        if q == "degrees":
            names = ["lagrange_subdegree", "lagrange_superdegree", "polynomial_subdegree", "polynomial_superdegree"]
            return [attempt(lambda b=b: getattr(o, b)) for b in names] if v < 3 else o.maximum_degree
        if q == "kwargs":
            return [o.init_kwargs(), o.name, o.order, o.space_dim, o.domain_dim, o.range_dim, o.range_shape, list(o.names)]
        if q == "factorisation":
            return o.get_tensor_factorisation()
        if q == "dofs":
            return [[d, d.get_tex()[0]] for d in o.dofs]
        if q == "dof on function":
            return [d.eval(o.get_basis_functions()[a % n]) for d in o.dofs[:6]]
        if q == "dof symbolic":
            return [d.eval_symbolic(f) for d in o.dofs[:3] for f in o.get_polynomial_basis()[:3]]
        if q == "self test":
            return o.test() if n <= 12 else None
        if q == "plot basis":
            return svg(lambda f: o.plot_basis_function((a * 5) % n, f))
        if q == "plot dofs":
            if v == 1:
                return svg(lambda f: o.plot_dof_diagram(f))
            opts = want({"scale": 150})
            return svg(lambda f: o.plot_dof_diagram(f, opts))
        if q == "reference maps":
            return [o.reference.get_map_to_self(), o.reference.get_inverse_map_to_self()][::1 if v > 1 else -1]
        if q == "reference values":
            return [o.reference.vertices, o.reference.edges, o.reference.faces, o.reference.volume(), o.reference]
        if q == "reference intersection":
            return o.reference.intersection(other.reference)
        if q == "dof on other":
            return o.dofs[a % n].eval(other.get_basis_functions()[a % other.space_dim])
        if q == "add functions":
            b, c = o.get_basis_function(a % n), other.get_basis_function(a % other.space_dim)
            return [b + c, b - c][v % 2]
        if q == "function calculus":
            f = o.get_basis_function(a % n)
            if v == 1:
                return f.diff(x[a % 3])
            if v == 2:
                return f.subs(x, want(tuple(point_of(None, 3, a))))
            return [2 * f, -f, f.maximum_degree(o.reference)]
    if kind == "R":
        td, gd = o.tdim, o.gdim
        if q == "maps to self":
            return [o.get_map_to_self(), o.get_inverse_map_to_self()][::1 if v > 1 else -1]
        if q in ("map to", "inverse map to"):
            verts = want([list(p) for p in cells_for(o.name, td, a)])
            return o.get_map_to(verts) if q == "map to" else o.get_inverse_map_to(verts)
        if q in ("volume", "jacobian", "midpoint"):
            return getattr(o, q)()
        if q == "normals":
            return [attempt(o.normal), attempt(o.tangent), attempt(o.scaled_axes)]
        if q == "axes":
            return [o.axes, o.origin, o.vertices, o.edges, o.faces, o.volumes, o.clockwise_vertices, o.reference_vertices]
        if q == "sub entities":
            return [o.sub_entities(d) for d in range(td + 1)] if v < 3 else [o.sub_entity_count(d) for d in range(td + 1)]
        if q == "sub entity":
            if a > 6:
                return o.sub_entity(a % td, a % o.sub_entity_count(a % td), v == 3)
            return [o.sub_entity(d, i, v == 3) for d in range(td) for i in range(o.sub_entity_count(d))]
        if q == "lattice":
            return [o.make_lattice, o.make_lattice_with_lines, o.make_lattice_float][v - 1]((a - 1) // 3 + 2)
        if q == "point":
            return o.get_point(want(point_of(None, td, a)))
        if q == "limits":
            return o.integration_limits() if v == 1 else o.integration_limits(want(list(sympy.symbols("u v w" if a < 6 else "r s t"))))
        if q == "contains":
            p = want(point_of(None, gd, a))
            return [attempt(lambda: o.contains(p)), attempt(lambda: o.on_edge(p)), attempt(lambda: o.at_vertex(p)),
                    attempt(lambda: o.on_face(p))]
        if q == "default":
            return [o.default_reference(), o == o.default_reference()]
        if q == "z order":
            return o.z_ordered_entities() if v < 3 else o.z_ordered_entities_extra_dim()
        if q == "polyset":
            return o.map_polyset_from_default(want([x[0], x[0] * x[1] + a]))
        if q == "intersection":
            return o.intersection(other)
        if q == "equal":
            return [o == other, hash(o) == hash(other)]
    if kind == "F":
        if q == "sympy":
            return o.as_sympy() if v < 3 else o
        if q == "diff":
            return o.diff(x[a % 3])
        if q == "derivatives":
            return [lambda: o.grad(a % 3 + 1), lambda: o.div(), lambda: o.curl()][v - 1]()
        if q == "subs":
            return [lambda: o.subs(x[0], a), lambda: o.subs(x, want(point_of(None, 3, a))),
                    lambda: o.subs(want([x[1], x[0]]), want([x[0], a]))][v - 1]()
        if q == "integral":
            import symfem
            t = symfem.create_reference("triangle", want(((0, 0), (1, 0), (0, (a + 2) // 3))))
            return o.integral(t) if v == 1 else o.integral(t, want([x[0], x[1]])) if v == 2 else \
                o.integral(t, x, want(list(sympy.symbols("u v w"))))
        if q == "norm":
            return o.norm()
        if q == "degree":
            import symfem
            return o.maximum_degree(symfem.create_reference(["triangle", "quadrilateral"][a % 2]))
        if q == "floats":
            return o.with_floats()
        if q == "arithmetic":
            return [lambda: a * o, lambda: -o, lambda: o / a][v - 1]()
        if q == "add":
            return o + other if v < 3 else o - other
        if q == "mul":
            return o * other
        if q == "dot":
            return o.dot(other) if v < 3 else o.cross(other)
        if q == "equal function":
            return [o == other, o != other]
        if q == "items":
            return [len(o), o[0], list(o)] if v < 3 else o.shape
    raise common.MachineryError(f"unknown question {kind} {q}")


def attempt(fn):
    try:
        return fn()
    except common.TaskTimeout:
        raise
    except Exception as e:
        return "raises " + type(e).__name__


def run_ask(o, kind, q, v, other):
    """(answer, digest of the answer, argument objects, their digests before)"""
    args, before = [], []

    def want(a):
        args.append(a)
        before.append(digest(canon(a)))
        return a
    try:
        a = ask(o, kind, q, v, other, want)
    except (common.TaskTimeout, common.MachineryError):
        raise
    except Exception as e:
        a = "raises " + type(e).__name__
    c = canon(a)
    return a, c, args, before


def wipe():
    """An empty disk cache."""
    root = os.environ["XDG_CACHE_HOME"]
    for d, _, fs in os.walk(root):
        for f in fs:
            os.unlink(os.path.join(d, f))


# ------------------------------------------------------------------------- fresh answers
_REQ = _ANS = None


def start_zygote():
    """Fork a process in which nothing is ever asked; its children give the fresh answers."""
    global _REQ, _ANS
    a, b = os.pipe()
    c, d = os.pipe()
    if os.fork() == 0:
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        os.close(b)
        os.close(c)
        rf, wf = os.fdopen(a, "rb"), os.fdopen(d, "wb")
        while True:
            h = rf.read(4)
            if len(h) < 4:
                os._exit(0)
            n, recipes, key = pickle.loads(rf.read(struct.unpack("I", h)[0]))
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    signal.alarm(20)
                    wipe()
                    rr, q, v, gg = key
                    if q == "create":
                        o = attempt(lambda: make(recipes[rr]))
                        os.write(w, pickle.dumps(digest(canon(o if isinstance(o, str) else "created"))))
                        os._exit(0)
                    o = make(recipes[rr])
                    g = o if gg is None else make(recipes[gg])
                    out = run_ask(o, recipes[rr][0], q, v, g)[1]
                    os.write(w, pickle.dumps(digest(out)))
                except BaseException as e:
                    os.write(w, pickle.dumps("!" + repr(e)[:200]))
                os._exit(0)
            os.close(w)
            data = b""
            while True:
                k = os.read(r, 65536)
                if not k:
                    break
                data += k
            os.close(r)
            os.waitpid(pid, 0)
            m = pickle.dumps((n, pickle.loads(data) if data else None))
            wf.write(struct.pack("I", len(m)) + m)
            wf.flush()
    os.close(a)
    os.close(d)
    _REQ, _ANS = os.fdopen(b, "wb"), os.fdopen(c, "rb")


_N = 0


def fresh(recipes, key):
    global _N
    _N += 1
    m = pickle.dumps((_N, recipes, key))
    _REQ.write(struct.pack("I", len(m)) + m)
    _REQ.flush()
    while True:
        n, v = pickle.loads(_ANS.read(struct.unpack("I", _ANS.read(4))[0]))
        if n == _N:
            return v


def observe(recipes, program):
    wipe()
    objects, rec = {}, {}
    kept, ev = [], []
    for op in program:
        if op["op"] == "create":
            rec[op["h"]] = op["r"] - 1
            o = attempt(lambda: make(recipes[op["r"] - 1]))
            objects[op["h"]] = o
            # a creation is a question too: it is refused or not
            d = digest(canon(o if isinstance(o, str) else "created"))
            kept.append((o if isinstance(o, str) else "created", []))
            ev.append({"q": "create", "h": op["h"], "key": (rec[op["h"]], "create", 0, None, True), "d": d, "a0": [], "a1": []})
            continue
        if op["op"] != "ask":
            continue
        h, g = op["h"], op["g"]
        kind = recipes[rec[h]][0]
        if isinstance(objects[h], str) or isinstance(objects[g], str):
            continue
        a, c, args, before = run_ask(objects[h], kind, op["q"], op["v"], objects[g])
        key = (rec[h], op["q"], op["v"], None if g == h and not _binary(op["q"]) else rec[g], g == h)
        kept.append((a, args))
        ev.append({"q": op["q"], "h": h, "key": key, "d": digest(c), "a0": before,
                   "a1": [digest(canon(b)) for b in args]})
    for e, (a, args) in zip(ev, kept):
        e["late"] = digest(canon(a))
        e["a2"] = [digest(canon(b)) for b in args]
    table = {}
    for e in ev:
        k = e["key"]
        if k not in table:
            # a question about two objects of the same handle is a question about one object
            fk = (k[0], k[1], k[2], None if k[4] else k[3])
            d = fresh(recipes, fk)
            if d is not None and d.startswith("!"):
                raise common.MachineryError(f"fresh answer {fk}: {d}")
            table[k] = d or ""
    keys = sorted(table, key=repr)
    for e in ev:
        e["key"] = keys.index(e["key"]) + 1
    return {"ev": ev, "fresh": [table[k] for k in keys]}


def _binary(q):
    return q in ("dof on other", "add functions", "reference intersection", "intersection", "equal", "add", "mul",
                 "dot", "equal function")
