"""Runs programs of the function machine (spec/FunctionMachine.tla) with the library and records them."""
import itertools
import operator

import sympy

import common
import gen
import gf
import proj

BIN = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "div": operator.truediv,
       "matmul": operator.matmul, "dot": lambda a, b: a.dot(b), "cross": lambda a, b: a.cross(b)}
LAZY = {(): [("triangle", "Lagrange", 2), ("quadrilateral", "Q", 1), ("tetrahedron", "Lagrange", 1), ("prism", "Lagrange", 1)],
        (2,): [("triangle", "RT", 1), ("triangle", "N1curl", 1), ("quadrilateral", "NCF", 1)],
        (3,): [("tetrahedron", "N1curl", 1), ("tetrahedron", "RT", 1), ("hexahedron", "NCE", 1)],
        (2, 2): [("triangle", "Regge", 0), ("triangle", "HHJ", 0)]}
SINGULAR = (sympy.zoo, sympy.nan, sympy.oo, -sympy.oo)


def xs():
    from symfem.symbols import x
    return x


def is_fun(o):
    from symfem.functions import AnyFunction
    return isinstance(o, AnyFunction)


def value(o):
    """Shape and components of an operand of any kind, without using the operations under test."""
    if hasattr(o, "get_function"):
        o = o.get_function()
    if is_fun(o):
        o = o.as_sympy()
    if isinstance(o, sympy.MatrixBase):
        return [o.rows, o.cols], [o[i, j] for i in range(o.rows) for j in range(o.cols)]
    if isinstance(o, (tuple, list)):
        if len(o) and isinstance(o[0], (tuple, list)):
            return [len(o), len(o[0])], [scalar(c) for r in o for c in r]
        return [len(o)], [scalar(c) for c in o]
    return [], [scalar(o)]


def scalar(c):
    if hasattr(c, "get_function"):
        c = c.get_function()
    if is_fun(c):
        c = c.as_sympy()
    return sympy.sympify(c)


def digest(o):
    sh, c = value(o)
    return sh, [sympy.srepr(i) for i in c]


def rpoly(rng, q):
    """A random scalar expression; q: a quotient."""
    x = xs()
    f = gen.poly(rng, 3, 2, rng.choice((1, 2)))
    if rng.random() < .2:
        f = sympy.expand(f ** 1) + rng.choice(x) * (rng.choice(x) + 1)
    if q:
        f = f / (rng.choice(x) + rng.choice((2, 3, 5)))
    return f


def make(entry, rng):
    import symfem
    from symfem.functions import MatrixFunction, ScalarFunction, VectorFunction
    k, s, q = entry["k"], entry["s"], entry["q"]
    if k == "int":
        return rng.choice((-3, -2, -1, 2, 3, 5))
    if k == "num":
        return gen.nz(rng)
    if k == "expr":
        return rpoly(rng, 0)
    if k == "S":
        return ScalarFunction(rng.choice((1, 2, -3)) if rng.random() < .1 else rpoly(rng, q))
    if len(s) == 1:
        c = [rng.choice((0, 1, -2, gen.num(rng))) if rng.random() < .2 else rpoly(rng, q) for _ in range(s[0])]
    elif len(s) == 2:
        c = [[0 if rng.random() < .2 else gen.poly(rng, 3, 1, 1) for _ in range(s[1])] for _ in range(s[0])]
    if k == "tup":
        return tuple(c)
    if k == "list":
        return list(c)
    if k == "V":
        return VectorFunction(tuple(c) if rng.random() < .5 else [ScalarFunction(sympy.sympify(i)) for i in c])
    if k == "tt":
        return tuple(tuple(r) for r in c) if rng.random() < .5 else [list(r) for r in c]
    if k == "sm":
        return sympy.Matrix(c)
    if k == "M":
        return MatrixFunction(rng.choice((sympy.Matrix(c), tuple(tuple(r) for r in c))))
    e = symfem.create_element(*rng.choice(LAZY[tuple(s)]))
    b = e.get_basis_function(rng.randrange(e.space_dim))
    if k == "C":
        n = rng.randrange(1, 4)
        return b.subs(xs()[:n], tuple(rng.choice(xs()) + gen.num(rng) for _ in range(n)))
    return b


def substitution(form, rng):
    """(arguments for subs, indices of the variables, expressions for them)"""
    from symfem.functions import ScalarFunction, VectorFunction
    x = xs()
    lin = lambda: gen.num(rng) + sum(gen.num(rng) * v for v in rng.sample(list(x), 2))  # noqa: E731
    if form == 1:
        k, v = rng.randrange(3), gen.num(rng)
        return (x[k], v), [k], [v]
    if form == 2:
        k, v = rng.randrange(3), lin()
        return (x[k], ScalarFunction(v) if rng.random() < .4 else v), [k], [v]
    if form == 3:
        n = rng.randrange(1, 4)
        v = [gen.num(rng) for _ in range(n)]
        return (x[:n] if rng.random() < .5 else list(x[:n]), tuple(v)), list(range(n)), v
    if form == 4:
        v = [lin() for _ in range(3)]
        return (x, v), [0, 1, 2], v
    if form == 5:
        v = [lin() for _ in range(3)]
        return (x, VectorFunction(v)), [0, 1, 2], v
    k = rng.sample(range(3), rng.choice((2, 3)))
    v = k[1:] + k[:1]
    return (tuple(x[i] for i in k), tuple(x[i] for i in v)), k, [x[i] for i in v]


def equal_variant(b, rng):
    """Another way of writing the same function, or a function that differs slightly."""
    from symfem.functions import MatrixFunction, ScalarFunction, VectorFunction
    x = xs()
    sh, c = value(b)
    c = [sympy.expand(i) if rng.random() < .5 else (i + 1 - 1 * (x[0] + 1) / (x[0] + 1) if rng.random() < .3 else sympy.factor(i))
         for i in c]
    if rng.random() < .3:
        k = rng.randrange(len(c))
        c[k] = c[k] + rng.choice((1, x[0], x[2] ** 2, sympy.Rational(1, 1000)))
    if not sh:
        return rng.choice((ScalarFunction(c[0]), c[0]))
    if len(sh) == 1:
        return rng.choice((VectorFunction(c), tuple(c)))
    m = [c[i * sh[1]:(i + 1) * sh[1]] for i in range(sh[0])]
    return rng.choice((MatrixFunction(m), sympy.Matrix(m)))


def kind(o):
    from symfem.basis_functions import BasisFunction, SubbedBasisFunction
    from symfem.functions import MatrixFunction, ScalarFunction, VectorFunction
    if isinstance(o, SubbedBasisFunction):
        return "C"
    if isinstance(o, BasisFunction):
        return "B"
    if is_fun(o):
        return {ScalarFunction: "S", VectorFunction: "V", MatrixFunction: "M"}[type(o)]
    if isinstance(o, sympy.MatrixBase):
        return "sm"
    if isinstance(o, (tuple, list)):
        return "tt" if isinstance(o[0], (tuple, list)) else "list" if isinstance(o, list) else "tup"
    return "int" if isinstance(o, int) else "num" if sympy.sympify(o).is_Rational else "expr"


def run(prog, key, calculus=None):
    """Execute a program; the list of (label, observation) of its operations."""
    rng = common.rng("fmachine", key)
    regs, marks, out = [], [], []
    for n, st in enumerate(prog):
        op = st["op"]
        if op == "new":
            regs.append(make(st, rng))
            marks.append(digest(regs[-1]))
            continue
        a = regs[st["i"] - 1]
        b = regs[st["j"] - 1]
        if a is None or b is None:
            if st["adds"]:
                regs.append(None)
                marks.append(None)
            continue
        if calculus is not None and op in calculus.OPS:
            rec = calculus.observe(op, a, st["arg"], rng)
            res = None
        else:
            rec, res = operate(op, a, b, st["arg"], rng)
        changed = [i + 1 for i, (r, m) in enumerate(zip(regs, marks)) if r is not None and digest(r) != m]
        if rec is not None:
            rec["changed"] = changed
            lab = f"{op} {kind(a)}" + (f" {kind(b)}" if op in BIN else "")
            out.append((f"{lab}: program {key} step {n + 1}", rec))
        for i in changed:
            marks[i - 1] = digest(regs[i - 1])
        if st["adds"]:
            ok = res is not None and usable(res)
            if ok and not is_fun(res):
                res = wrap(res)
            regs.append(res if ok else None)
            marks.append(digest(res) if ok else None)
    return out


def wrap(o):
    from symfem.functions import MatrixFunction, ScalarFunction, VectorFunction
    sh, c = value(o)
    if not sh:
        return ScalarFunction(c[0])
    if len(sh) == 1:
        return VectorFunction(c)
    return MatrixFunction([c[i * sh[1]:(i + 1) * sh[1]] for i in range(sh[0])])


def usable(o):
    sh, c = value(o)
    return not any(i.has(*SINGULAR) for i in c) and len(str(c)) < 6000 and 0 not in sh


def operate(op, a, b, arg, rng):
    """The recorded observation of one operation and its result (None: refused or not a function)."""
    sub = ([], [])
    lengths = None
    if op == "eq":
        b = equal_variant(a, rng) if is_fun(a) and rng.random() < .6 else b
        if isinstance(a, (sympy.Basic, sympy.MatrixBase)):
            a, b = b, a                      # sympy decides what its own objects equal
        swap = isinstance(b, (int, tuple, list)) and rng.random() < .4
    try:
        if op == "eq":
            res = (b == a) if swap else (a == b)
            ne = (b != a) if swap else (a != b)
        elif op in BIN:
            res = BIN[op](a, b)
        elif op == "neg":
            res = -a
        elif op == "pow":
            e = arg[0]
            from symfem.functions import ScalarFunction
            res = a ** rng.choice((e, sympy.Integer(e), ScalarFunction(e)))
        elif op == "item":
            res = a[arg[0]]
        elif op == "item2":
            res = a[arg[0], arg[1]]
        elif op == "slice":
            res = a[arg[0]:arg[1]]
        elif op in ("row", "col"):
            res = getattr(a, op)(arg[0])
        elif op == "iter":
            res = list(a)
        elif op == "iter2":
            res = list(itertools.chain(*[[u, v] for u in a for v in a]))
        elif op == "len":
            res = len(a)
        elif op == "shape":
            res = a.shape
        elif op == "transpose":
            res = a.transpose()
        elif op == "det":
            res = a.det()
        elif op == "subs":
            args, vs, es = substitution(arg[0], rng)
            sub = (vs, es)
            res = a.subs(*args)
            if rng.random() < .5 and arg[0] in (3, 4, 5):       # calling conventions are equivalent
                pass
    except Exception:  # noqa: BLE001
        res, lengths = None, "refused"
    sa, sb = value(a), value(b)
    t = lengths or {"eq": "bool", "len": "number", "shape": "shape"}.get(op, "value")
    if t == "value" and op not in ("iter", "iter2") and len(value(res)[1]) and \
            any(i.has(*SINGULAR) for i in value(res)[1]):
        t = "singular"
    if t == "value" and (sum(len(str(i)) for i in value(res)[1]) > 8000):
        return None, None
    if any(len(str(i)) > 8000 for i in sa[1] + sb[1]):
        return None, res

    def build(P):
        pts = [[rng.randrange(P.p) for _ in range(3)] for _ in range(2)]
        o = {"p": P.p, "op": op, "arg": list(arg), "ka": kind(a), "kb": kind(b),
             "a": plain(P, sa), "b": plain(P, sb), "t": t, "pts": pts, "sub": [[i + 1 for i in sub[0]], [P.scalar(e) for e in sub[1]]],
             "r": plain(P, value(res)) if t == "value" else {"sh": list(res) if t == "shape" else [], "c": []},
             "v": [int(bool(res)), int(bool(ne))] if t == "bool" else [res] if t == "number" else []}
        for f in (o["a"], o["b"], o["r"]):
            for c in f["c"]:
                for q in c:
                    if any(e > 24 for m in q for e in m[1:]):
                        raise gf.NotRepresentable("degree above the table size")
        return o
    try:
        rec = proj.with_projector(rng, build)
    except gf.NotRepresentable:
        rec = None
    return rec, (res if t == "value" and op not in ("iter", "iter2") else None)


def plain(P, v):
    return {"sh": v[0], "c": [P.scalar(c) for c in v[1]]}
