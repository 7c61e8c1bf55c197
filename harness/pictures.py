"""Drawing programs executed on real pictures, and readers of what they write."""
import hashlib
import io
import os
import re
import shutil
import tempfile
import xml.etree.ElementTree as ET

import common

SVG = "{http://www.w3.org/2000/svg}"


def _n(s, k):
    v = float(s)
    if v != v or v in (float("inf"), float("-inf")):
        raise ValueError("not a number: " + str(s))
    return int(round(v * k))


def prim(k, p, col="", fill="", w=0, txt="", size="", anchor=""):
    return {"k": k, "p": p, "col": col, "fill": fill, "w": w, "txt": txt, "size": size, "anchor": anchor}


def _size(s):
    f = float(s)
    return str(int(f)) if f == int(f) else str(f)


_H = {"start": "west", "": "west", "middle": "", "end": "east"}
_V = {"hanging": "north", "text-top": "north", "text-before-edge": "north", "before-edge": "north",
      "middle": "", "central": "", "text-bottom": "south", "text-after-edge": "south", "after-edge": "south",
      "": "base", "auto": "base", "alphabetic": "base"}


def _anchor(e):
    st = dict(q.split(":", 1) for q in (e.get("style") or "").split(";") if ":" in q)
    st = {k.strip(): v.strip() for k, v in st.items()}
    h = _H.get(st.get("text-anchor", e.get("text-anchor", "")), "?")
    v = _V.get(st.get("dominant-baseline", e.get("dominant-baseline", "")), "?")
    return " ".join(q for q in (v, h) if q) or "center"


def read_svg(text):
    root = ET.fromstring(text)
    if root.tag != SVG + "svg":
        raise ValueError("not an svg")
    out = []
    title = ""

    def pairs(s):
        v = [q for q in re.split(r"[\s,]+", s.strip()) if q]
        if len(v) % 2:
            raise ValueError("odd number of coordinates")
        return [[_n(v[i], 100), _n(v[i + 1], 100)] for i in range(0, len(v), 2)]

    def walk(node):
        nonlocal title
        for e in node:
            t = e.tag.replace(SVG, "")
            if t == "title":
                title = e.text or ""
            elif t in ("desc", "metadata", "defs"):
                continue
            elif t == "g":
                walk(e)
            elif t == "line":
                out.append(prim("line", [[_n(e.get("x1"), 100), _n(e.get("y1"), 100)],
                                         [_n(e.get("x2"), 100), _n(e.get("y2"), 100)]],
                                col=e.get("stroke"), w=_n(e.get("stroke-width"), 1000)))
            elif t == "path":
                m = re.fullmatch(r"\s*M([^MCLZ]*)C([^MCLZ]*)", e.get("d"))
                out.append(prim("bezier", pairs(m.group(1) + " " + m.group(2)), col=e.get("stroke"),
                                fill="" if e.get("fill") == "none" else str(e.get("fill")),
                                w=_n(e.get("stroke-width"), 1000)))
            elif t == "circle":
                out.append(prim("circle", [[_n(e.get("cx"), 100), _n(e.get("cy"), 100)]], col=e.get("stroke"),
                                fill=e.get("fill"), w=_n(e.get("stroke-width"), 1000), size=_size(e.get("r"))))
            elif t == "polygon":
                out.append(prim("fill", pairs(e.get("points")), fill=e.get("fill"),
                                w=_n(e.get("opacity", "1"), 1000)))
            elif t == "text":
                out.append(prim("text", [[_n(e.get("x"), 100), _n(e.get("y"), 100)]], col=e.get("fill"),
                                txt="".join(e.itertext()), size=_size(e.get("font-size")), anchor=_anchor(e)))
            else:
                out.append(prim("?" + t, []))
    walk(root)
    return {"page": [_n(root.get("width"), 100), _n(root.get("height"), 100)], "title": title, "prims": out}


_PT = r"\(\s*([-+.\deE]+|nan|inf)\s*,\s*([-+.\deE]+|nan|inf)\s*\)"


def read_tikz(text):
    body = re.search(r"\\begin\{tikzpicture\}(?:\[[^\]]*\])?(.*)\\end\{tikzpicture\}", text, re.S).group(1)
    pre = text[:text.index("\\begin{tikzpicture}")]
    for line in pre.splitlines():
        if line.strip() and not line.strip().startswith("%"):
            raise ValueError("text before the picture")
    names = {}
    out = []

    def pts(s):
        return [[_n(a, 10000), _n(b, 10000)] for a, b in re.findall(_PT, s)]

    def col(c):
        if c in names:
            return names[c]
        if c.startswith("customcolor") or not re.fullmatch(r"[a-zA-Z]+", c):
            return "undefined " + c
        return c
    pos = 0
    cmd = re.compile(r"\s*(?:\\definecolor\{(\w+)\}\{HTML\}\{(\w+)\}"
                     r"|\\(draw|fill)\[([^\]]*)\]([^;]*);"
                     r"|\\node\[([^\]]*)\]\s*at\s*(" + _PT + r")\s*)")
    while body[pos:].strip():
        m = cmd.match(body, pos)
        if not m:
            raise ValueError("cannot read " + body[pos:pos + 60])
        pos = m.end()
        if m.group(1):
            names[m.group(1)] = "#" + m.group(2)
            continue
        if m.group(3):
            opts = [q.strip() for q in m.group(4).split(",")]
            kv = dict(q.split("=", 1) for q in opts if "=" in q)
            plain = [q for q in opts if "=" not in q]
            heads = [q for q in plain if q.startswith("-")]
            colour = [q for q in plain if not q.startswith("-")]
            rest = m.group(5)
            w = _n(kv["line width"].replace("pt", ""), 1000) if "line width" in kv else 0
            if m.group(3) == "fill":
                if not rest.strip().endswith("cycle"):
                    raise ValueError("open polygon")
                out.append(prim("fill", pts(rest), fill=col(colour[0]), w=_n(kv.get("opacity", "1"), 1000)))
            elif "circle" in rest:
                r = float(re.search(r"circle\s*\(\s*([-.\d]+)pt", rest).group(1))
                out.append(prim("circle", pts(rest), col=col(colour[0]), fill=col(kv["fill"]), w=w,
                                size=_size(round(r * 5, 6))))
            elif "controls" in rest:
                out.append(prim("bezier", pts(rest), col=col(colour[0]), w=w))
            else:
                if heads not in ([], ["-stealth"]):
                    raise ValueError("unknown arrow head")
                out.append(prim("arrow" if heads else "line", pts(rest), col=col(colour[0]), w=w))
            continue
        # a node: the label is in balanced braces
        depth = 0
        k = pos
        while True:
            c = body[k]
            if c == "\\":
                k += 2
                continue
            depth += (c == "{") - (c == "}")
            k += 1
            if depth == 0:
                break
        label = body[pos + 1:k - 1]
        if body[k] != ";":
            raise ValueError("unfinished node")
        opts = [q.strip() for q in m.group(6).split(",")]
        kv = dict(q.split("=", 1) for q in opts if "=" in q)
        q = re.fullmatch(r"\\(\w+)(.*)", label, re.S)
        txt = q.group(2)
        if txt.startswith("$"):
            if not txt.endswith("$"):
                raise ValueError("unfinished mathematics")
            k2, txt = "math", txt[1:-1]
        else:
            k2, txt = "text", txt.strip()
        out.append(prim(k2, pts(m.group(7)), col=col([o for o in opts if "=" not in o][0]), txt=txt,
                        size=q.group(1), anchor=kv.get("anchor", "center")))
        pos = k + 1
    return {"page": [0, 0], "title": "", "prims": out}


def read_png(data, svg):
    from PIL import Image
    from cairosvg import svg2png
    a = Image.open(io.BytesIO(data)).convert("RGBA")
    b = Image.open(io.BytesIO(svg2png(bytestring=svg.encode()))).convert("RGBA")
    return {"page": list(a.size), "title": "", "prims": [], "same": a.size == b.size and a.tobytes() == b.tobytes()}


def digest(data):
    return hashlib.sha1(data).hexdigest()[:12]


# ------------------------------------------------------------------------------------------ programs
def execute(prog):
    import sympy
    from symfem.functions import VectorFunction
    from symfem.plotting import Picture
    H = sympy.Rational(1, 2)
    axes = [None, ((1, 0), (sympy.Rational(2, 5), sympy.Rational(3, 5)), (0, sympy.Rational(4, 5))),
            ((-sympy.Rational(3, 5), -sympy.Rational(1, 5)), (1, -sympy.Rational(1, 5)), (0, 1))]
    folder = tempfile.mkdtemp(prefix="pic-", dir=common.scratch())
    pics = {}
    out = []

    def point(q, form):
        cs = [sympy.Integer(c) * H for c in q]
        if form == 1:
            return list(cs)
        if form == 2 and cs:
            return VectorFunction(tuple(cs))
        if form == 3:
            return tuple(int(c) if c.is_Integer else c for c in cs)
        return tuple(cs)

    def kept(rec, data, reader):
        rec.update({"raised": "", "page": [0, 0], "title": "", "prims": [], "same": True})
        try:
            rec.update(reader(data))
        except Exception as e:
            rec["raised"] = f"cannot be read back ({type(e).__name__}: {e})"[:120]
        rec["digest"] = digest(data if isinstance(data, bytes) else data.encode())
        return rec

    def failed(e):
        return {"raised": f"{type(e).__name__}: {e}"[:120], "page": [0, 0], "title": "", "prims": [], "same": True,
                "digest": "none"}
    try:
        for s in prog:
            rec = []
            h = s["h"]
            if s["a"] == "new":
                o = s["opts"]
                kw = {k: o[k] for k in ("scale", "width", "height") if o[k] > 0}
                if o["axes"]:
                    kw["axes_3d"] = axes[o["axes"]]
                if o["das"] != 1:
                    kw["dof_arrow_size"] = o["das"]
                if o["title"]:
                    kw["title"] = o["title"]
                if o["pad"] != 25:
                    kw["padding"] = sympy.Integer(o["pad"])
                pics[h] = Picture(**kw)
            elif s["a"] == "add":
                p, it = pics[h], s["item"]
                q = [point(w, it["form"]) for w in it["pts"]]
                k, c, w = it["op"], it["col"], it["w"]
                if k == "line":
                    p.add_line(q[0], q[1], c, w)
                elif k == "arrow":
                    p.add_arrow(q[0], q[1], c, w)
                elif k == "bezier":
                    p.add_bezier(q[0], q[1], q[2], q[3], c, w)
                elif k == "fill":
                    p.add_fill(q, c, w / 100)
                elif k == "math":
                    p.add_math(point(it["pts"][0], it["form"] % 2), it["txt"], c, it["fs"], it["anchor"])
                elif k == "ncircle":
                    p.add_ncircle(q[0], it["num"], c, it["tcol"], it["fcol"], it["r"],
                                  None if it["fs"] == 0 else it["fs"], w)
                elif k == "marker":
                    p.add_dof_marker(q[0], it["num"], c, bold=it["bold"])
                else:
                    p.add_dof_arrow(q[0], point(it["dir"], it["form"]), it["num"], c, it["shifted"], it["bold"])
            elif s["a"] == "text":
                p = pics[h]
                try:
                    t = p.as_svg() if s["fmt"] == "svg" else p.as_tikz()
                except Exception as e:
                    rec = [failed(e)]
                else:
                    rec = [kept({}, t, read_svg if s["fmt"] == "svg" else read_tikz)]
            else:
                p = pics[h]
                names = [os.path.join(folder, f) for f in s["files"]]
                try:
                    p.save(names if len(names) > 1 else names[0])
                except Exception as e:
                    rec = [failed(e) for _ in names]
                else:
                    for n in names:
                        if not os.path.exists(n):
                            rec.append(failed(FileNotFoundError("not written")))
                            continue
                        with open(n, "rb") as f:
                            data = f.read()
                        if n.endswith(".png"):
                            rec.append(kept({}, data, lambda d: read_png(d, p.as_svg())))
                        else:
                            rd = read_svg if n.endswith(".svg") else read_tikz
                            rec.append(kept({}, data, lambda d: rd(d.decode())))
            out.append(rec)
        final = {}
        for f in ("a.svg", "b.svg", "c.tex", "d.tex", "e.png"):
            n = os.path.join(folder, f)
            final[f] = "none"
            if os.path.exists(n):
                with open(n, "rb") as g:
                    final[f] = digest(g.read())
        return {"kind": "program", "prog": prog, "out": out, "final": final}
    finally:
        shutil.rmtree(folder, ignore_errors=True)


# ------------------------------------------------------------------------------------------ diagrams
def dof_diagram(el):
    import sympy
    folder = tempfile.mkdtemp(prefix="pic-", dir=common.scratch())

    def u(v):
        return [int(round(600 * float(sympy.sympify(c)))) for c in v]
    try:
        n = os.path.join(folder, "d.svg")
        el.plot_dof_diagram(n)
        with open(n) as f:
            d = read_svg(f.read())
        ref = el.reference
        return {"kind": "dofs", "prims": d["prims"], "pos": [u(v) for v in el.dof_plot_positions()],
                "dir": [[] if v is None else u(v) for v in el.dof_directions()],
                "ent": [e[0] for e in el.dof_entities()],
                "edges": [[u(ref.vertices[i]) for i in e] for e in ref.edges]}
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def plots(calls):
    """Run drawing calls in turn, each into its own file; what each drew."""
    folder = tempfile.mkdtemp(prefix="pic-", dir=common.scratch())
    out = []
    try:
        for i, c in enumerate(calls):
            n = os.path.join(folder, f"p{i}.svg")
            try:
                c(n)
                with open(n) as f:
                    d = read_svg(f.read())
                out.append([[p["k"], p["p"], p["col"], p["fill"], p["w"], p["txt"]] for p in d["prims"]])
            except Exception as e:
                out.append([["raised " + type(e).__name__ + ": " + str(e)[:80], [], "", "", 0, ""]])
        return out
    finally:
        shutil.rmtree(folder, ignore_errors=True)
