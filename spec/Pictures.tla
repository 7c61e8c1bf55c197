-------------------------------- MODULE Pictures --------------------------------
(* Pictures as a state machine: pictures are lists of drawn items, saving writes the current items of     *)
(* one picture to every requested file, and nothing else changes.                                         *)
(*                                                                                                        *)
(* Coordinates are in units of 1/600; positions on the page in 1/100 px (SVG) or 1/10000 cm (TikZ).       *)
(*   item    : record with field op and, according to it, pts, col, w, txt, num, ...                      *)
(*   options : scale, width, height (0: not given), pad, axes (0: default), das (size of the dof arrows)  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS Handles, Files

(* ------------------------------------------------------------------ the page *)
Half == 300
Axes3(a) == CASE a = 0 -> << <<Half, -24>>, <<Half \div 2, 60>>, <<0, Half>> >>
              [] a = 1 -> << <<Half, 0>>, <<120, 180>>, <<0, 240>> >>
              [] OTHER -> << <<-180, -60>>, <<Half, -60>>, <<0, Half>> >>
To2(p, a) == \* points have coordinates in halves
  CASE Len(p) = 0 -> <<0, 0>>
    [] Len(p) = 1 -> << Half * p[1], 0 >>
    [] Len(p) = 2 -> << Half * p[1], Half * p[2] >>
    [] OTHER -> LET x == Axes3(a) IN [c \in 1..2 |-> p[1] * x[1][c] + p[2] * x[2][c] + p[3] * x[3][c]]

Black == "#000000"
White == "#FFFFFF"
Purple == "#DD2299"
NumSize(n) == IF n < 10 THEN 25 ELSE IF n < 100 THEN 20 ELSE 12
Circle(c, n, col, tcol, fcol) ==
  [t |-> "ncircle", pts |-> <<c>>, num |-> n, col |-> col, tcol |-> tcol, fcol |-> fcol, r |-> 20, fs |-> NumSize(n), w |-> 4]
(* drawn items in page-independent coordinates *)
Drawn(it, o) ==
  LET q == [i \in 1..Len(it.pts) |-> To2(it.pts[i], o.axes)]
  IN CASE it.op \in {"line", "bezier", "arrow"} -> << [t |-> it.op, pts |-> q, col |-> it.col, w |-> it.w] >>
       [] it.op = "fill" -> << [t |-> "fill", pts |-> q, col |-> it.col, w |-> it.w] >>
       [] it.op = "math" -> << [t |-> "math", pts |-> q, col |-> it.col, txt |-> it.txt, fs |-> it.fs, anchor |-> it.anchor] >>
       [] it.op = "ncircle" -> << [t |-> "ncircle", pts |-> q, num |-> it.num, col |-> it.col, tcol |-> it.tcol, fcol |-> it.fcol,
                                   r |-> it.r, fs |-> IF it.fs = 0 THEN NumSize(it.num) ELSE it.fs, w |-> it.w] >>
       [] it.op = "marker" -> << IF it.bold THEN Circle(q[1], it.num, Black, Black, it.col)
                                 ELSE Circle(q[1], it.num, it.col, it.col, White) >>
       [] OTHER -> \* dof arrow: one eighth long, times the size; directions have a rational length (in fifths)
            LET d == To2(it.dir, o.axes)
                m == CHOOSE m \in 1..4000 : m * m = (d[1] \div 12) * (d[1] \div 12) + (d[2] \div 12) * (d[2] \div 12)
                v == [c \in 1..2 |-> (75 * o.das * (d[c] \div 12)) \div m]
                s == [c \in 1..2 |-> q[1][c] + IF it.shifted THEN v[c] \div 3 ELSE 0]
            IN << [t |-> "arrow", pts |-> << s, [c \in 1..2 |-> s[c] + v[c]] >>, col |-> it.col, w |-> 4],
                  IF it.bold THEN Circle(s, it.num, Black, Black, it.col) ELSE Circle(s, it.num, it.col, it.col, White) >>
Seq1(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
DrawnAll(p) == TLCEval(Seq1([i \in 1..Len(p.items) |-> Drawn(p.items[i], p.opts)]))
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(S) == CHOOSE x \in S : \A y \in S : x >= y
(* the corners of the picture: curves count with their end points *)
Corners(d) == IF d.t = "bezier" THEN {d.pts[1], d.pts[4]} ELSE {d.pts[i] : i \in 1..Len(d.pts)}
Box(ds) == LET P == UNION {Corners(ds[i]) : i \in 1..Len(ds)}
           IN TLCEval([lx |-> Least({q[1] : q \in P}), ly |-> Least({q[2] : q \in P}),
                       hx |-> Most({q[1] : q \in P}), hy |-> Most({q[2] : q \in P})])
(* u units on the page, times per: 100 (1/100 px), 50 (1/10000 cm) *)
Span(u, o, b, per) ==
  CASE o.scale > 0 -> (u * o.scale * (per \div 2)) \div 300
    [] o.width > 0 -> (u * o.width * per) \div (b.hx - b.lx)
    [] o.height > 0 -> (u * o.height * per) \div (b.hy - b.ly)
    [] OTHER -> (u * 450 * (per \div 2)) \div 300
Svg(q, o, b) == << 100 * o.pad + Span(q[1] - b.lx, o, b, 100), 100 * o.pad + Span(b.hy - q[2], o, b, 100) >>
Tikz(q, o, b) == << 10000 * o.pad + Span(q[1] - b.lx, o, b, 50), 10000 * o.pad + Span(q[2] - b.ly, o, b, 50) >>
CanDraw(ds, o) == /\ ds # <<>>
                  /\ o.width > 0 => Box(ds).hx > Box(ds).lx
                  /\ o.height > 0 => Box(ds).hy > Box(ds).ly

TexSize(n) == CASE n < 21 -> "tiny" [] n < 24 -> "scriptsize" [] n < 27 -> "footnotesize" [] n < 30 -> "small"
                [] n < 33 -> "normalsize" [] n < 36 -> "large" [] n < 39 -> "Large" [] n < 42 -> "LARGE" [] n < 45 -> "huge"
                [] OTHER -> "Huge"

(* ------------------------------------------------------------------ what a file contains *)
(* primitives: [k, p (positions), col, fill, w (in 1/1000), txt, size, anchor] *)
Pr(k, p, col, fill, w, txt, size, anchor) ==
  [k |-> k, p |-> p, col |-> col, fill |-> fill, w |-> w, txt |-> txt, size |-> size, anchor |-> anchor]
SvgOf(d, o, b) ==
  LET p == [i \in 1..Len(d.pts) |-> Svg(d.pts[i], o, b)]
  IN CASE d.t \in {"line", "bezier"} -> << Pr(d.t, p, d.col, "", 1000 * d.w, "", "", "") >>
       [] d.t = "arrow" -> << Pr("line", p, d.col, "", 1000 * d.w, "", "", "") >>
                           \o (IF d.pts[1] = d.pts[2] THEN <<>>
                               ELSE << Pr("head", << p[2] >>, d.col, "", 1000 * d.w, "", "", ""),
                                       Pr("head", << p[2] >>, d.col, "", 1000 * d.w, "", "", "") >>)
       [] d.t = "fill" -> << Pr("fill", p, "", d.col, 10 * d.w, "", "", "") >>
       [] d.t = "math" -> << Pr("text", p, d.col, "", 0, d.txt, ToString(d.fs), d.anchor) >>
       [] OTHER -> << Pr("circle", p, d.col, d.fcol, 1000 * d.w, "", ToString(d.r), ""),
                      Pr("text", p, d.tcol, "", 0, ToString(d.num), ToString(d.fs), "center") >>
TikzOf(d, o, b) ==
  LET p == [i \in 1..Len(d.pts) |-> Tikz(d.pts[i], o, b)]
  IN CASE d.t \in {"line", "bezier", "arrow"} -> << Pr(d.t, p, d.col, "", 200 * d.w, "", "", "") >>
       [] d.t = "fill" -> << Pr("fill", p, "", d.col, 10 * d.w, "", "", "") >>
       [] d.t = "math" -> << Pr("math", p, d.col, "", 0, d.txt, TexSize(d.fs), d.anchor) >>
       [] OTHER -> << Pr("circle", p, d.col, d.fcol, 200 * d.w, "", ToString(d.r), ""),
                      Pr("text", p, d.tcol, "", 0, ToString(d.num), TexSize(d.fs), "center") >>
Content(p, fmt) ==
  LET ds == DrawnAll(p)
      b == Box(ds)
  IN TLCEval(Seq1([i \in 1..Len(ds) |-> IF fmt = "tex" THEN TikzOf(ds[i], p.opts, b) ELSE SvgOf(ds[i], p.opts, b)]))
PageSize(p) == LET b == Box(DrawnAll(p))
               IN << 200 * p.opts.pad + Span(b.hx - b.lx, p.opts, b, 100), 200 * p.opts.pad + Span(b.hy - b.ly, p.opts, b, 100) >>

(* ------------------------------------------------------------------ the machine *)
(* a step: [a |-> "new", h, opts], [a |-> "add", h, item], [a |-> "save", h, files], [a |-> "text", h, fmt] *)
Blank(o) == [opts |-> o, items |-> <<>>]
NoPic == [opts |-> <<>>, items |-> <<>>]
AfterPics(pics, s) ==
  CASE s.a = "new" -> [pics EXCEPT ![s.h] = Blank(s.opts)]
    [] s.a = "add" -> [pics EXCEPT ![s.h] = [@ EXCEPT !.items = Append(@, s.item)]]
    [] OTHER -> pics
(* which version of which picture a file shows: <<handle, number of the step that saved it>> *)
AfterDisk(pics, disk, s, n) ==
  IF s.a = "save" /\ CanDraw(DrawnAll(pics[s.h]), pics[s.h].opts)
  THEN [f \in Files |-> IF \E i \in 1..Len(s.files) : s.files[i] = f THEN <<s.h, n>> ELSE disk[f]]
  ELSE disk
================================================================================
