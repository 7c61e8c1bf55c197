------------------------------- MODULE C20_Pictures -------------------------------
(* kind "program": prog is a behaviour of the machine of Pictures, out what the real pictures wrote at    *)
(*   each step that saves (or returns text), final the digests of the files at the end                    *)
(* kind "dofs": a diagram of degrees of freedom;  kind "again": the same diagram drawn after others       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json, IOUtils
INSTANCE Pictures WITH Handles <- 1..3, Files <- {"a.svg", "b.svg", "c.tex", "d.tex", "e.png"}
Files == {"a.svg", "b.svg", "c.tex", "d.tex", "e.png"}
Handles == 1..3
ObsAll == JsonDeserialize(IOEnv.OBS)

Near(a, b) == a - b \in -3..3
NearP(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Len(a[i]) = 2 /\ Near(a[i][1], b[i][1]) /\ Near(a[i][2], b[i][2])
(* an arrow head: from somewhere behind the tip, on both sides of the shaft alike *)
HeadOk(sh, h1, h2) ==
  LET tip == sh.p[2]
      d == << (tip[1] - sh.p[1][1]) \div 100, (tip[2] - sh.p[1][2]) \div 100 >>
      r(h) == << h.p[1][1] - tip[1], h.p[1][2] - tip[2] >>
      a == r(h1)
      b == r(h2)
      m == << a[1] + b[1], a[2] + b[2] >>
      n2(x) == x[1] * x[1] + x[2] * x[2]
      l1(x) == (IF x[1] < 0 THEN -x[1] ELSE x[1]) + (IF x[2] < 0 THEN -x[2] ELSE x[2])
      cr == m[1] * d[2] - m[2] * d[1]
  IN /\ d = <<0, 0>> \/ m[1] * d[1] + m[2] * d[2] < 0
     /\ cr <= 8 * l1(d) + 2 * l1(m) + 8 /\ -cr <= 8 * l1(d) + 2 * l1(m) + 8
     /\ a # b /\ n2(a) - n2(b) <= 20 * (l1(a) + l1(b)) /\ n2(b) - n2(a) <= 20 * (l1(a) + l1(b))
PrimFails(e, r) ==
  LET kind == IF e.k = "head" THEN "line" ELSE e.k
  IN (IF r.k = kind THEN {} ELSE {"an item is drawn as something else, or out of order"})
     \cup (IF r.k # kind \/ (IF e.k = "head" THEN Len(r.p) = 2 /\ NearP(<< r.p[2] >>, e.p) ELSE NearP(r.p, e.p)) THEN {}
           ELSE {"an item is not at its projected position"})
     \cup (IF r.k # kind \/ (r.col = e.col /\ r.fill = e.fill) THEN {} ELSE {"an item is not in the requested colour"})
     \cup (IF r.k # kind \/ r.w = e.w THEN {} ELSE {"line width or opacity"})
     \cup (IF r.k # kind \/ r.txt = e.txt THEN {} ELSE {"text of a label"})
     \cup (IF r.k # kind \/ (r.size = e.size /\ r.anchor = e.anchor) THEN {} ELSE {"size or anchor of an item"})
PrimsFail(es, rs) ==
  IF Len(es) # Len(rs) THEN {"items are missing or drawn twice"}
  ELSE UNION {PrimFails(es[i], rs[i]) : i \in 1..Len(es)}
       \cup UNION {IF es[i].k = "head" /\ es[i - 1].k = "line" /\ rs[i].k = "line" /\ rs[i + 1].k = "line" /\ rs[i - 1].k = "line"
                   THEN (IF HeadOk(rs[i - 1], rs[i], rs[i + 1]) THEN {} ELSE {"arrow head"}) ELSE {} : i \in 2..Len(es)}

FmtOf(f) == CASE f \in {"a.svg", "b.svg"} -> "svg" [] f \in {"c.tex", "d.tex"} -> "tex" [] OTHER -> "png"
FileFails(p, fmt, r) ==
  IF r.raised # "" THEN {"saving failed: " \o r.raised}
  ELSE IF fmt = "png"
  THEN LET s == PageSize(p)
       IN (IF 100 * r.page[1] - s[1] \in -100..100 /\ 100 * r.page[2] - s[2] \in -100..100 THEN {} ELSE {"size of the png"})
          \cup (IF r.same THEN {} ELSE {"the png does not show the picture"})
  ELSE PrimsFail(Content(p, fmt), r.prims)
       \cup (IF fmt = "tex" \/ NearP(<< r.page >>, << PageSize(p) >>) THEN {} ELSE {"size of the page"})
       \cup (IF fmt = "tex" \/ r.title = p.opts.title THEN {} ELSE {"title"})
Accepts(p) == CanDraw(DrawnAll(p), p.opts)
StepFails(p, s, out) ==
  CASE s.a = "save" /\ Accepts(p) ->
         (IF Len(out) = Len(s.files) THEN {} ELSE {"observer: files"})
         \cup UNION {FileFails(p, FmtOf(s.files[i]), out[i]) : i \in 1..Len(out)}
    [] s.a = "text" /\ Accepts(p) -> FileFails(p, s.fmt, out[1])
    [] OTHER -> {}
(* the program, step by step; last: the digest of what each file was last given *)
Walk(o) ==
  FoldLeft(LAMBDA acc, n :
      LET s == o.prog[n]
          p == acc.pics[s.h]
          (* a picture that cannot be drawn at the requested size may leave anything in its own files *)
          upd == IF s.a = "save" /\ p # NoPic THEN [f \in Files |->
                    IF \E i \in 1..Len(s.files) : s.files[i] = f
                    THEN (IF Accepts(p) THEN o.out[n][CHOOSE i \in 1..Len(s.files) : s.files[i] = f].digest ELSE "any") ELSE acc.last[f]]
                 ELSE acc.last
      IN TLCEval([pics |-> AfterPics(acc.pics, s), last |-> upd,
                  bad |-> acc.bad \cup (IF s.a \in {"save", "text"} THEN StepFails(p, s, o.out[n]) ELSE {})]),
      [pics |-> [h \in Handles |-> NoPic], last |-> [f \in Files |-> "none"], bad |-> {}], [n \in 1..Len(o.prog) |-> n])
ProgramFails(o) ==
  LET w == Walk(o)
  IN w.bad \cup (IF \A f \in Files : w.last[f] = "any" \/ o.final[f] = w.last[f] THEN {} ELSE {"a file changed, or was never written"})

(* ------------------------------------------------------------------ diagrams *)
(* pos[i], dir[i]: position and direction of dof i - 1 (times 600), dir = <<>>: none; ent[i]: dimension of  *)
(* its entity; edges: end points; positions relative on the page (450 px per unit, default axes)            *)
EntityColour == << "#FF8800", "#44AAFF", "#55FF00", "#DD2299" >>
Flat2(q) == CASE Len(q) = 1 -> << q[1], 0 >>
              [] Len(q) = 2 -> q
              [] OTHER -> << q[1] + q[2] \div 2, q[3] + (5 * q[2] - 2 * q[1]) \div 25 >>
Rel(q) == LET f == Flat2(q) IN << 75 * f[1], -75 * f[2] >>
Plus(a, b) == << a[1] + b[1], a[2] + b[2] >>
NearD(a, b) == a[1] - b[1] \in -160..160 /\ a[2] - b[2] \in -160..160
DiagramFails(o) ==
  LET rs == o.prims
      lines == {i \in 1..Len(rs) : rs[i].k = "line" /\ rs[i].col = Black}
      circ == {i \in 1..(Len(rs) - 1) : rs[i].k = "circle" /\ rs[i + 1].k = "text"}
      first == CHOOSE i \in lines : \A k \in lines : i <= k
      drawn(off, e) == \E i \in lines : NearD(rs[i].p[1], Plus(off, Rel(e[1]))) /\ NearD(rs[i].p[2], Plus(off, Rel(e[2])))
      fits(off) == \A e \in 1..Len(o.edges) : drawn(off, o.edges[e])
      off0(e) == << rs[first].p[1][1] - Rel(o.edges[e][1])[1], rs[first].p[1][2] - Rel(o.edges[e][1])[2] >>
      good == {e \in 1..Len(o.edges) : fits(off0(e))}
      off == off0(CHOOSE e \in good : TRUE)
      n == Len(o.pos)
      of(i) == {c \in circ : rs[c + 1].txt = ToString(i)}
      at(i) == CHOOSE c \in of(i) : TRUE
      (* moved along the projected direction, by at most a third of an arrow *)
      shift(i) == LET q == rs[at(i)].p[1]
                      w == Plus(off, Rel(o.pos[i + 1]))
                  IN << q[1] - w[1], q[2] - w[2] >>
      along(v, d) == LET r == << Rel(d)[1] \div 100, Rel(d)[2] \div 100 >>
                         l == (IF r[1] < 0 THEN -r[1] ELSE r[1]) + (IF r[2] < 0 THEN -r[2] ELSE r[2])
                         cr == v[1] * r[2] - v[2] * r[1]
                     IN cr <= 200 * l + 400 /\ -cr <= 200 * l + 400 /\ v[1] * r[1] + v[2] * r[2] >= -(200 * l + 400)
      spot(i) == IF o.dir[i + 1] = <<>> THEN NearD(shift(i), <<0, 0>>)
                 ELSE NearD(shift(i), <<0, 0>>) \/ (along(shift(i), o.dir[i + 1]) /\ shift(i)[1] \in -2200..2200 /\ shift(i)[2] \in -2200..2200)
      arrow(i) == \* the shaft and two heads precede the marker
        LET c == at(i)
        IN /\ c > 3 /\ rs[c - 3].k = "line" /\ NearD(rs[c - 3].p[1], rs[c].p[1])
           /\ along(<< rs[c - 3].p[2][1] - rs[c - 3].p[1][1], rs[c - 3].p[2][2] - rs[c - 3].p[1][2] >>, o.dir[i + 1])
           /\ rs[c - 3].p[2] # rs[c - 3].p[1]
  IN IF lines = {} \/ good = {} THEN {"edges of the cell are not drawn"}
     ELSE IF \E i \in 0..(n - 1) : Cardinality(of(i)) # 1 THEN {"a degree of freedom is not shown exactly once"}
     ELSE (IF Cardinality(circ) = n THEN {} ELSE {"more markers than degrees of freedom"})
          \cup (IF \A i \in 0..(n - 1) : rs[at(i)].fill = EntityColour[o.ent[i + 1] + 1] THEN {} ELSE {"colour of a degree of freedom is not that of its entity"})
          \cup (IF \A i \in 0..(n - 1) : spot(i) THEN {} ELSE {"a degree of freedom is not shown at its position"})
          \cup (IF \A i \in 0..(n - 1) : o.dir[i + 1] = <<>> \/ arrow(i) THEN {} ELSE {"direction of a degree of freedom is not shown"})

AgainFails(o) == IF o.first = o.second THEN {} ELSE {"a drawing depends on what was drawn before"}

Verdict(o) == CASE o.kind = "program" -> ProgramFails(o)
                [] o.kind = "dofs" -> DiagramFails(o)
                [] OTHER -> AgainFails(o)
VARIABLES lane, pos, failed
INSTANCE Runner WITH Judge <- Verdict, Obs <- ObsAll, Lanes <- 8
================================================================================
