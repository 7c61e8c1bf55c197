------------------------------ MODULE IntGeometry ------------------------------
(* Orientation and containment of points with integer coordinates.                                      *)
EXTENDS Integers, Sequences, SequencesExt
SumS(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
ICross(u, v) == << u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1] >>
ISub(u, v) == [i \in 1..Len(u) |-> u[i] - v[i]]
IDot(u, v) == SumS([i \in 1..Len(u) |-> u[i] * v[i]])
Orient2(a, b, q) == (b[1] - a[1]) * (q[2] - a[2]) - (b[2] - a[2]) * (q[1] - a[1])
Orient3(a, b, c, q) == IDot(ICross(ISub(b, a), ISub(c, a)), ISub(q, a))
SameSign(s) == (\A i \in 1..Len(s) : s[i] >= 0) \/ (\A i \in 1..Len(s) : s[i] <= 0)
InCell(w, v, q) ==
  CASE w = "interval" -> (v[1][1] <= q[1] /\ q[1] <= v[2][1]) \/ (v[2][1] <= q[1] /\ q[1] <= v[1][1])
    [] w = "triangle" -> SameSign(<< Orient2(v[1], v[2], q), Orient2(v[2], v[3], q), Orient2(v[3], v[1], q) >>)
    [] w = "quadrilateral" -> SameSign(<< Orient2(v[1], v[2], q), Orient2(v[2], v[4], q), Orient2(v[4], v[3], q), Orient2(v[3], v[1], q) >>)
    [] OTHER -> SameSign(<< Orient3(v[1], v[2], v[3], q), Orient3(v[1], v[4], v[2], q),
                            Orient3(v[2], v[4], v[3], q), Orient3(v[1], v[3], v[4], q) >>)
===============================================================================
