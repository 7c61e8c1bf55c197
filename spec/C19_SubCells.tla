------------------------------ MODULE C19_SubCells ------------------------------
(* kind "macro": one element (or its functions mapped to a cell): p, fam, cell, order, pieces (recorded   *)
(* functions), iv, ip: integer vertices (multiples of 12) of the cell and of the pieces, same[f]: the     *)
(* pieces of function f are those of the first, ws: random weights, piola: mapped by the contravariant map *)
(* kind "dual": el, n, nf, tris[f][t]: what function f does on its t-th piece; see checks/c19.py           *)
EXTENDS SubCells, FanLaw, Json, IOUtils
ObsAll == JsonDeserialize(IOEnv.OBS)
VARIABLES lane, pos, failed

MacroFails(o) ==
  (IF \A f \in 1..Len(o.same) : o.same[f] THEN {} ELSE {"functions of one element on different pieces"})
  \cup TileFails(o.iv, o.ip)
  \cup (IF {SetOf(o.ip[q]) : q \in 1..Len(o.ip)} = SplitOf(o.fam, o.iv) /\ Len(o.ip) = Cardinality(SplitOf(o.fam, o.iv)) THEN {}
        ELSE {"pieces are not those of the family"})
  \cup (IF Smooth(o.fam, CellDim[o.cell], o.order) = <<>> THEN {"observer: unknown macro family"} ELSE RegularFails(o))

(* ------------------------------------------------------------------ dual polygons *)
One20 == 1048576                          \* recorded numbers are multiples of 2^-20
Near(a, b) == a - b \in -8..8
Units2N(nn, u) == (u * One20) \div (2 * nn)
Units4N(nn, u) == (u * One20) \div (4 * nn)

Cross2(a, b) == a[1] * b[2] - a[2] * b[1]
FanFails(o) ==
  LET nn == o.n
      m == 2 * nn
      ori == o.origin
      v(i) == o.verts[(i % m) + 1]
      rel(i) == << v(i)[1] - ori[1], v(i)[2] - ori[2] >>
      up(i) == rel(i)[2] < 0 /\ rel(i + 1)[2] >= 0
  IN IF Len(o.verts) # m THEN {"number of vertices of the dual polygon"}
     ELSE (IF \A i \in 0..(m - 1) : Cross2(rel(i), rel(i + 1)) > 0 THEN {} ELSE {"pieces overlap"})
          \cup (IF Cardinality({i \in 0..(m - 1) : up(i)}) = 1 THEN {} ELSE {"pieces go round the centre more than once"})
          \cup (IF \A i \in {k \in 0..(m - 1) : k % 2 = 1} : \A c \in 1..2 :
                     2 * v(i)[c] - v(i - 1)[c] - v(i + 1)[c] \in -4..4 THEN {} ELSE {"edge vertices are not midpoints"})

(* each function is recorded on the triangles it names by the indices of their vertices (-1: the centre) *)
PiecesFails(o) ==
  LET m == 2 * o.n
      want(t) == <<-1, t, (t + 1) % m>>
  IN IF \A f \in 1..Len(o.fns) : Len(o.fns[f]) = m /\ \A t \in 0..(m - 1) : \E q \in 1..m : o.fns[f][q].vs = want(t)
     THEN {} ELSE {"pieces are not the triangles of the fan"}
On(o, f, t) == LET m == 2 * o.n IN o.fns[f][CHOOSE q \in 1..m : o.fns[f][q].vs = <<-1, t, (t + 1) % m>>]

(* scalar: r = values at the centre, v_t, v_{t+1} and their mean *)
ScalarFails(o) ==
  LET nn == o.n
      m == 2 * nn
      nf == Len(o.fns)
      c0(f, t) == IF o.el = "P0" THEN m ELSE AtO(nn)
      cv(f, i) == IF o.el = "P0" THEN m ELSE AtV(nn, f - 1, i)
      sum(i, k) == FoldLeft(LAMBDA a, f : a + On(o, f, i).r[k], 0, [f \in 1..nf |-> f])
  IN (IF \A f \in 1..nf : \A t \in 0..(m - 1) :
           LET r == On(o, f, t).r IN 3 * r[4] - r[1] - r[2] - r[3] \in -16..16 THEN {} ELSE {"functions are not linear on a piece"})
     \cup (IF \A f \in 1..nf : \A t \in 0..(m - 1) :
           LET a == On(o, f, t).r
               b == On(o, f, (t + 1) % m).r
           IN Near(a[1], b[1]) /\ Near(a[3], b[2]) THEN {} ELSE {"functions jump across an interface"})
     \cup (IF \A t \in 0..(m - 1) : \A k \in 1..4 : sum(t, k) - One20 \in (-8 * nf)..(8 * nf) THEN {} ELSE {"functions do not sum to one"})
     \cup (IF \A f \in 1..nf : \A t \in 0..(m - 1) :
           LET r == On(o, f, t).r
           IN /\ Near(r[1], Units2N(nn, c0(f, t))) /\ Near(r[2], Units2N(nn, cv(f, t)))
              /\ Near(r[3], Units2N(nn, cv(f, (t + 1) % m))) THEN {} ELSE {"values are not those of the dual function"})

(* vector: r[e][k]: flow (or, for the rotated functions, circulation) through the edges e of the triangle *)
(* - 1: centre to v_t, 2: v_t to v_{t+1}, 3: centre to v_{t+1} - with the function taken at its corners    *)
(* k = 1..3 and at its mean k = 4; positive: out through edge 2, onwards through edges 1 and 3             *)
EdgeEnds(e) == CASE e = 1 -> <<1, 2>> [] e = 2 -> <<2, 3>> [] OTHER -> <<1, 3>>
VectorFails(o) ==
  LET nn == o.n
      m == 2 * nn
      nf == Len(o.fns)
      amt(f, t, e) == On(o, f, t).r[e][EdgeEnds(e)[1]]
  IN (IF \A f \in 1..nf : \A t \in 0..(m - 1) : \A e \in 1..3 :
           LET r == On(o, f, t).r[e]
           IN Near(r[EdgeEnds(e)[1]], r[EdgeEnds(e)[2]]) /\ 3 * r[4] - r[1] - r[2] - r[3] \in -16..16
      THEN {} ELSE {"functions are not those of the fine space on a piece"})
     \cup (IF \A f \in 1..nf : \A t \in 0..(m - 1) : Near(amt(f, t, 3), amt(f, (t + 1) % m, 1)) THEN {}
           ELSE {"component across an interface jumps"})
     \cup (IF \A f \in 1..nf : \A t \in 0..(m - 1) :
             /\ Near(amt(f, t, 1), Units4N(nn, InF(nn, f - 1, t)))
             /\ Near(amt(f, t, 2), Units4N(nn, Out(nn, f - 1, t))) THEN {}
           ELSE {"degrees of freedom of the fine space are not those of the definition"})

DualFails(o) ==
  (IF Len(o.fns) = o.nf /\ o.nf = (IF o.el = "P0" THEN 1 ELSE o.n) THEN {} ELSE {"number of functions"})
  \cup FanFails(o)
  \cup (IF o.conf = (CASE o.el \in {"P0", "P1"} -> "C0" [] o.el = "BC" -> "H(div)" [] OTHER -> "H(curl)") THEN {}
        ELSE {"declared continuity"})
  \cup (IF PiecesFails(o) # {} \/ Len(o.fns) # (IF o.el = "P0" THEN 1 ELSE o.n) \/ Len(o.verts) # 2 * o.n THEN PiecesFails(o)
        ELSE (IF o.el \in {"P0", "P1"} THEN ScalarFails(o) ELSE VectorFails(o))
             \cup (IF \A f \in 1..Len(o.at) : \A k \in 1..Len(o.at[f]) : LET a == o.at[f][k] IN
                        \A c \in 1..Len(a.got) : Near(a.got[c], a.want[c]) THEN {} ELSE {"value at a point is not that of its piece"}))

Verdict(o) == IF o.kind = "macro" THEN MacroFails(o) ELSE DualFails(o)

INSTANCE Runner WITH Judge <- Verdict, Obs <- ObsAll, Lanes <- 8
================================================================================
