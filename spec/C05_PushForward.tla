----------------------------- MODULE C05_PushForward -----------------------------
(* Push-forwards of functions by affine maps of cells.                                                *)
(* Common fields: p, cell, verts (of the target cell), pj (absolute Jacobian determinant; for cells      *)
(* embedded in a higher dimension the square root of the Gram determinant).                              *)
(* kind "map": a named map (name, op = forward, inverse or it (inverse transpose), sub) took f (sh, c)   *)
(*   to r; ts: local points.                                                                            *)
(* kind "pair": r = the inverse of the named map applied to the named map applied to f.                  *)
(* kind "elem": a (basis functions), b (the same functions mapped to the cell) in coefficient form with  *)
(*   cs (random weights), maps (declared map of every function; "same": already on the cell), pts (per   *)
(*   piece of a, coordinates with respect to its vertices).                                              *)
EXTENDS Cells, Json, IOUtils
ObsAll == JsonDeserialize(IOEnv.OBS)

Ax(o) == Axes(o.cell, o.verts, o.p)
RealAt(o, t) == At(o.verts[1], Ax(o), t, o.p)

(* J, J^T, J^-T = J (J^T J)^-1 and J^-1 = (J^T J)^-1 J^T as matrices, J^T being the sequence of axes     *)
JT(o) == Ax(o)
JJ(o) == Transp(Ax(o))
GramInv(o) == MatInv(Gram(Ax(o), o.p), o.p)
JInvT(o) == TLCEval(MatMul(JJ(o), GramInv(o), o.p))
JInv(o) == TLCEval(MatMul(GramInv(o), JT(o), o.p))
Square(o) == Len(o.verts[1]) = CellDim[o.cell]
SDet(o) == IF Square(o) THEN Det(Ax(o), o.p) ELSE o.pj     \* signed determinant
MeasureOk(o) == FMul(o.pj, o.pj, o.p) = Det(Gram(Ax(o), o.p), o.p)

(* A v, and A V A^T for V row major *)
Both(a, v, p) ==
  LET n == Len(a[1])
      g == Len(a)
      w == TLCEval([k \in 1..(g * n) |-> LET i == ((k - 1) \div n) + 1
                                             j == ((k - 1) % n) + 1
                                         IN FSum(TLCEval([l \in 1..n |-> (a[i][l] * v[(l - 1) * n + j]) % p]), p)])
  IN TLCEval([k \in 1..(g * g) |-> LET i == ((k - 1) \div g) + 1
                                       j == ((k - 1) % g) + 1
                                   IN FSum(TLCEval([l \in 1..n |-> (w[(i - 1) * n + l] * a[j][l]) % p]), p)])
Op(o, name, op, v) ==
  LET p == o.p
      d == SDet(o)
      id == FInv(d, p)
      id2 == FMul(id, id, p)
  IN CASE name = "identity" \/ name = "same" -> v
       [] name = "l2" -> VScale(IF op = "forward" THEN FInv(o.pj, p) ELSE o.pj, v, p)
       [] name = "covariant" -> IF op = "forward" THEN MatVec(JInvT(o), v, p)
                                ELSE IF op = "inverse" THEN MatVec(JT(o), v, p) ELSE MatVec(JJ(o), v, p)
       [] name = "contravariant" -> IF op = "forward" THEN VScale(id, MatVec(JJ(o), v, p), p)
                                    ELSE VScale(d, MatVec(IF op = "inverse" THEN JInv(o) ELSE JInvT(o), v, p), p)
       [] name = "double_covariant" -> IF op = "forward" THEN Both(JInvT(o), v, p) ELSE Both(JT(o), v, p)
       [] OTHER -> IF op = "forward" THEN VScale(id2, Both(JJ(o), v, p), p)
                   ELSE VScale(FMul(d, d, p), Both(JInv(o), v, p), p)
SameV(u, v) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : u[i] = v[i]

MapVerdict(o) ==
  LET src(t) == IF o.op = "inverse" THEN RealAt(o, t) ELSE t
      dst(t) == IF ~ o.sub THEN src(t) ELSE IF o.op = "inverse" THEN t ELSE RealAt(o, t)
  IN IF \A i \in 1..Len(o.ts) :
          SameV(EvFat(o.r, dst(o.ts[i]), o.p), Op(o, o.name, o.op, EvFat(o.f, src(o.ts[i]), o.p)))
     THEN {} ELSE {"defining identity of the map"}
PairVerdict(o) ==
  IF \A i \in 1..Len(o.ts) : SameV(EvFat(o.r, o.ts[i], o.p), EvFat(o.f, o.ts[i], o.p))
  THEN {} ELSE {"the inverse map undoes the map"}

(* value at pt of the combination with weights cs of the functions in piece pc *)
CombAt(pc, cs, pt, p) ==
  LET tab == PTab(pt, MaxPow, p)
      di == IF pc.den = <<>> THEN 1 ELSE FInv(EvT(pc.den, tab, p), p)
      mon(m) == TLCEval([i \in 1..Len(m) |-> (((tab[1][m[i][1] + 1] * tab[2][m[i][2] + 1]) % p) * tab[3][m[i][3] + 1]) % p])
  IN TLCEval([c \in 1..Len(pc.m) |->
       LET mv == mon(pc.m[c])
       IN FMul(di, FSum(TLCEval([j \in 1..Len(pc.c) |-> IF cs[j] = 0 THEN 0 ELSE (cs[j] * FDot(pc.c[j][c], mv, p)) % p]), p), p)])
ElemVerdict(o) ==
  LET p == o.p
      names == SetOf(o.maps)
      w(name) == TLCEval([j \in 1..Len(o.cs) |-> IF o.maps[j] = name THEN o.cs[j] ELSE 0])
      img(q) == IF "same" \in names THEN o.a.pieces[q].v
                ELSE TLCEval([i \in 1..Len(o.a.pieces[q].v) |-> RealAt(o, o.a.pieces[q].v[i])])
      match(q) == {r \in 1..Len(o.b.pieces) : SetOf(o.b.pieces[r].v) = SetOf(img(q))}
      locpt(q) == o.pts[q]
      src(q) == locpt(q)
      dst(q) == IF "same" \in names THEN src(q) ELSE RealAt(o, src(q))
  IN IF Len(o.maps) # o.n \/ \E q \in 1..Len(o.b.pieces) : Len(o.b.pieces[q].c) # o.n THEN {"number of mapped functions"}
     ELSE IF Len(o.b.pieces) # Len(o.a.pieces) \/ \E q \in 1..Len(o.a.pieces) : Cardinality(match(q)) # 1
     THEN {"pieces of the mapped functions"}
     ELSE UNION {IF \A q \in 1..Len(o.a.pieces) :
                       LET r == CHOOSE r \in match(q) : TRUE
                       IN SameV(CombAt(o.b.pieces[r], w(nm), dst(q), p), Op(o, nm, "forward", CombAt(o.a.pieces[q], w(nm), src(q), p)))
                 THEN {} ELSE {"functions declared to be mapped by " \o nm} : nm \in names}

Verdict(o) ==
  IF ~MeasureOk(o) THEN {"observer: measure"}
  ELSE CASE o.kind = "map" -> MapVerdict(o)
         [] o.kind = "pair" -> PairVerdict(o)
         [] OTHER -> ElemVerdict(o)

VARIABLES lane, pos, failed
INSTANCE Runner WITH Judge <- Verdict, Obs <- ObsAll, Lanes <- 8
===============================================================================
