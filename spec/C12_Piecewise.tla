----------------------------- MODULE C12_Piecewise -----------------------------
(* One observation per operation of a program of the function machine in which piecewise functions      *)
(* take part.  Functions are sequences of pieces [cell, iv, v, jac, f] (iv: integer coordinates over the  *)
(* common denominator den; a plain function is one piece with cell = ""); p, op, arg, ka, kb, a, b, t,     *)
(* r, changed as for plain functions; qs: sample points (integer coordinates, residues); gen: a random point; sub, full, spt:     *)
(* a substitution, whether it fixes the point, and that point; F: an affine map; dom: domain of an integral.  *)
EXTENDS Calculus, IntGeometry, Json, IOUtils
ObsAll == JsonDeserialize(IOEnv.OBS)

Plain(f) == f[1].cell = ""
Holds(pc, q) == pc.cell = "" \/ InCell(pc.cell, pc.iv, q)
(* numbers of the pieces that contain a point *)
At0(f, q) == {i \in 1..Len(f) : Holds(f[i], q)}
Sh(f) == f[1].f.sh
One(S) == CHOOSE i \in S : TRUE
Obs1(o, f) == [o EXCEPT !.a = f]
Reg1(f, tab, p) == \A i \in 1..Len(f.c) : DenT(f.c[i], tab, p) # 0

CalcOps == {"diff", "ddir", "jaccomp", "jacobian", "grad", "divg", "curl", "norm"}
PlainDefined(o) == IF o.op \in CalcOps \cup {"integral"} THEN Defined(Obs1(o, o.a[1].f))
                   ELSE Shape(o.op, o.arg, Sh(o.a), Sh(o.b)) # NoShape
Expected(o) == IF o.op \in CalcOps THEN ResultShape(Obs1(o, o.a[1].f))
               ELSE Shape(o.op, o.arg, Sh(o.a), Sh(o.b))
(* value of the operation at a point from the functions fa and fb that are valid there *)
SubTab(o, pt) ==
  LET tab == PTab(pt, MaxPow, o.p)
  IN PTab(TLCEval([i \in 1..3 |-> IF \E k \in 1..Len(o.sub[1]) : o.sub[1][k] = i
                                  THEN EvC(o.sub[2][CHOOSE k \in 1..Len(o.sub[1]) : o.sub[1][k] = i], tab, o.p) ELSE pt[i]]), MaxPow, o.p)
RightAt(o, fa, fb, fr, pt) ==
  LET tab == TLCEval(PTab(pt, MaxPow, o.p))
      ta == TLCEval(IF o.op = "subs" THEN SubTab(o, pt) ELSE tab)
      p == o.p
      va == TLCEval(EvF(fa, ta, p))
  IN IF ~Reg1(fa, ta, p) \/ ~Reg1(fb, tab, p) \/ ~Reg1(fr, tab, p) THEN TRUE
     ELSE IF o.op = "norm" THEN EvF(fr, tab, p) = << FDot(va, va, p) >>
     ELSE IF o.op \in CalcOps THEN EvF(fr, tab, p) = ValueAt(Obs1(o, fa), pt, tab)
     ELSE IF o.op \in {"piece", "mapped"} THEN EvF(fr, tab, p) = va
     ELSE IF o.op = "div" /\ EvF(fb, tab, p)[1] = 0 THEN TRUE
     ELSE IF o.op = "pow" /\ o.arg[1] < 0 /\ \E i \in 1..Len(va) : va[i] = 0 THEN TRUE
     ELSE EvF(fr, tab, p) = Value(o.op, o.arg, fa.sh, fb.sh, va, EvF(fb, tab, p), p)
Binop(o) == o.op \in Binary
(* a power whose exponent is a number on every piece *)
AtPiece(o, i) == IF o.op = "powp" THEN [o EXCEPT !.op = "pow", !.arg = << o.arg[((i - 1) % 6) + 1] >>] ELSE o
(* an answer at a sample point: exactly one piece of each operand contains it *)
PointFails(o, q) ==
  LET A == At0(o.a, q[1])
      B == IF Binop(o) THEN At0(o.b, q[1]) ELSE {1}
      R == At0(o.r, q[1])
  IN IF Cardinality(A) # 1 \/ Cardinality(B) # 1 THEN {}
     ELSE IF R = {} THEN {"the result has no value where the operands have one"}
     ELSE IF \E i \in R : ~RightAt(AtPiece(o, One(A)), o.a[One(A)].f, o.b[One(B)].f, o.r[i].f, q[2]) THEN {"the result has the wrong value"} ELSE {}

(* substitution of a point; the piece that is valid at a point *)
AtPoint(o, ipt, pt) ==
  LET A == At0(o.a, ipt)
  IN IF A = {} THEN {"there is an answer outside the pieces"}
     ELSE IF ~Plain(o.r) THEN {"the value at a point is piecewise"}
     ELSE IF \A i \in A : ~RightAt(o, o.a[i].f, o.a[i].f, o.r[1].f, pt) THEN {"the value is not that of a piece containing the point"}
     ELSE {}
(* mapping moves the pieces and keeps their functions *)
MapPt(o, v) == [i \in 1..o.tdim |-> o.den * o.F[2][i] + SumS([j \in 1..o.tdim |-> o.F[1][i][j] * v[j]])]
MapFails(o) ==
  IF Len(o.r) # Len(o.a) THEN {"mapping changes the number of pieces"}
  ELSE IF \E i \in 1..Len(o.a) : \A j \in 1..Len(o.r) :
       \/ [k \in 1..Len(o.a[i].iv) |-> MapPt(o, o.a[i].iv[k])] # o.r[j].iv
       \/ ~RightAt(o, o.a[i].f, o.a[i].f, o.r[j].f, o.gen)
       THEN {"mapping moves a piece wrongly"} ELSE {}

(* integrals: what a piece contributes to the integral over the domain d *)
Hull(c) == IF c = "quadrilateral" THEN << <<1, 2>>, <<2, 4>>, <<4, 3>>, <<3, 1>> >> ELSE << <<1, 2>>, <<2, 3>>, <<3, 1>> >>
NegPos(s, t) == (\A i \in 1..Len(s) : s[i] <= 0) /\ (\A i \in 1..Len(t) : t[i] >= 0)
Split(s, t) == NegPos(s, t) \/ NegPos(t, s)
Faces3 == << <<1, 2, 3>>, <<1, 2, 4>>, <<1, 3, 4>>, <<2, 3, 4>> >>
Apart(td, c, v, d, w) ==     \* a facet of the first one separates them
  CASE td = 1 -> \E b \in {v[1][1], v[2][1]} : Split([i \in 1..2 |-> v[i][1] - b], [i \in 1..Len(w) |-> w[i][1] - b])
    [] td = 2 -> \E e \in 1..Len(Hull(c)) :
                   LET f(q) == Orient2(v[Hull(c)[e][1]], v[Hull(c)[e][2]], q)
                   IN Split([i \in 1..Len(v) |-> f(v[i])], [i \in 1..Len(w) |-> f(w[i])])
    [] OTHER -> \E e \in 1..4 :
                   LET f(q) == Orient3(v[Faces3[e][1]], v[Faces3[e][2]], v[Faces3[e][3]], q)
                   IN Split([i \in 1..Len(v) |-> f(v[i])], [i \in 1..Len(w) |-> f(w[i])])
Inside(c, v, w) == \A i \in 1..Len(w) : InCell(c, v, w[i])
Part(o, i) ==
  LET d == o.dom[1]
      pc == o.a[i]
      full == CellDim[d.cell] = o.tdim
  IN IF Inside(pc.cell, pc.iv, d.iv) THEN "domain"
     ELSE IF full /\ Inside(d.cell, d.iv, pc.iv) THEN "piece"
     ELSE IF full /\ (Apart(o.tdim, pc.cell, pc.iv, d.cell, d.iv) \/ Apart(o.tdim, d.cell, d.iv, pc.cell, pc.iv)) THEN "nothing"
     ELSE IF ~full /\ Cardinality({k \in 1..Len(d.iv) : InCell(pc.cell, pc.iv, d.iv[k])}) < Len(d.iv)
             /\ \E j \in 1..Len(o.a) : Inside(o.a[j].cell, o.a[j].iv, d.iv) THEN "nothing"     \* another piece has the facet
     ELSE "unknown"
Contribution(o, i) ==
  LET k == Part(o, i)
      d == o.dom[1]
      g(c, v, j) == IntegralOf([p |-> o.p, cell |-> c, verts |-> v, jac |-> j, a |-> o.a[i].f])
  IN CASE k = "domain" -> g(d.cell, d.v, d.jac)
       [] k = "piece" -> g(o.a[i].cell, o.a[i].v, o.a[i].jac)
       [] OTHER -> 0
Known(o) == \A i \in 1..Len(o.a) : Part(o, i) # "unknown"
(* a domain made of whole pieces, or inside one, has to be answered; an overlap of other kind may be refused *)
IntegralFails(o) ==
  IF ~PlainDefined(o) \/ ~Known(o) THEN {}
  ELSE IF o.t = "refused" THEN IF o.dom[1].cell \in {"triangle", "tetrahedron"} /\ o.tdim = CellDim[o.dom[1].cell]
                                  /\ (\A i \in 1..Len(o.a) : o.a[i].cell = o.dom[1].cell) /\ (\A i \in 1..Len(o.a) : Part(o, i) \in {"piece", "domain"})
                               THEN {"the integral over all pieces is refused"} ELSE {}
  ELSE IF ~Plain(o.r) THEN {"an integral is piecewise"}
  ELSE LET s == FSum(TLCEval([i \in 1..Len(o.a) |-> Contribution(o, i)]), o.p)
       IN IF EvF(o.r[1].f, PTab(o.gen, MaxPow, o.p), o.p) = << s >> THEN {} ELSE {"the integral is not the sum over the pieces"}

SamePieces(o) == Plain(o.a) \/ Plain(o.b) \/ (Len(o.a) = Len(o.b) /\ \A i \in 1..Len(o.a) : o.a[i].iv = o.b[i].iv)
Must(o) == (IF o.op \in CalcOps THEN TRUE ELSE MustAnswer(o.op, o.ka, o.kb)) /\ (Binop(o) => SamePieces(o))
EqualAt(o, q) ==
  LET A == At0(o.a, q[1])
      B == At0(o.b, q[1])
      tab == PTab(q[2], MaxPow, o.p)
  IN Cardinality(A) # 1 \/ Cardinality(B) # 1 \/ EvF(o.a[One(A)].f, tab, o.p) = EvF(o.b[One(B)].f, tab, o.p)
EqFails(o) ==
  IF o.t = "refused" THEN {}
  ELSE LET same == \A k \in 1..Len(o.qs) : EqualAt(o, o.qs[k])
           everywhere == \A i \in 1..Len(o.a) : EvF(o.a[i].f, PTab(o.gen, MaxPow, o.p), o.p) = EvF(o.b[i].f, PTab(o.gen, MaxPow, o.p), o.p)
       IN (IF o.v[1] = 1 - o.v[2] THEN {} ELSE {"== and != disagree"})
          \cup (IF o.v[1] = 1 /\ (Sh(o.a) # Sh(o.b) \/ ~same) THEN {"functions that differ are said to be equal"} ELSE {})
          \cup (IF o.v[1] = 1 /\ ~Plain(o.a) /\ ~Plain(o.b) /\ Len(o.a) # Len(o.b) THEN {"functions on different domains are said to be equal"} ELSE {})
          \cup (IF o.v[1] = 0 /\ ~Plain(o.a) /\ ~Plain(o.b) /\ SamePieces(o) /\ Sh(o.a) = Sh(o.b) /\ everywhere
                THEN {"equal functions are said to differ"} ELSE {})

Verdict(o) ==
  (IF o.changed # <<>> THEN {"an operation changed an existing function"} ELSE {}) \cup
  (IF o.t = "nested" THEN {"the pieces of the result are piecewise"}
   ELSE IF o.op = "integral" THEN IntegralFails(o)
   ELSE IF o.op = "eq" THEN EqFails(o)
   ELSE IF o.op = "piece" THEN IF o.t = "refused" THEN IF At0(o.a, o.qs[1][1]) = {} THEN {} ELSE {"a point of a piece is refused"}
                               ELSE AtPoint(o, o.qs[1][1], o.qs[1][2])
   ELSE IF o.op = "subs" /\ o.full = 1 /\ ~Plain(o.a)
        THEN IF o.t = "refused" THEN IF At0(o.a, o.spt) = {} THEN {} ELSE {"a point of a piece is refused"}
             ELSE IF o.t # "value" THEN {} ELSE AtPoint(o, o.spt, o.qs[1][2])
   ELSE IF o.t = "refused" THEN IF PlainDefined(o) /\ Must(o) THEN {"a valid combination is refused"} ELSE {}
   ELSE IF o.op = "mapped" THEN MapFails(o)
   ELSE IF o.op = "shape" THEN IF Sh(o.a) = <<>> \/ o.v = Sh(o.a) THEN {} ELSE {"wrong shape is reported"}
   ELSE IF o.op = "len" THEN IF Len(Sh(o.a)) # 1 \/ o.v = Sh(o.a) THEN {} ELSE {"wrong length"}
   ELSE IF o.t = "singular" THEN IF o.op \in {"div", "pow", "subs"} THEN {} ELSE {"the result has no value"}
   ELSE IF ~PlainDefined(o) THEN IF o.op \in CalcOps \/ ~MustRefuse(o.op, o.arg, Sh(o.a), Sh(o.b)) THEN {}
                                 ELSE {"an incompatible combination is answered"}
   ELSE IF \E i \in 1..Len(o.r) : o.r[i].f.sh # Expected(o) THEN {"the result has the wrong shape"}
   ELSE UNION {PointFails(o, o.qs[k]) : k \in 1..Len(o.qs)})

VARIABLES lane, pos, failed
INSTANCE Runner WITH Judge <- Verdict, Obs <- ObsAll, Lanes <- 16
===============================================================================
