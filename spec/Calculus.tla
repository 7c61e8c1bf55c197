------------------------------- MODULE Calculus -------------------------------
(* Derivatives, norms and integrals of plain functions: when they are defined, and their values.        *)
EXTENDS Cells, FunctionAlgebra
Regular(f, tab) == \A i \in 1..Len(f.c) : f.c[i][2] = <<>> \/ DenT(f.c[i], tab[1], tab[2]) # 0
Sc(o) == o.a.sh = <<>>
Ve(o) == Len(o.a.sh) = 1
(* operations that are defined for the shape of the operand *)
Defined(o) ==
  CASE o.op = "diff" -> TRUE
    [] o.op \in {"ddir", "jaccomp", "jacobian", "grad"} -> Sc(o)
    [] o.op = "divg" -> Ve(o)
    [] o.op = "curl" -> o.a.sh = <<3>>
    [] o.op = "norm" -> Sc(o) \/ Ve(o)
    [] o.op = "detnorm" -> TRUE
    [] o.op \in {"integral", "integrate"} -> Sc(o)
    [] OTHER -> FALSE
(* answers that would have no meaning *)
Meaningless(o) ==
  CASE o.op \in {"divg", "curl"} -> Sc(o) \/ (o.op = "curl" /\ Ve(o) /\ o.a.sh # <<3>>)
    [] o.op = "integrate" -> FALSE
    [] OTHER -> FALSE
ResultShape(o) ==
  CASE o.op \in {"diff", "ddir"} -> o.a.sh
    [] o.op \in {"jaccomp", "divg", "integral", "integrate", "norm", "detnorm"} -> <<>>
    [] o.op = "jacobian" -> << o.dim, o.dim >>
    [] o.op = "grad" -> << o.dim >>
    [] OTHER -> <<3>>

DirAt(o, tab, d) == LET dx == TLCEval([k \in 1..3 |-> EvDF(o.a, k, tab, o.p)])
                    IN TLCEval([i \in 1..Len(o.a.c) |-> FSum(TLCEval([k \in 1..3 |-> (d[k] * dx[k][i]) % o.p]), o.p)])
(* second derivatives of polynomials; quotients are differentiated by expanding the quotient rule *)
PMul(s, t, p) == Flat(TLCEval([i \in 1..Len(s) |-> TLCEval([j \in 1..Len(t) |->
                   << (s[i][1] * t[j][1]) % p, s[i][2] + t[j][2], s[i][3] + t[j][3], s[i][4] + t[j][4] >>])]))
PNeg(s, p) == TLCEval([i \in 1..Len(s) |-> << (0 - s[i][1]) % p, s[i][2], s[i][3], s[i][4] >>])
DComp(c, k, p) ==
  IF c[2] = <<>> THEN << DPoly(c[1], k, p), <<>> >>
  ELSE << PMul(DPoly(c[1], k, p), c[2], p) \o PNeg(PMul(c[1], DPoly(c[2], k, p), p), p), PMul(c[2], c[2], p) >>
Second(o, i, j, tab) == EvDC(DComp(o.a.c[1], i, o.p), j, tab, o.p)

CellRule(o, n) == RefRule(o.cell, n, o.p)
IntegralOf(o) ==
  LET ax == Axes(o.cell, o.verts, o.p)
      r == TLCEval(CellRule(o, FDegree(o.a)))
  IN FMul(o.jac, FSum(TLCEval([q \in 1..Len(r) |->
        FMul(EvFat(o.a, At(o.verts[1], ax, r[q][1], o.p), o.p)[1], r[q][2], o.p)]), o.p), o.p)
(* iterated integral at a point: the first limit is the innermost *)
RECURSIVE Iterated(_, _, _)
Iterated(o, k, pt) ==
  IF k = 0 THEN EvFat(o.a, pt, o.p)[1]
  ELSE LET l == o.lims[k]
           tab == PTab(pt, 2, o.p)
           lo == EvC(l[2], tab, o.p)
           hi == EvC(l[3], tab, o.p)
           r == TLCEval(NCRule(2 * FDegree(o.a) + 2, o.p))
           w == (hi - lo) % o.p
       IN FMul(w, FSum(TLCEval([q \in 1..Len(r) |->
             FMul(r[q][2], Iterated(o, k - 1, [pt EXCEPT ![l[1]] = (lo + w * r[q][1]) % o.p]), o.p)]), o.p), o.p)

ValueAt(o, pt, tab) ==
  LET p == o.p
  IN CASE o.op \in {"diff", "ddir"} -> DirAt(o, tab, o.dir)
    [] o.op = "jaccomp" -> << Second(o, o.ij[1], o.ij[2], tab) >>
    [] o.op = "jacobian" -> TLCEval([k \in 1..(o.dim * o.dim) |->
                              Second(o, ((k - 1) \div o.dim) + 1, ((k - 1) % o.dim) + 1, tab)])
    [] o.op = "grad" -> TLCEval([k \in 1..o.dim |-> EvDC(o.a.c[1], k, tab, p)])
    [] o.op = "divg" -> << FSum(TLCEval([k \in 1..Len(o.a.c) |-> EvDC(o.a.c[k], k, tab, p)]), p) >>
    [] o.op = "curl" -> LET d(i, k) == EvDC(o.a.c[i], k, tab, p)
                        IN << FSub(d(3, 2), d(2, 3), p), FSub(d(1, 3), d(3, 1), p), FSub(d(2, 1), d(1, 2), p) >>
    [] o.op = "integral" -> << IntegralOf(o) >>
    [] OTHER -> << Iterated(o, Len(o.lims), pt) >>
===============================================================================
