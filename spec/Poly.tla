--------------------------------- MODULE Poly ---------------------------------
(* Polynomials, rational functions and (piecewise) tensor-valued functions over GF(p).                *)
(* A polynomial is a sequence of terms <<c, i, j, k>> standing for c x^i y^j z^k.                      *)
(* A scalar component is <<numerator, denominator>>; an empty denominator stands for 1.                *)
(* A plain function is [sh |-> shape, c |-> components (row major)].                                   *)
(* A function is a sequence of pieces [v |-> vertices, f |-> plain function]; v = <<>>: everywhere.    *)
EXTENDS GF, FiniteSets

MaxS(S) == CHOOSE m \in S : \A n \in S : n <= m

(* table of powers 0..n of a *)
Powers(a, n, p) == FoldLeft(LAMBDA t, i : Append(t, (t[i] * a) % p), <<1>>, [i \in 1..n |-> i])
Deg3(t) == FoldLeft(LAMBDA m, x : << IF x[2] > m[1] THEN x[2] ELSE m[1],
                                     IF x[3] > m[2] THEN x[3] ELSE m[2],
                                     IF x[4] > m[3] THEN x[4] ELSE m[3] >>, <<0, 0, 0>>, t)
MaxPow == 24
(* power tables of a point (missing coordinates count as 0) *)
PTab(pt, n, p) == TLCEval([i \in 1..3 |-> TLCEval(Powers(IF i <= Len(pt) THEN pt[i] ELSE 0, n, p))])

EvT(t, tab, p) == FoldLeft(LAMBDA a, x :
                    (a + (((x[1] * tab[1][x[2] + 1]) % p) * ((tab[2][x[3] + 1] * tab[3][x[4] + 1]) % p))) % p, 0, t)
DenT(c, tab, p) == IF c[2] = <<>> THEN 1 ELSE EvT(c[2], tab, p)
EvC(c, tab, p) == LET n == EvT(c[1], tab, p)
                  IN IF c[2] = <<>> THEN n ELSE FDiv(n, EvT(c[2], tab, p), p)
(* coefficients in s of a polynomial on the line pt + s dir, and the limit of a quotient for s -> 0:   *)
(* the value of the continuous extension at a removable singularity                                   *)
UMul(u, v, p) == TLCEval([k \in 1..(Len(u) + Len(v) - 1) |->
   FSum(TLCEval([i \in 1..Len(u) |-> IF k - i + 1 \in 1..Len(v) THEN (u[i] * v[k - i + 1]) % p ELSE 0]), p)])
RECURSIVE UPow(_, _, _)
UPow(u, n, p) == IF n = 0 THEN <<1>> ELSE UMul(u, UPow(u, n - 1, p), p)
UAdd(u, v, p) == TLCEval([k \in 1..(IF Len(u) > Len(v) THEN Len(u) ELSE Len(v)) |->
   ((IF k <= Len(u) THEN u[k] ELSE 0) + (IF k <= Len(v) THEN v[k] ELSE 0)) % p])
OnLine(t, pt, dir, p) ==
  LET lin(i) == IF i <= Len(pt) THEN << pt[i], dir[i] >> ELSE <<0>>
  IN FoldLeft(LAMBDA a, x : UAdd(a, UMul(<<x[1]>>, UMul(UPow(lin(1), x[2], p),
                  UMul(UPow(lin(2), x[3], p), UPow(lin(3), x[4], p), p), p), p), p), <<0>>, t)
LineLimit(c, pt, dir, p) ==
  LET n == OnLine(c[1], pt, dir, p)
      d == OnLine(c[2], pt, dir, p)
      k == CHOOSE i \in 1..Len(d) : d[i] # 0 /\ \A j \in 1..(i - 1) : d[j] = 0
  IN IF \A i \in 1..Len(d) : d[i] = 0 THEN -1
     ELSE IF \E i \in 1..(k - 1) : i <= Len(n) /\ n[i] # 0 THEN -1      \* a pole
     ELSE FDiv(IF k <= Len(n) THEN n[k] ELSE 0, d[k], p)
GenericDir == << 7, 12, -23 >>
EvLimit(c, pt, p) ==
  LET tab == PTab(pt, MaxPow, p)
  IN IF DenT(c, tab, p) # 0 THEN EvC(c, tab, p)
     ELSE LineLimit(c, pt, TLCEval([i \in 1..Len(pt) |-> GenericDir[i] % p]), p)
(* values of all components of a plain function at a point *)
EvF(f, tab, p) == TLCEval([i \in 1..Len(f.c) |-> EvC(f.c[i], tab, p)])
EvFat(f, pt, p) == EvF(f, PTab(pt, MaxPow, p), p)
RegularAt(f, tab, p) == \A i \in 1..Len(f.c) : DenT(f.c[i], tab, p) # 0

(* term-wise derivative of a polynomial in direction d (1, 2, 3) *)
DTerm(x, d, p) == CASE d = 1 -> << (x[1] * x[2]) % p, x[2] - 1, x[3], x[4] >>
                    [] d = 2 -> << (x[1] * x[3]) % p, x[2], x[3] - 1, x[4] >>
                    [] OTHER -> << (x[1] * x[4]) % p, x[2], x[3], x[4] - 1 >>
DPoly(t, d, p) == LET s == SelectSeq(t, LAMBDA x : x[d + 1] > 0)
                  IN TLCEval([i \in 1..Len(s) |-> DTerm(s[i], d, p)])
(* derivative of a component: quotient rule evaluated at a point *)
EvDC(c, d, tab, p) ==
  IF c[2] = <<>> THEN EvT(DPoly(c[1], d, p), tab, p)
  ELSE LET n == EvT(c[1], tab, p)
           m == EvT(c[2], tab, p)
           dn == EvT(DPoly(c[1], d, p), tab, p)
           dm == EvT(DPoly(c[2], d, p), tab, p)
       IN FDiv(M2(dn, dm, n, m, p), (m * m) % p, p)
EvDF(f, d, tab, p) == TLCEval([i \in 1..Len(f.c) |-> EvDC(f.c[i], d, tab, p)])

PolyDeg(t) == FoldLeft(LAMBDA m, x : IF x[2] + x[3] + x[4] > m THEN x[2] + x[3] + x[4] ELSE m, 0, t)
IsPoly(f) == \A i \in 1..Len(f.c) : f.c[i][2] = <<>>
FDegree(f) == FoldLeft(LAMBDA m, c : IF PolyDeg(c[1]) > m THEN PolyDeg(c[1]) ELSE m, 0, f.c)

(* ------------------------------------------------------------------------------------------------ *)
(* Exact integration over GF(p) by closed Newton-Cotes rules with n + 1 equispaced nodes on [0, 1]:  *)
(* exact for degree n.  Node a/n, weight Int_0^1 prod_{b # a} (n x - b)/(a - b) dx.                  *)
MulLin(u, a, b, p) == \* u(x) * (a x + b), coefficients from degree 0
  TLCEval([k \in 1..(Len(u) + 1) |->
     ((IF k <= Len(u) THEN (b * u[k]) % p ELSE 0) + (IF k > 1 THEN (a * u[k - 1]) % p ELSE 0)) % p])
NCWeight(a, n, p) ==
  LET f == FoldLeft(LAMBDA u, b : IF b = a THEN u
                                   ELSE LET i == FInv((a - b) % p, p)
                                        IN MulLin(u, (n * i) % p, ((0 - b) * i) % p, p),
                    <<1>>, [b \in 1..(n + 1) |-> b - 1])
  IN FSum(TLCEval([k \in 1..Len(f) |-> (f[k] * FInv(k, p)) % p]), p)
NCRule(n0, p) == LET n == IF n0 = 0 THEN 1 ELSE n0
                     i == FInv(n, p)
                 IN TLCEval([a \in 1..(n + 1) |-> << ((a - 1) * i) % p, NCWeight(a - 1, n, p) >>])

(* Rules on reference cells, sequences of <<point, weight>> exact for total degree n on simplices    *)
(* (collapsed coordinates) and for degree n in each variable on boxes.                               *)
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Box2(r, s, p) == Flat(TLCEval([i \in 1..Len(r) |-> TLCEval([j \in 1..Len(s) |->
                   << Append(r[i][1], s[j][1]), (r[i][2] * s[j][2]) % p >>])]))
PtRule(r) == TLCEval([i \in 1..Len(r) |-> << <<r[i][1]>>, r[i][2] >>])
LineRule(n, p) == PtRule(NCRule(n, p))
QuadRule(n, p) == LET r == NCRule(n, p) IN Box2(PtRule(r), r, p)
HexRule(n, p) == LET r == NCRule(n, p) IN Box2(Box2(PtRule(r), r, p), r, p)
TriRule(n, p) ==
  LET q == Box2(LineRule(n + 1, p), NCRule(n, p), p)
  IN TLCEval([k \in 1..Len(q) |-> LET u == q[k][1][1]
                                      w == (1 - u) % p
                                  IN << <<u, (w * q[k][1][2]) % p>>, (w * q[k][2]) % p >>])
TetRule(n, p) ==
  LET q == Box2(Box2(LineRule(n + 2, p), NCRule(n + 1, p), p), NCRule(n, p), p)
  IN TLCEval([k \in 1..Len(q) |->
       LET u == q[k][1][1]
           v == q[k][1][2]
           t == q[k][1][3]
           w == (1 - u) % p
           s == (1 - v) % p
       IN << <<u, (w * v) % p, (((w * s) % p) * t) % p>>, (((w * w) % p) * ((s * q[k][2]) % p)) % p >>])
PriRule(n, p) == Box2(TriRule(n, p), NCRule(n, p), p)
PyrRule(n, p) == \* square base collapsing to the apex (0, 0, 1)
  LET q == Box2(Box2(LineRule(n + 2, p), NCRule(n, p), p), NCRule(n, p), p)
  IN TLCEval([k \in 1..Len(q) |->
       LET z == q[k][1][1]
           w == (1 - z) % p
       IN << <<(w * q[k][1][2]) % p, (w * q[k][1][3]) % p, z>>, (((w * w) % p) * q[k][2]) % p >>])
RefRule(cell, n, p) ==
  CASE cell = "point" -> << << <<>>, 1 >> >>
    [] cell = "interval" -> LineRule(n, p)
    [] cell = "triangle" -> TriRule(n, p)
    [] cell = "tetrahedron" -> TetRule(n, p)
    [] cell = "quadrilateral" -> QuadRule(n, p)
    [] cell = "hexahedron" -> HexRule(n, p)
    [] cell = "prism" -> PriRule(n, p)
    [] OTHER -> PyrRule(n, p)
===============================================================================
