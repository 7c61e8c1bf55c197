------------------------------ MODULE Functionals ------------------------------
(* The mathematical definition of every kind of degree-of-freedom functional.                         *)
(* A context o describes the cell: p, cell, verts, jac[dim][n] (measure factor of every sub-entity),  *)
(* djac (the same for the default cell), sgn (sign of the determinant of the map from the default     *)
(* cell).  A functional d is its class name d.k, its entity d.e = <<dim, number>> and its constructor *)
(* arguments.  A function phi is a sequence of pieces (module Poly).                                  *)
EXTENDS Cells

CellAx(o) == Axes(o.cell, o.verts, o.p)
EType(o, e) == SubType(o.cell, e[1], e[2] + 1)
EVerts(o, e) == SubVerts(o.cell, o.verts, e[1], e[2] + 1)
EAx(o, e) == Axes(EType(o, e), EVerts(o, e), o.p)
EJac(o, e) == IF e[1] = 0 THEN 1 ELSE o.jac[e[1]][e[2] + 1]
DVerts(o, e) == LET dv == DefaultVertices(o.cell) IN SubVerts(o.cell, dv, e[1], e[2] + 1)
DAx(o, e) == Axes(EType(o, e), DVerts(o, e), o.p)
DJac(o, e) == IF e[1] = 0 THEN 1 ELSE o.djac[e[1]][e[2] + 1]
TDim(o) == CellDim[o.cell]
IsCell(o, e) == e[1] = TDim(o)

(* the measure factors the observer computed are the square roots of the Gram determinants *)
JacConsistent(o) ==
  /\ \A d \in 1..TDim(o) : \A n \in 1..Len(SubEntities(o.cell, d)) :
        LET e == <<d, n - 1>>
        IN /\ FMul(EJac(o, e), EJac(o, e), o.p) = Det(Gram(EAx(o, e), o.p), o.p)
           /\ FMul(DJac(o, e), DJac(o, e), o.p) = Det(Gram(DAx(o, e), o.p), o.p)
  /\ Len(o.verts[1]) # TDim(o) \/ FMul(o.sgn % o.p, EJac(o, <<TDim(o), 0>>), o.p) = Det(CellAx(o), o.p)

UnitNormal(o, e) == VScale(FInv(EJac(o, e), o.p), RawNormal(EAx(o, e), o.p), o.p)
UnitTangent(o, e) == VScale(FInv(EJac(o, e), o.p), EAx(o, e)[1], o.p)

(* ---- derivatives ---- *)
RECURSIVE DIter(_, _, _, _)
DIter(t, d, n, p) == IF n = 0 THEN t ELSE DIter(DPoly(t, d, p), d, n - 1, p)
DMulti(t, ord, p) == FoldLeft(LAMBDA u, k : DIter(u, k, ord[k], p), t, [k \in 1..Len(ord) |-> k])
ScaleT(t, a, p) == TLCEval([i \in 1..Len(t) |-> << (t[i][1] * a) % p, t[i][2], t[i][3], t[i][4] >>])
DDir(t, dir, p) == FoldLeft(LAMBDA u, k : u \o ScaleT(DPoly(t, k, p), dir[k], p), <<>>, [k \in 1..Len(dir) |-> k])
RECURSIVE DDirIter(_, _, _, _)
DDirIter(t, dir, n, p) == IF n = 0 THEN t ELSE DDirIter(DDir(t, dir, p), dir, n - 1, p)

GradAt(f, gd, tab, p) == TLCEval([k \in 1..gd |-> EvDC(f.c[1], k, tab, p)])
DivAt(f, tab, p) == FSum(TLCEval([k \in 1..Len(f.c) |-> EvDC(f.c[k], k, tab, p)]), p)
MatForm(v, l, r, p) == \* l^T V r, V row major
  FSum(TLCEval([k \in 1..Len(v) |-> (((v[k] * l[((k - 1) \div Len(r)) + 1]) % p) * r[((k - 1) % Len(r)) + 1]) % p]), p)

(* ---- point functionals: value on a plain function ---- *)
PointKinds == {"PointEvaluation", "WeightedPointEvaluation", "DerivativePointEvaluation",
               "PointDirectionalDerivativeEvaluation", "PointNormalDerivativeEvaluation",
               "PointComponentSecondDerivativeEvaluation", "PointInnerProduct", "DotPointEvaluation",
               "PointDivergenceEvaluation"}
PointValue(o, d, f) ==
  LET p == o.p
      tab == PTab(d.pt, MaxPow, p)
  IN CASE d.k = "PointEvaluation" -> EvLimit(f.c[1], d.pt, p)
       [] d.k = "WeightedPointEvaluation" -> FMul(d.w, EvC(f.c[1], tab, p), p)
       [] d.k = "DerivativePointEvaluation" ->
            IF FSum(d.der, p) = 0 THEN EvC(f.c[1], tab, p)
            ELSE EvT(DMulti(f.c[1][1], d.der, p), tab, p)
       [] d.k = "PointDirectionalDerivativeEvaluation" -> FDot(d.dir, GradAt(f, Len(d.dir), tab, p), p)
       [] d.k = "PointNormalDerivativeEvaluation" ->
            FDot(UnitNormal(o, d.ee), GradAt(f, Len(d.pt), tab, p), p)
       [] d.k = "PointComponentSecondDerivativeEvaluation" ->
            EvT(DPoly(DPoly(f.c[1][1], d.comp[1] + 1, p), d.comp[2] + 1, p), tab, p)
       [] d.k = "PointInnerProduct" -> MatForm(EvF(f, tab, p), d.l, d.r, p)
       [] d.k = "DotPointEvaluation" ->
            IF Len(d.vec) = 1 /\ Len(f.c) = 1 THEN FMul(d.vec[1], EvC(f.c[1], tab, p), p)
            ELSE FDot(d.vec, EvF(f, tab, p), p)
       [] OTHER -> DivAt(f, tab, p)

(* ---- integral functionals ---- *)
(* nodes on an entity: <<t, X, w, piece>>; the integral of g over e is EJac * Sum w g(X) *)
Nodes(o, phi, e, n, pcs) ==
  LET p == o.p
      ev == EVerts(o, e)
      ax == EAx(o, e)
  IN IF IsCell(o, e) /\ Len(phi) > 1
     THEN LET ki == MatInv(Transp(ax), p)       \* local coordinates t = ki (X - o)
              si == FInv(EJac(o, e), p)
          IN Flat(TLCEval([q \in 1..Len(phi) |->
                LET pc == phi[q]
                    pax == Axes(pc.cell, pc.v, p)
                    r == RefRule(pc.cell, n, p)
                IN TLCEval([k \in 1..Len(r) |->
                     LET X == At(pc.v[1], pax, r[k][1], p)
                     IN << TLCEval(MatVec(ki, VSub(X, ev[1], p), p)), X,
                           (((r[k][2] * pc.a) % p) * si) % p, q >>])]))
     ELSE LET r == RefRule(EType(o, e), n, p)
          IN TLCEval([k \in 1..Len(r) |-> << r[k][1], At(ev[1], ax, r[k][1], p), r[k][2], pcs[1] >>])
PiecesConsistent(o, phi) ==
  \A q \in 1..Len(phi) : phi[q].v = <<>> \/
     FMul(phi[q].a, phi[q].a, o.p) = LET d == Det(Axes(phi[q].cell, phi[q].v, o.p), o.p) IN FMul(d, d, o.p)

(* push-forwards by the affine map whose Jacobian columns are the axes ax, measure m *)
JMul(ax, v, p) == TLCEval([g \in 1..Len(ax[1]) |-> FSum([k \in 1..Len(ax) |-> (ax[k][g] * v[k]) % p], p)])
PushVec(ax, m, v, p) == VScale(FInv(m, p), JMul(ax, v, p), p)
PushMat(ax, m, v, p) == \* J V J^T / m^2, row major
  LET n == Len(ax)
      g == Len(ax[1])
      s == FInv((m * m) % p, p)
  IN TLCEval([k \in 1..(g * g) |->
       LET a == ((k - 1) \div g) + 1
           b == ((k - 1) % g) + 1
       IN FMul(s, FSum([h \in 1..(n * n) |->
            LET i == ((h - 1) \div n) + 1
                j == ((h - 1) % n) + 1
            IN (((ax[i][a] * v[h]) % p) * ax[j][b]) % p], p), p)])
SignedMeasure(ax, m, p) == IF Len(ax) = Len(ax[1]) THEN Det(ax, p) ELSE m

MapNeedsNothing(o) == o.default
IT(o, map, v) == \* inverse transpose of the named push-forward of the cell
  LET p == o.p
      ax == CellAx(o)
  IN CASE map = "identity" -> v
       [] map = "l2" -> VScale(EJac(o, <<TDim(o), 0>>), v, p)
       [] map = "covariant" -> JMul(ax, v, p)
       [] OTHER -> VScale(Det(ax, p), MatVec(Transp(MatInv(Transp(ax), p)), v, p), p)

(* the weight of an integral functional at local coordinates t *)
Weight(o, d, t) ==
  LET p == o.p
      e == d.e
      raw == EvFat(d.f, t, p)
      sh == Len(d.f.sh)
      gd == Len(o.verts[1])
      td == e[1]
  IN CASE d.k = "IntegralAgainst" ->
            LET s == VScale(FInv(EJac(o, <<TDim(o), 0>>), p), raw, p)
                ax == EAx(o, e)
                m == SignedMeasure(ax, EJac(o, e), p)
            IN CASE sh = 0 -> s
                 [] sh = 1 -> PushVec(ax, m, s, p)
                 [] OTHER -> PushMat(ax, m, s, p)
       [] d.k = "IntegralOfDivergenceAgainst" -> raw
       [] d.k \in {"TangentIntegralMoment", "NormalIntegralMoment"} ->
            VScale(raw[1], IF d.k = "TangentIntegralMoment" THEN UnitTangent(o, e) ELSE UnitNormal(o, e), p)
       [] OTHER ->
            LET dax == DAx(o, e)
                dm == SignedMeasure(dax, DJac(o, e), p)
                embed == IF IsCell(o, e) THEN raw
                         ELSE IF sh = 1 /\ Len(raw) # gd THEN PushVec(dax, dm, raw, p)
                         ELSE IF sh = 2 THEN PushMat(dax, dm, raw, p) ELSE raw
            IN IF o.default THEN embed
               ELSE VScale(FMul(DJac(o, e), FInv(EJac(o, e), p), p), IT(o, d.map, embed), p)

(* quantity of phi needed at a node *)
IntKinds == {"IntegralAgainst", "IntegralOfDivergenceAgainst", "IntegralMoment", "DerivativeIntegralMoment",
             "DivergenceIntegralMoment", "TangentIntegralMoment", "NormalIntegralMoment",
             "NormalDerivativeIntegralMoment", "InnerProductIntegralMoment",
             "NormalInnerProductIntegralMoment", "IntegralOfDirectionalMultiderivative"}
DivKinds == {"IntegralOfDivergenceAgainst", "DivergenceIntegralMoment"}
GradKinds == {"DerivativeIntegralMoment", "NormalDerivativeIntegralMoment"}

ValTable(o, phi, nodes) == TLCEval([q \in 1..Len(nodes) |-> EvFat(phi[nodes[q][4]].f, nodes[q][2], o.p)])
DivTable(o, phi, nodes) == TLCEval([q \in 1..Len(nodes) |->
     DivAt(phi[nodes[q][4]].f, PTab(nodes[q][2], MaxPow, o.p), o.p)])
GradTable(o, phi, nodes) == TLCEval([q \in 1..Len(nodes) |->
     GradAt(phi[nodes[q][4]].f, Len(o.verts[1]), PTab(nodes[q][2], MaxPow, o.p), o.p)])

(* value of an integral functional given the nodes of its entity and the tables *)
IntValue(o, d, phi, nodes, vals, divs, grads) ==
  LET p == o.p
      e == d.e
      jac == EJac(o, e)
      sum(g(_)) == FMul(jac, FSum(TLCEval([q \in 1..Len(nodes) |-> FMul(nodes[q][3], g(q), p)]), p), p)
  IN CASE d.k \in {"IntegralAgainst", "IntegralMoment", "TangentIntegralMoment", "NormalIntegralMoment"} ->
            LET g(q) == FDot(vals[q], Weight(o, d, nodes[q][1]), p) IN sum(g)
       [] d.k \in DivKinds ->
            LET g(q) == FMul(divs[q], Weight(o, d, nodes[q][1])[1], p) IN sum(g)
       [] d.k = "DerivativeIntegralMoment" ->
            LET g(q) == FMul(FDot(grads[q], d.vec, p), Weight(o, d, nodes[q][1])[1], p) IN sum(g)
       [] d.k = "NormalDerivativeIntegralMoment" ->
            LET g(q) == FMul(FDot(grads[q], UnitNormal(o, e), p), Weight(o, d, nodes[q][1])[1], p) IN sum(g)
       [] d.k = "InnerProductIntegralMoment" ->
            LET g(q) == FMul(jac, FMul(MatForm(vals[q], d.l, d.r, p), Weight(o, d, nodes[q][1])[1], p), p) IN sum(g)
       [] d.k = "NormalInnerProductIntegralMoment" ->
            LET n == UnitNormal(o, e)
                g(q) == FMul(jac, FMul(MatForm(vals[q], n, n, p), Weight(o, d, nodes[q][1])[1], p), p) IN sum(g)
       [] OTHER -> \* IntegralOfDirectionalMultiderivative
            LET D(f) == FoldLeft(LAMBDA u, k : DDirIter(u, d.dirs[k], d.ords[k], p), f.c[1][1], [k \in 1..Len(d.dirs) |-> k])
                ders == TLCEval([i \in 1..Len(phi) |-> D(phi[i].f)])
                g(q) == FMul(d.w, EvT(ders[nodes[q][4]], PTab(nodes[q][2], MaxPow, p), p), p) IN sum(g)
===============================================================================
