--------------------------- MODULE C09_Functionals ---------------------------
(* Observation of one functional applied to one function: context fields of Functionals; d (class and  *)
(* constructor arguments), phi (function), n (degree of the integrand), value (the implementation's    *)
(* answer, or refused), and what the functional reports about itself: rpt, rdir, hasdir, rent.         *)
EXTENDS Functionals, Json, IOUtils
ObsAll == JsonDeserialize(IOEnv.OBS)

Value(o) ==
  IF o.d.k \in PointKinds THEN PointValue(o, o.d, o.phi[o.d.pcs[1]].f)
  ELSE LET nd == Nodes(o, o.phi, o.d.e, o.n, o.d.pcs)
           v == IF o.d.k \in DivKinds \/ o.d.k \in GradKinds THEN <<>> ELSE ValTable(o, o.phi, nd)
           dv == IF o.d.k \in DivKinds THEN DivTable(o, o.phi, nd) ELSE <<>>
           g == IF o.d.k \in GradKinds THEN GradTable(o, o.phi, nd) ELSE <<>>
       IN IntValue(o, o.d, o.phi, nd, v, dv, g)

Mean(vs, p) == TLCEval([g \in 1..Len(vs[1]) |-> FDiv(FSum([i \in 1..Len(vs) |-> vs[i][g]], p), Len(vs), p)])
Moments == IntKinds \ {"IntegralAgainst", "IntegralOfDivergenceAgainst", "IntegralOfDirectionalMultiderivative"}
Point(o) ==
  LET d == o.d
  IN IF d.k \in PointKinds THEN d.pt
     ELSE IF d.k \in Moments THEN At(EVerts(o, d.e)[1], EAx(o, d.e), o.lpt, o.p)
     ELSE Mean(EVerts(o, d.e), o.p)
(* adjusted position: point functionals at the point, others pulled 3/10 of the way to the midpoint *)
Adjusted(o) ==
  LET m == Mean(EVerts(o, o.d.e), o.p)
      q == Point(o)
  IN IF o.d.k \in PointKinds \/ o.d.e[1] = 0 THEN q
     ELSE TLCEval([g \in 1..Len(q) |-> (m[g] + FDiv((7 * ((q[g] - m[g]) % o.p)) % o.p, 10, o.p)) % o.p])

(* direction: << >> stands for none *)
Direction(o) ==
  LET d == o.d
  IN CASE d.k \in {"PointDirectionalDerivativeEvaluation"} -> d.dir
       [] d.k = "PointInnerProduct" -> IF d.l = d.r THEN d.l ELSE <<>>
       [] d.k = "DotPointEvaluation" -> IF o.vecisvec THEN d.vec ELSE <<>>
       [] d.k = "TangentIntegralMoment" -> UnitTangent(o, d.e)
       [] d.k = "NormalIntegralMoment" -> UnitNormal(o, d.e)
       [] d.k = "NormalDerivativeIntegralMoment" -> UnitNormal(o, d.e)
       [] d.k = "NormalInnerProductIntegralMoment" -> UnitNormal(o, d.e)
       [] d.k = "DerivativeIntegralMoment" -> d.vec
       [] d.k = "InnerProductIntegralMoment" -> IF d.l = d.r THEN d.l ELSE <<>>
       [] d.k \in {"IntegralMoment", "DivergenceIntegralMoment"} ->
             IF o.ldir # <<>> THEN JMul(EAx(o, d.e), o.ldir, o.p)
             ELSE IF Len(d.f.sh) = 1 THEN Weight(o, d, o.lpt) ELSE <<>>
       [] OTHER -> <<>>

Verdict(o) ==
  (IF JacConsistent(o) /\ PiecesConsistent(o, o.phi) THEN {} ELSE {"observer: inconsistent measures"})
  \cup (IF o.raised # "" THEN {"raised " \o o.raised} ELSE
    (IF o.value = Value(o) THEN {} ELSE {"value"})
    \cup (IF o.fl[1] - o.fl[2] \in -2..2 THEN {} ELSE {"floating point value"})
    \cup (IF o.rpt = Point(o) THEN {} ELSE {"reported point"})
    \cup (IF o.apt = Adjusted(o) THEN {} ELSE {"adjusted point"})
    \cup (IF o.rdir = Direction(o) THEN {} ELSE {"reported direction"})
    \cup (IF o.rent = o.d.e THEN {} ELSE {"reported entity"}))

VARIABLES lane, pos, failed
INSTANCE Runner WITH Judge <- Verdict, Obs <- ObsAll, Lanes <- 16
===============================================================================
