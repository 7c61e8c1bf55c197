----------------------------- MODULE C11_Calculus -----------------------------
(* One observation per derivative, norm or integral taken of a function during a program of the          *)
(* function machine: p, op, ka (kind of operand), a (the function), t (answered: "value", or "refused"), *)
(* r (the result), pts, dir (direction), ij (components), dim; qs, sq, sg: points, squared values and     *)
(* signs of a norm; lims: [variable, lower, upper]; cell, verts, jac: domain and its measure factor.     *)
EXTENDS Calculus, Json, IOUtils
ObsAll == JsonDeserialize(IOEnv.OBS)

Right(o, pt) ==
  LET tab == PTab(pt, MaxPow, o.p)
  IN ~Regular(o.a, << tab, o.p >>) \/ ~Regular(o.r, << tab, o.p >>) \/ EvF(o.r, tab, o.p) = ValueAt(o, pt, tab)
NormRight(o, k) ==
  LET tab == PTab(o.qs[k], MaxPow, o.p)
      v == EvF(o.a, tab, o.p)
      w == IF o.op = "norm" THEN v ELSE Cross3(<< v[1], v[3], v[5] >>, << v[2], v[4], v[6] >>, o.p)
  IN ~Regular(o.a, << tab, o.p >>) \/ (o.sg[k] = 1 /\ o.sq[k] = FDot(w, w, o.p))

Verdict(o) ==
  (IF o.changed # <<>> THEN {"an operation changed an existing function"} ELSE {}) \cup
  (IF o.t = "refused" THEN IF Defined(o) THEN {"a defined operation is refused"} ELSE {}
   ELSE IF Meaningless(o) THEN {"an operation without a meaning is answered"}
   ELSE IF ~Defined(o) THEN {}
   ELSE IF o.t = "not a number" THEN {"the integral is not a number"}
   ELSE IF o.op \in {"norm", "detnorm"} THEN IF \E k \in 1..Len(o.qs) : ~NormRight(o, k) THEN {"wrong norm"} ELSE {}
   ELSE IF o.r.sh # ResultShape(o) THEN {"the result has the wrong shape"}
   ELSE IF \E k \in 1..(IF o.op = "integral" THEN 1 ELSE Len(o.pts)) : ~Right(o, o.pts[k]) THEN {"the result has the wrong value"}
   ELSE {})

VARIABLES lane, pos, failed
INSTANCE Runner WITH Judge <- Verdict, Obs <- ObsAll, Lanes <- 16
===============================================================================
