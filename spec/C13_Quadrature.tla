---------------------------- MODULE C13_Quadrature ----------------------------
(* Observation: rule, n, refused, pts, wts (residues), rank (quantised floats, 1e8), p.               *)
EXTENDS Poly, Json, IOUtils
ObsAll == JsonDeserialize(IOEnv.OBS)

(* nominal degree of exactness of each rule with n points, and the supported sizes *)
Degree(rule, n) == CASE rule = "legendre" -> 2 * n - 1
                     [] rule = "lobatto" -> 2 * n - 3
                     [] rule = "radau" -> 2 * n - 2
                     [] OTHER -> 1
MustExist(rule, n) == CASE rule = "legendre" -> n \in 1..3
                        [] rule = "lobatto" -> n \in 2..7
                        [] rule = "radau" -> n \in 2..3
                        [] OTHER -> n >= 2

MomentOK(o, k) == FSum(TLCEval([i \in 1..Len(o.pts) |->
                       (o.wts[i] * FPow(o.pts[i], k, o.p)) % o.p]), o.p) = FInv(k + 1, o.p)
One8 == 100000000
Verdict(o) ==
  IF o.refused THEN IF MustExist(o.rule, o.n) THEN {"supported size refused"} ELSE {}
  ELSE IF Len(o.pts) # o.n \/ Len(o.wts) # o.n \/ o.n = 0 THEN {"number of points"}
  ELSE
   (IF \A i \in 1..(o.n - 1) : o.rank[i] < o.rank[i + 1] THEN {} ELSE {"nodes increasing"})
   \cup (IF \A i \in 1..o.n : o.rank[i] >= 0 /\ o.rank[i] <= One8 THEN {} ELSE {"nodes in the unit interval"})
   \cup (IF o.rule \in {"lobatto", "equispaced", "radau"} => o.pts[1] = 0 THEN {} ELSE {"left end point"})
   \cup (IF o.rule \in {"lobatto", "equispaced"} => o.pts[o.n] = 1 THEN {} ELSE {"right end point"})
   \cup (IF \A k \in 0..Degree(o.rule, o.n) : MomentOK(o, k) THEN {} ELSE {"exactness"})

VARIABLES lane, pos, failed
INSTANCE Runner WITH Judge <- Verdict, Obs <- ObsAll, Lanes <- 8
===============================================================================
