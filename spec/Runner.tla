-------------------------------- MODULE Runner --------------------------------
(* Consumes the recorded observations of the implementation, one per step, and judges each of them    *)
(* with the operator Judge, which returns the set of names of the clauses the observation violates.   *)
(* The observations are split into lanes so that several TLC workers can proceed in parallel; a lane  *)
(* is a trace of the implementation and each transition accounts for exactly one recorded event.      *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Judge(_), Obs, Lanes
VARIABLES lane, pos, failed
vars == << lane, pos, failed >>

Idx(l, k) == l + (k - 1) * Lanes
Init == lane \in 1..Lanes /\ pos = 0 /\ failed = 0
Consume ==
  /\ Idx(lane, pos + 1) <= Len(Obs)
  /\ pos' = pos + 1
  /\ LET o == Obs[Idx(lane, pos + 1)]
         bad == Judge(o)
     IN /\ failed' = failed + (IF bad = {} THEN 0 ELSE 1)
        /\ IF bad = {} THEN TRUE ELSE PrintT(ToJson([id |-> o.id, clauses |-> bad]))
  /\ UNCHANGED lane
Spec == Init /\ [][Consume]_vars
===============================================================================
