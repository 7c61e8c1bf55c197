-------------------------------- MODULE DualFan --------------------------------
(* The fan of 2N triangles (o, v_i, v_{i+1}) around the centre of a dual polygon with N triangles of the  *)
(* coarse mesh: v_0, v_2, .. are the centroids of those triangles, v_1, v_3, .. the midpoints of the      *)
(* coarse edges.  Buffa, Christiansen, A dual finite element complex on the barycentric refinement.       *)
(*                                                                                                        *)
(* A lowest-order div-conforming (or, rotated, curl-conforming) function on the fan is a flow: it is      *)
(* described by what enters each triangle through its first internal edge, what is created inside and     *)
(* what leaves through the outer edge.  The machine walks once around the fan, one triangle per step, and *)
(* carries the flow; amounts are in units of 1/(4N).                                                      *)
EXTENDS FanLaw, Sequences, FiniteSets
CONSTANTS MaxN
VARIABLES n, j, step, inflow, created, left, path
fan == << n, j, step, inflow, created, left, path >>

Init == /\ n \in 3..MaxN
        /\ j \in 0..(n - 1)
        /\ step = 0 /\ inflow = 0 /\ created = 0 /\ left = 0 /\ path = <<>>
Cross == /\ step < 2 * n
         /\ LET t == Tri(n, j, step)
            IN /\ inflow' = inflow + Source - Out(n, j, t)
               /\ left' = left + Out(n, j, t)
               /\ path' = Append(path, [tri |-> t, in |-> inflow, out |-> Out(n, j, t), next |-> inflow'])
         /\ created' = created + Source
         /\ step' = step + 1
         /\ UNCHANGED << n, j >>
Next == Cross
Spec == Init /\ [][Next]_fan

Closes == step = 2 * n => inflow = 0                         \* the flow is single valued around o
Balanced == inflow = created - left
Unit1 == step = 2 * n => created = 4 * n /\ left = 4 * n     \* one unit in total
Mirror == \* the flow is antisymmetric about the line through v_2j
  step = 2 * n => \A s \in 1..(2 * n) : path[s].in = -path[2 * n + 1 - s].next
Tour == step = 2 * n => {path[s].tri : s \in 1..(2 * n)} = 0..(2 * n - 1)

ClosedForm == \A s \in 1..Len(path) : path[s].in = InF(n, j, path[s].tri)

RECURSIVE Total(_, _, _)
Total(nn, i, m) == IF m = 0 THEN 0 ELSE Total(nn, i, m - 1) + AtV(nn, m - 1, i)
Partition == \A i \in 0..(2 * n - 1) : Total(n, i, n) = 2 * n        \* the functions sum to one at v_i
PartitionO == n * AtO(n) = 2 * n
================================================================================
