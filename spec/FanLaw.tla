-------------------------------- MODULE FanLaw --------------------------------
(* Definitions of the dual functions of a fan of 2N triangles (see DualFan).                              *)
EXTENDS Integers
(* function j belongs to the vertex v_{2j}; the flow leaves by the two outer edges that meet there, half  *)
(* by each; it is created at the same rate in every triangle; nothing crosses the edge opposite v_{2j}.   *)
Out(nn, jj, t) == IF t = 2 * jj \/ t = (2 * jj - 1) % (2 * nn) THEN 2 * nn ELSE 0
Source == 2
Tri(nn, jj, s) == (2 * jj + nn + s) % (2 * nn)      \* the triangle of step s, from the edge opposite v_2j

(* closed form of the walk: what enters triangle t through the edge (o, v_t) *)
InF(nn, jj, t) == LET s == (t - 2 * jj - nn) % (2 * nn)
                  IN Source * s - (IF s >= nn THEN 2 * nn ELSE 0) - (IF s > nn THEN 2 * nn ELSE 0)
(* the piecewise linear dual function of v_2j: its values at o and at v_i, in units of 1/(2N)             *)
AtO(nn) == 2
AtV(nn, jj, i) == LET d == (i - 2 * jj) % (2 * nn)
                  IN CASE d = 0 -> 2 * nn [] d \in {1, 2 * nn - 1} -> nn [] OTHER -> 0
================================================================================
