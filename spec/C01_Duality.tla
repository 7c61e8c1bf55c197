------------------------------ MODULE C01_Duality ------------------------------
(* Observation of one element: context fields of Functionals; sh, pieces (coefficient form of the     *)
(* basis functions), n (number of basis functions), ndofs, dim (advertised), cs (a random combination)*)
(* dofs (functionals), ents (entities carrying integrals: [e, n (rule degree), pcs]), ev (values the   *)
(* implementation computed: <<i, j, value>> for dof i on basis function j).                            *)
EXTENDS Functionals, Json, IOUtils
ObsAll == JsonDeserialize(IOEnv.OBS)

(* the combination Sum_j cs[j] phi_j as a function *)
Combine(o) ==
  TLCEval([q \in 1..Len(o.pieces) |->
    LET pc == o.pieces[q]
        comp(k) == << TLCEval([m \in 1..Len(pc.m[k]) |->
                       << FSum(TLCEval([j \in 1..o.n |-> (o.cs[j] * pc.c[j][k][m]) % o.p]), o.p),
                          pc.m[k][m][1], pc.m[k][m][2], pc.m[k][m][3] >>]), pc.den >>
    IN [v |-> pc.v, cell |-> pc.cell, a |-> pc.a,
        f |-> [sh |-> o.sh, c |-> TLCEval([k \in 1..Len(pc.m) |-> comp(k)])]]])

DofFails(o) ==
  LET phi == Combine(o)
      nd == TLCEval([i \in 1..Len(o.ents) |-> Nodes(o, phi, o.ents[i].e, o.ents[i].n, o.ents[i].pcs)])
      vt == TLCEval([i \in 1..Len(o.ents) |-> IF o.ents[i].val THEN ValTable(o, phi, nd[i]) ELSE <<>>])
      dt == TLCEval([i \in 1..Len(o.ents) |-> IF o.ents[i].div THEN DivTable(o, phi, nd[i]) ELSE <<>>])
      gt == TLCEval([i \in 1..Len(o.ents) |-> IF o.ents[i].grad THEN GradTable(o, phi, nd[i]) ELSE <<>>])
      value(d) == IF d.k \in PointKinds THEN PointValue(o, d, phi[d.pcs[1]].f)
                  ELSE IntValue(o, d, phi, nd[d.ei], vt[d.ei], dt[d.ei], gt[d.ei])
  IN {i \in 1..Len(o.dofs) : o.dofs[i].k # "skip" /\ value(o.dofs[i]) # o.cs[i]}

Verdict(o) ==
  IF o.n # o.dim \/ o.n # o.ndofs THEN {"numbers of functions, functionals and dimension differ"}
  ELSE
    (IF JacConsistent(o) THEN {} ELSE {"observer: inconsistent measures"})
    \cup (IF \A x \in SetOf(o.ev) : x[3] = (IF x[1] = x[2] THEN 1 ELSE 0) THEN {}
          ELSE {"functional evaluated by the implementation is not a Kronecker delta"})
    \cup {"functional " \o ToString(i - 1) \o " (" \o o.dofs[i].k \o ") by its definition" : i \in DofFails(o)}

VARIABLES lane, pos, failed
INSTANCE Runner WITH Judge <- Verdict, Obs <- ObsAll, Lanes <- 16
===============================================================================
