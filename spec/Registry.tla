-------------------------------- MODULE Registry --------------------------------
(* The table of elements: which family a name on a cell stands for.  Families are added; a family     *)
(* whose name and cell already stand for another family is refused and changes nothing.               *)
(* Invariants: a cell of the table never changes once it is set (Steady), everything an accepted      *)
(* family declares is available (Complete), a refused one leaves no trace (Traceless).                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* a family: [names |-> set, cells |-> set, min |-> cell -> order or -1, max |-> cell -> order or -1, good |-> BOOLEAN]
None == 0
Entries(fam) == fam.names \X fam.cells
Clash(table, id, fam) == \E k \in Entries(fam) : k \in DOMAIN table /\ table[k] # id
Accepts(table, id, fam) == fam.good /\ ~Clash(table, id, fam)
AddFamily(table, id, fam) ==
  IF Accepts(table, id, fam)
  THEN [k \in DOMAIN table \cup Entries(fam) |-> IF k \in Entries(fam) THEN id ELSE table[k]]
  ELSE table
Find(table, name, cell) == IF << name, cell >> \in DOMAIN table THEN table[<< name, cell >>] ELSE None
InRange(fam, cell, order) == order >= fam.min[cell] /\ (fam.max[cell] = -1 \/ order <= fam.max[cell])
=================================================================================
