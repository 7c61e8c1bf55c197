------------------------------- MODULE RegistryMC -------------------------------
(* The registry as a state machine: exhaustively on small families, and in simulation mode as the     *)
(* source of programs of registrations and creations.                                                 *)
EXTENDS Registry, Json, IOUtils
VARIABLES table, added, last, program, pool
vars == << table, added, last, program, pool >>

\* ------------------------------------------------------------------ exhaustive
SmallNames == {"a", "b"}
SmallCells == {"c", "d"}
Fam(ns, cs) == [names |-> ns, cells |-> cs, min |-> [c \in cs |-> 0], max |-> [c \in cs |-> -1], good |-> ns # {}]
Fams == { Fam(ns, cs) : ns \in SUBSET SmallNames, cs \in SUBSET SmallCells }
Init == table = [k \in {} |-> 0] /\ added = {} /\ last = << {}, {}, FALSE >> /\ program = << >> /\ pool = << >>
Add(id, fam) ==
  /\ \A z \in added : z[1] = id => z[2] = fam
  /\ table' = AddFamily(table, id, fam)
  /\ added' = IF Accepts(table, id, fam) THEN added \cup { << id, fam >> } ELSE added
  /\ last' = << table, table', Accepts(table, id, fam) >> /\ UNCHANGED << program, pool >>
Next == \E id \in 1..3, fam \in Fams : Add(id, fam)
Spec == Init /\ [][Next]_vars
Complete == \A z \in added : \A k \in Entries(z[2]) : k \in DOMAIN table /\ table[k] = z[1]
Sound == \A k \in DOMAIN table : \E z \in added : z[1] = table[k] /\ k \in Entries(z[2])
Traceless == [][last'[3] \/ table' = table]_vars
Steady == [][\A k \in DOMAIN table : k \in DOMAIN table' /\ table'[k] = table[k]]_vars

\* ------------------------------------------------------------------ programs
Names == << "alpha", "beta", "gamma", "delta", "Lagrange", "N1curl", "Q" >>
Cells == << "interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron", "prism" >>
Pick(S) == RandomElement(S)
Depth == atoi(IOEnv.DEPTH)
NPool == 5
NewClass ==
  \E n1, n2 \in {0} : \E a \in {Pick(1..4)}, b \in {Pick(1..12)}, c \in {Pick(1..6)}, d \in {Pick(0..6)},
     mn \in {Pick(0..2)}, mx \in {Pick(0..3)}, style \in {Pick(1..4)}, kind \in {Pick(1..12)} :
    pool' = Append(pool, [names |-> << Names[a] >> \o (IF b <= 7 THEN << Names[b] >> ELSE << >>),
                          cells |-> << Cells[c] >> \o (IF d > 0 /\ d # c THEN << Cells[d] >> ELSE << >>),
                          min |-> mn, max |-> IF mx = 0 THEN -1 ELSE mn + mx - 1, style |-> style,
                          kind |-> IF kind <= 8 THEN 1 ELSE kind - 7])
GenNext ==
  \/ Len(pool) < NPool /\ NewClass /\ UNCHANGED << table, added, last, program >>
  \/ /\ Len(pool) = NPool /\ Len(program) < Depth
     /\ \E r \in {Pick(1..5)} : \E k \in {Pick(1..NPool)} : \E o \in {Pick(-1..6)} :
        \E n \in {Pick(1..2)} : \E c \in {Pick(1..2)} : \E v \in {Pick(1..Len(Names))} : \E w \in {Pick(1..Len(Cells))} :
          program' = Append(program,
            IF r <= 2 THEN [op |-> "add", k |-> k, name |-> "", cell |-> "", order |-> 0]
            ELSE LET cl == pool[k]
                 IN [op |-> "create", k |-> 0,
                     name |-> IF r = 5 THEN Names[v] ELSE cl.names[IF n <= Len(cl.names) THEN n ELSE 1],
                     cell |-> IF r = 5 THEN Cells[w] ELSE cl.cells[IF c <= Len(cl.cells) THEN c ELSE 1],
                     order |-> o])
     /\ UNCHANGED << table, added, last, pool >>
  \/ /\ Len(program) = Depth /\ PrintT(ToJson(<< pool, program >>))
     /\ program' = Append(program, [op |-> "end"]) /\ UNCHANGED << table, added, last, pool >>
GenSpec == Init /\ [][GenNext]_vars
=================================================================================
