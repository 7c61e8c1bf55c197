------------------------------- MODULE Lifecycle -------------------------------
(* The life of the objects a user holds: elements, references and functions are created from recipes, *)
(* are asked questions, are dropped and created again.  Implementations remember intermediate results *)
(* (basis functions, their floating point copies, plotting scales, maps of the cell, dual matrices on *)
(* disk); the ghost state below follows what may be remembered for which object.                      *)
(*                                                                                                    *)
(* What a remembered result is worth is the pair of what it was computed from: the recipe of the      *)
(* object and the slot.  OwnResults says that whatever is remembered for an object is a result of the *)
(* object's own recipe, NoMixing that a slot is only filled by the question that owns it; with both,  *)
(* the answer to a question is a function of the recipe and the question, which is what C16_History   *)
(* demands of recorded programs.  In simulation mode the module generates the programs.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Kinds,       \* kind of each recipe: "E", "R" or "F"
          Ids,         \* what identifies each recipe on disk
          Handles, Depth, Variants

Recipes == DOMAIN Kinds
ElementQueries == {"basis", "tensor basis", "function", "tabulate", "tabulate float", "dual", "dual inverse",
  "dual uncached", "polynomial basis", "map to cell", "map basis", "entity dofs", "dof positions",
  "degrees", "kwargs", "factorisation", "dofs", "dof on function", "dof symbolic", "self test",
  "plot basis", "plot dofs", "reference maps", "reference values", "dof on other", "add functions",
  "function calculus", "reference intersection"}
ReferenceQueries == {"maps to self", "map to", "inverse map to", "volume", "jacobian", "normals", "axes",
  "sub entities", "sub entity", "lattice", "point", "limits", "contains", "default", "midpoint",
  "z order", "intersection", "equal", "polyset"}
FunctionQueries == {"sympy", "diff", "derivatives", "subs", "integral", "norm", "degree", "floats",
  "arithmetic", "add", "mul", "dot", "equal function", "items"}
Queries(k) == IF k = "E" THEN ElementQueries ELSE IF k = "R" THEN ReferenceQueries ELSE FunctionQueries
Binary == {"dof on other", "add functions", "reference intersection", "intersection", "equal", "add", "mul", "dot",
           "equal function"}
\* what may be remembered with the object, and the questions that fill or read it
Slots(q) ==
  IF q \in {"basis", "function", "tabulate", "dof on other", "add functions", "function calculus", "dof on function"}
    THEN {"basis"}
  ELSE IF q \in {"tabulate float"} THEN {"basis", "floats"}
  ELSE IF q = "plot basis" THEN {"basis", "floats", "scale"}
  ELSE IF q \in {"map to cell", "self test"} THEN {"basis", "maps"}
  ELSE IF q \in {"reference maps", "maps to self", "dofs"} THEN {"maps"}
  ELSE {}
OnDisk(q) == IF q = "dual" THEN {"dual"} ELSE IF q \in {"dual inverse"} \/ "basis" \in Slots(q) THEN {"dualinv"} ELSE {}

VARIABLES object,   \* handle -> recipe, 0 while there is none
          memory,   \* handle -> slot -> recipe the remembered result belongs to (0: nothing)
          disk,     \* <<id, slot>> -> recipe
          used,     \* recipe the last answer was computed from
          program
vars == << object, memory, disk, used, program >>
AllSlots == {"basis", "floats", "scale", "maps"}
Init == /\ object = [h \in Handles |-> 0] /\ memory = [h \in Handles |-> [s \in AllSlots |-> 0]]
        /\ disk = [k \in { << i, s >> : i \in { Ids[r] : r \in Recipes }, s \in {"dual", "dualinv"} } |-> 0]
        /\ used = << 0, {} >> /\ program = << >>
Create(h, r) ==
  /\ object' = [object EXCEPT ![h] = r]
  /\ memory' = [memory EXCEPT ![h] = [s \in AllSlots |-> 0]]
  /\ UNCHANGED disk /\ used' = << r, {r} >>
  /\ program' = Append(program, [op |-> "create", h |-> h, r |-> r, q |-> "", v |-> 0, g |-> h])
Ask(h, q, v, g) ==
  /\ object[h] # 0 /\ object[g] # 0 /\ q \in Queries(Kinds[object[h]])
  /\ IF q \in Binary THEN Kinds[object[g]] = Kinds[object[h]] ELSE g = h
  /\ memory' = [k \in Handles |-> [s \in AllSlots |->
        IF k \in {h, g} /\ s \in Slots(q) /\ memory[k][s] = 0 THEN object[k] ELSE memory[k][s]]]
  /\ disk' = [k \in DOMAIN disk |->
        IF k[1] \in {Ids[object[h]], Ids[object[g]]} /\ k[2] \in OnDisk(q) /\ disk[k] = 0
        THEN (IF k[1] = Ids[object[h]] THEN object[h] ELSE object[g]) ELSE disk[k]]
  /\ used' = << object[h], {object[h]} \cup { memory'[h][s] : s \in Slots(q) }
                                   \cup { disk'[<< Ids[object[h]], s >>] : s \in OnDisk(q) } >>
  /\ program' = Append(program, [op |-> "ask", h |-> h, r |-> object[h], q |-> q, v |-> v, g |-> g])
  /\ UNCHANGED object
Next == Len(program) < Depth /\
        \/ \E h \in Handles : \E r \in Recipes : Create(h, r)
        \/ \E h, g \in Handles : object[h] # 0 /\ object[g] # 0 /\
             \E q \in Queries(Kinds[object[h]]), v \in 1..Variants : Ask(h, q, v, g)
Spec == Init /\ [][Next]_vars

TypeOK == /\ object \in [Handles -> {0} \cup Recipes]
          /\ memory \in [Handles -> [AllSlots -> {0} \cup Recipes]]
OwnResults == \A h \in Handles : \A s \in AllSlots : memory[h][s] \in {0, object[h]}
OwnAnswers == used[2] \subseteq {used[1]}

\* -------------------------------------------------------------------- generation of programs
Pick(S) == RandomElement(S)
GenNext ==
  \/ /\ Len(program) < Depth
     /\ LET free == { h \in Handles : object[h] = 0 }
        IN IF free # {} \/ Pick(1..12) = 1
           THEN \E h \in {IF free # {} THEN Pick(free) ELSE Pick(Handles)} : \E r \in {Pick(Recipes)} : Create(h, r)
           \* now and then the same question with another argument, of any object of the same kind
           ELSE IF program # <<>> /\ program[Len(program)].op = "ask" /\ Pick(1..3) = 1
           THEN LET last == program[Len(program)]
                IN \E h \in {IF Pick(1..2) = 1 THEN last.h
                              ELSE Pick({ k \in Handles : object[k] # 0 /\ Kinds[object[k]] = Kinds[object[last.h]] })} :
                   \E v \in {Pick({last.v, ((last.v + 2) % 9) + 1, ((last.v + 5) % 9) + 1, Pick(1..Variants)})} :
                     Ask(h, last.q, v, IF last.q \in Binary THEN last.g ELSE h)
           ELSE \E h \in {Pick(Handles)} : \E q \in {Pick(Queries(Kinds[object[h]]))} :
                \E v \in {Pick(1..Variants)} :
                \E g \in {IF q \in Binary THEN Pick({ k \in Handles : object[k] # 0 /\ Kinds[object[k]] = Kinds[object[h]] }) ELSE h} :
                  Ask(h, q, v, g)
  \/ Len(program) = Depth /\ PrintT(ToJson(program)) /\ program' = Append(program, [op |-> "end"]) /\ UNCHANGED << object, memory, disk, used >>
GenSpec == Init /\ [][GenNext]_vars
=================================================================================
