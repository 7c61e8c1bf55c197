------------------------------ MODULE C18_Registry ------------------------------
(* Recorded programs of registrations and creations replayed on Registry, and recorded creations of   *)
(* the library's own elements judged with the table of families it documents (families.json).         *)
EXTENDS Registry, Json, IOUtils
ObsAll == JsonDeserialize(IOEnv.OBS)
FamiliesRaw == JsonDeserialize(IOEnv.FAMILIES)
SetOf(s) == { s[i] : i \in DOMAIN s }
Families == [i \in DOMAIN FamiliesRaw |-> LET f == FamiliesRaw[i] IN
   [names |-> SetOf(f.names), cells |-> DOMAIN f.cells, min |-> [c \in DOMAIN f.cells |-> f.cells[c].min],
    max |-> [c \in DOMAIN f.cells |-> f.cells[c].max], good |-> TRUE]]
\* the table the library starts with; no two of its families clash
Keys == UNION { Entries(Families[i]) : i \in DOMAIN Families }
BuiltIn == [k \in Keys |-> 1000 + (CHOOSE i \in DOMAIN Families : k \in Entries(Families[i]))]
FamOf(o, id) == IF id > 1000 THEN Families[id - 1000]
                ELSE LET c == o.pool[id]
                         cs == SetOf(c.cells)
                         lo == [r \in cs |-> IF c.minset[r] THEN c.min ELSE -1000]
                         hi == [r \in cs |-> IF c.maxset[r] THEN c.max ELSE -1]
                     IN [names |-> SetOf(c.names), cells |-> cs, min |-> lo, max |-> hi, good |-> c.good]

\* what creating (name, cell, order) must do in a table
Expect(o, tab, e) ==
  LET id == Find(tab, e.name, e.cell)
  IN IF id = None THEN [refused |-> TRUE, id |-> 0]
     ELSE IF InRange(FamOf(o, id), e.cell, e.order) THEN [refused |-> FALSE, id |-> id] ELSE [refused |-> TRUE, id |-> 0]
JudgeCreate(o, tab, e) ==
  LET x == Expect(o, tab, e)
  IN IF x.refused THEN (IF e.refused THEN {} ELSE {"a creation that must be refused is not"})
     ELSE IF e.refused THEN (IF x.id > 1000 THEN {} ELSE {"a creation is refused"})
     ELSE (IF x.id > 1000 THEN (IF e.cls = 0 THEN {} ELSE {"the name of a family of the library stands for another class"})
           ELSE IF e.cls = x.id THEN {} ELSE {"the name of an added family stands for another class"})
          \cup (IF e.gotorder = e.order THEN {} ELSE {"the order is not the one asked for"})
          \cup (IF e.gotcell = e.cell THEN {} ELSE {"the cell is not the one asked for"})
          \cup (IF x.id > 1000 \/ e.tag THEN {} ELSE {"an option is not passed on"})
RECURSIVE Run(_, _, _, _)
Run(o, tab, i, bad) ==
  IF i > Len(o.ev) THEN bad
  ELSE LET e == o.ev[i]
       IN IF e.op = "add"
          THEN LET fam == FamOf(o, e.k)
                   ok == Accepts(tab, e.k, fam)
               IN Run(o, TLCEval(AddFamily(tab, e.k, fam)), i + 1,
                      bad \cup (IF ok = ~e.refused THEN {}
                                ELSE IF ok THEN {"a registration is refused"} ELSE {"a registration that must be refused is not"}))
          ELSE Run(o, tab, i + 1, bad \cup JudgeCreate(o, tab, e))
Program(o) == Run(o, BuiltIn, 1, {})

\* ------------------------------------------------------------------ the library's own elements
Element(o) ==
  LET id == Find(BuiltIn, o.name, o.cell)
      allowed == id # None /\ InRange(Families[id - 1000], o.cell, o.order)
  IN IF ~allowed THEN (IF o.refused THEN {} ELSE {"created although the family does not have this name, cell or order"})
     ELSE IF o.refused THEN (IF o.must THEN {"refused although the family has this name, cell and order"} ELSE {})
     ELSE (IF o.gotorder = o.order THEN {} ELSE {"the order is not the one asked for"})
          \cup (IF o.gotcell = o.cell /\ o.verts THEN {} ELSE {"the cell is not the one asked for"})
          \cup (IF SetOf(o.names) = Families[id - 1000].names THEN {} ELSE {"the family is not the one asked for"})
          \cup (IF o.sameclass THEN {} ELSE {"aliases give different families"})
          \cup (IF o.kwkept THEN {} ELSE {"an option is not the one asked for"})
          \cup (IF o.digest = o.again THEN {} ELSE {"the reported options do not recreate an equal element"})
          \cup (IF o.digest = o.alias THEN {} ELSE {"an alias gives a different element"})
          \cup (IF o.kwargs = o.kwagain THEN {} ELSE {"the recreated element reports other options"})
\* what is left unsaid is the default: options left out are the documented defaults
Verdict(o) == IF o.kind = "program" THEN Program(o) ELSE Element(o)
VARIABLES lane, pos, failed
INSTANCE Runner WITH Judge <- Verdict, Obs <- ObsAll, Lanes <- 8
=================================================================================
