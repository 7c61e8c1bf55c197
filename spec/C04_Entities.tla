------------------------------ MODULE C04_Entities ------------------------------
(* The degrees of freedom of an element and the sub-entities of its cell.                             *)
(* Observation: cell, n (space dimension), cont (continuity), kind (ciarlet, direct, enriched, macro), *)
(*  table (entity_dofs for every dimension and number), ents (dof_entities), parts (sizes of the       *)
(*  sub-elements, <<n>> for plain elements), dofs: [k (point, integral, none), pos (plotted position), *)
(*  pt (defining point), dir (length of the direction, 0 if none), pow (power of the polar position)]   *)
(* positions are local coordinates with respect to vertex 0 and the axes of the cell, in units of       *)
(* 1/Unit, with "off" set when the point is not in the affine hull of the cell.                         *)
EXTENDS Cells, Json, IOUtils
ObsAll == JsonDeserialize(IOEnv.OBS)
Unit == 1000000
Tol == 3

(* the closed half-spaces whose intersection is the reference cell: <<constant, coefficients>>        *)
HalfSpaces(c) ==
  CASE c = "point" -> {}
    [] c = "interval" -> {<<0, <<1>>>>, <<1, <<-1>>>>}
    [] c = "triangle" -> {<<0, <<1,0>>>>, <<0, <<0,1>>>>, <<1, <<-1,-1>>>>}
    [] c = "quadrilateral" -> {<<0, <<1,0>>>>, <<0, <<0,1>>>>, <<1, <<-1,0>>>>, <<1, <<0,-1>>>>}
    [] c = "tetrahedron" -> {<<0, <<1,0,0>>>>, <<0, <<0,1,0>>>>, <<0, <<0,0,1>>>>, <<1, <<-1,-1,-1>>>>}
    [] c = "hexahedron" -> {<<0, <<1,0,0>>>>, <<0, <<0,1,0>>>>, <<0, <<0,0,1>>>>, <<1, <<-1,0,0>>>>, <<1, <<0,-1,0>>>>, <<1, <<0,0,-1>>>>}
    [] c = "prism" -> {<<0, <<1,0,0>>>>, <<0, <<0,1,0>>>>, <<1, <<-1,-1,0>>>>, <<0, <<0,0,1>>>>, <<1, <<0,0,-1>>>>}
    [] OTHER -> {<<0, <<1,0,0>>>>, <<0, <<0,1,0>>>>, <<0, <<0,0,1>>>>, <<1, <<-1,0,-1>>>>, <<1, <<0,-1,-1>>>>}
ValueAt(h, x, u) == LET d == Len(x)
                    IN IF d = 0 THEN h[1] * u
                       ELSE h[1] * u + (IF d >= 1 THEN h[2][1] * x[1] ELSE 0) + (IF d >= 2 THEN h[2][2] * x[2] ELSE 0)
                            + (IF d >= 3 THEN h[2][3] * x[3] ELSE 0)
VertsOf(c, d, e) == IF d = CellDim[c] THEN 0..(NVerts[c] - 1) ELSE SetOf(SubEntities(c, d)[e + 1])
Touches(c, h, d, e) == \A v \in VertsOf(c, d, e) : ValueAt(h, DefaultVertices(c)[v + 1], 1) = 0
Within(c, d, e, x, strict) ==
  \A h \in HalfSpaces(c) :
     LET v == ValueAt(h, x, Unit)
     IN IF Touches(c, h, d, e) THEN v \in (-Tol)..Tol
        ELSE IF strict THEN v > 100 ELSE v >= -Tol

NumEnts(c, d) == IF d = CellDim[c] THEN 1 ELSE Len(SubEntities(c, d))
TypeOf(c, d, e) == IF d = CellDim[c] THEN c ELSE SubType(c, d, e + 1)

(* spaces whose traces are shared by neighbours need as many DOFs on entities of the same shape *)
Symmetric(o) == o.sym
Increasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
Start(o, k) == LET RECURSIVE S(_)
                   S(j) == IF j = 0 THEN 0 ELSE o.parts[j] + S(j - 1)
               IN S(k - 1)
PartOf(o, i) == CHOOSE k \in 1..Len(o.parts) : Start(o, k) <= i /\ i < Start(o, k) + o.parts[k]

Partition(o) ==
  LET td == CellDim[o.cell]
      shape == /\ Len(o.table) = td + 1
               /\ \A d \in 0..td : Len(o.table[d + 1]) = NumEnts(o.cell, d)
      at(d, e) == o.table[d + 1][e + 1]
      All == {<<d, e>> \in (0..td) \X (0..12) : e < NumEnts(o.cell, d)}
  IN (IF shape THEN {} ELSE {"numbers of sub-entities"})
     \cup (IF ~shape THEN {} ELSE
            (IF \A x \in All : Increasing(at(x[1], x[2])) THEN {} ELSE {"the DOFs of a sub-entity are not increasing"})
            \cup (IF \A i \in 0..(o.n - 1) : Cardinality({x \in All : \E j \in 1..Len(at(x[1], x[2])) : at(x[1], x[2])[j] = i}) = 1
                     /\ \A x \in All : SetOf(at(x[1], x[2])) \subseteq 0..(o.n - 1)
                  THEN {} ELSE {"the sub-entities do not partition the DOFs"})
            \cup (IF Len(o.ents) = o.n /\ \A i \in 1..Len(o.ents) :
                       LET x == <<o.ents[i][1], o.ents[i][2]>>
                       IN x \in All /\ \E j \in 1..Len(at(x[1], x[2])) : at(x[1], x[2])[j] = i - 1
                  THEN {} ELSE {"dof_entities and entity_dofs differ"})
            \cup (IF ~Symmetric(o) \/ \A x, y \in All : (x[1] = y[1] /\ TypeOf(o.cell, x[1], x[2]) = TypeOf(o.cell, y[1], y[2]))
                       => Len(at(x[1], x[2])) = Len(at(y[1], y[2]))
                  THEN {} ELSE {"sub-entities of the same shape carry different numbers of DOFs"}))

Positions(o) ==
  IF Len(o.dofs) # o.n \/ o.npos # o.n \/ o.ndir # o.n THEN {"numbers of positions or directions"}
  ELSE UNION {LET d == o.dofs[i]
                  e == o.ents[i]
              IN (IF d.off \/ ~Within(o.cell, e[1], e[2], d.pos, d.k # "point") THEN {"plotted position " \o ToString(i - 1) \o " (" \o d.k \o ")"} ELSE {})
                 \cup (IF d.k = "none" \/ (~d.ptoff /\ Within(o.cell, e[1], e[2], d.pt, FALSE)) THEN {} ELSE {"point of DOF " \o ToString(i - 1)})
                 \cup (IF d.dir \in {0, o.gdim, o.rdim} THEN {} ELSE {"length of direction " \o ToString(i - 1)})
             : i \in 1..o.n}
       \cup (IF o.kind = "direct" /\ \E i, j \in 1..o.n : i < j /\ o.dofs[i].pos = o.dofs[j].pos THEN {"two DOFs share a position"} ELSE {})

Verdict(o) == LET a == Partition(o) IN IF a # {} THEN a ELSE Positions(o)

VARIABLES lane, pos, failed
INSTANCE Runner WITH Judge <- Verdict, Obs <- ObsAll, Lanes <- 8
===============================================================================
