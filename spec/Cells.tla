--------------------------------- MODULE Cells ---------------------------------
(* Combinatorics and affine geometry of the reference cells.  Vertices are numbered from 0 as in the   *)
(* documentation of the library; a sub-entity is the increasing sequence of its vertices.              *)
EXTENDS Poly

CellNames == {"point", "interval", "triangle", "tetrahedron", "quadrilateral", "hexahedron", "prism", "pyramid"}
CellDim == [point |-> 0, interval |-> 1, triangle |-> 2, tetrahedron |-> 3, quadrilateral |-> 2,
            hexahedron |-> 3, prism |-> 3, pyramid |-> 3]
NVerts == [point |-> 1, interval |-> 2, triangle |-> 3, tetrahedron |-> 4, quadrilateral |-> 4,
           hexahedron |-> 8, prism |-> 6, pyramid |-> 5]

DefaultVertices(c) ==
  CASE c = "point" -> << <<>> >>
    [] c = "interval" -> << <<0>>, <<1>> >>
    [] c = "triangle" -> << <<0,0>>, <<1,0>>, <<0,1>> >>
    [] c = "quadrilateral" -> << <<0,0>>, <<1,0>>, <<0,1>>, <<1,1>> >>
    [] c = "tetrahedron" -> << <<0,0,0>>, <<1,0,0>>, <<0,1,0>>, <<0,0,1>> >>
    [] c = "hexahedron" -> << <<0,0,0>>, <<1,0,0>>, <<0,1,0>>, <<1,1,0>>, <<0,0,1>>, <<1,0,1>>, <<0,1,1>>, <<1,1,1>> >>
    [] c = "prism" -> << <<0,0,0>>, <<1,0,0>>, <<0,1,0>>, <<0,0,1>>, <<1,0,1>>, <<0,1,1>> >>
    [] OTHER -> << <<0,0,0>>, <<1,0,0>>, <<0,1,0>>, <<1,1,0>>, <<0,0,1>> >>

(* vertices (0-based) whose offsets from vertex 0 span the cell *)
AxisVerts(c) ==
  CASE c = "point" -> <<>>
    [] c = "interval" -> <<1>>
    [] c = "triangle" \/ c = "quadrilateral" -> <<1, 2>>
    [] c = "tetrahedron" \/ c = "prism" -> <<1, 2, 3>>
    [] OTHER -> <<1, 2, 4>>

(* coordinates of every vertex with respect to vertex 0 and the axes *)
Bary(c) == DefaultVertices(c)

Edges(c) ==
  CASE c = "point" -> <<>>
    [] c = "interval" -> << <<0,1>> >>
    [] c = "triangle" -> << <<1,2>>, <<0,2>>, <<0,1>> >>
    [] c = "tetrahedron" -> << <<2,3>>, <<1,3>>, <<1,2>>, <<0,3>>, <<0,2>>, <<0,1>> >>
    [] c = "quadrilateral" -> << <<0,1>>, <<0,2>>, <<1,3>>, <<2,3>> >>
    [] c = "hexahedron" -> << <<0,1>>, <<0,2>>, <<0,4>>, <<1,3>>, <<1,5>>, <<2,3>>, <<2,6>>, <<3,7>>, <<4,5>>, <<4,6>>, <<5,7>>, <<6,7>> >>
    [] c = "prism" -> << <<0,1>>, <<0,2>>, <<0,3>>, <<1,2>>, <<1,4>>, <<2,5>>, <<3,4>>, <<3,5>>, <<4,5>> >>
    [] OTHER -> << <<0,1>>, <<0,2>>, <<0,4>>, <<1,3>>, <<1,4>>, <<2,3>>, <<2,4>>, <<3,4>> >>
Faces(c) ==
  CASE c = "point" \/ c = "interval" -> <<>>
    [] c = "triangle" -> << <<0,1,2>> >>
    [] c = "quadrilateral" -> << <<0,1,2,3>> >>
    [] c = "tetrahedron" -> << <<1,2,3>>, <<0,2,3>>, <<0,1,3>>, <<0,1,2>> >>
    [] c = "hexahedron" -> << <<0,1,2,3>>, <<0,1,4,5>>, <<0,2,4,6>>, <<1,3,5,7>>, <<2,3,6,7>>, <<4,5,6,7>> >>
    [] c = "prism" -> << <<0,1,2>>, <<0,1,3,4>>, <<0,2,3,5>>, <<1,2,4,5>>, <<3,4,5>> >>
    [] OTHER -> << <<0,1,2,3>>, <<0,1,4>>, <<0,2,4>>, <<1,3,4>>, <<2,3,4>> >>
Volumes(c) == IF CellDim[c] < 3 THEN <<>> ELSE << [i \in 1..NVerts[c] |-> i - 1] >>
SubEntities(c, d) == CASE d = 0 -> [i \in 1..NVerts[c] |-> <<i - 1>>]
                       [] d = 1 -> Edges(c)
                       [] d = 2 -> Faces(c)
                       [] OTHER -> Volumes(c)
SubType(c, d, n) == \* type of sub-entity number n (from 1)
  CASE d = 0 -> "point"
    [] d = 1 -> "interval"
    [] d = 2 -> IF Len(SubEntities(c, 2)[n]) = 3 THEN "triangle" ELSE "quadrilateral"
    [] OTHER -> c

(* combinatorial consistency of the tables, checked by Cells_check *)
IsFace(a, b) == \A i \in 1..Len(a) : \E j \in 1..Len(b) : a[i] = b[j]
SetOf(s) == {s[i] : i \in 1..Len(s)}
Euler(c) == Len(SubEntities(c, 0)) - Len(Edges(c)) + Len(Faces(c)) - Len(Volumes(c)) = 1

(* geometry in GF(p): verts is the sequence of vertex coordinates of the cell *)
SubVerts(c, verts, d, n) == LET s == SubEntities(c, d)[n] IN TLCEval([i \in 1..Len(s) |-> verts[s[i] + 1]])
Axes(c, verts, p) == LET a == AxisVerts(c)
                     IN TLCEval([k \in 1..Len(a) |-> TLCEval(VSub(verts[a[k] + 1], verts[1], p))])
(* the vertices are an affine image of the reference vertices *)
IsAffine(c, verts, p) ==
  \A i \in 1..NVerts[c] : \A g \in 1..Len(verts[1]) :
     verts[i][g] = (verts[1][g] + FSum([k \in 1..CellDim[c] |-> (Bary(c)[i][k] * Axes(c, verts, p)[k][g]) % p], p)) % p
(* point with local coordinates t *)
At(o, ax, t, p) == IF Len(ax) = 0 THEN o
                   ELSE TLCEval([g \in 1..Len(o) |-> (o[g] + FSum([k \in 1..Len(ax) |-> (t[k] * ax[k][g]) % p], p)) % p])
Gram(ax, p) == TLCEval([i \in 1..Len(ax) |-> TLCEval([j \in 1..Len(ax) |-> FDot(ax[i], ax[j], p)])])
(* scaled normal of a facet with the orientation of its axes *)
RawNormal(ax, p) == IF Len(ax) = 1 THEN << FNeg(ax[1][2], p), ax[1][1] >> ELSE Cross3(ax[1], ax[2], p)
RefMeasure(c, p) == CASE c = "triangle" \/ c = "prism" -> FInv(2, p)
                      [] c = "tetrahedron" -> FInv(6, p)
                      [] c = "pyramid" -> FInv(3, p)
                      [] OTHER -> 1
===============================================================================
