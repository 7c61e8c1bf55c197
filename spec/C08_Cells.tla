------------------------------- MODULE C08_Cells -------------------------------
(* Consistency of the reference cells.  Observation kinds (field k):                                   *)
(*  topo      the tables of a cell: tdim, gdim, subs[d + 1] (vertex numbers), cosubs (by codimension),  *)
(*            counts, types[d + 1], refverts, z / zx (drawing orders)                                  *)
(*  sub       a sub-entity obtained from a cell: d, n, type, sverts, kind of vertices used             *)
(*  geom      measures of a cell: jac, jpos, vol, mid, normal, tangent, saxes ("" if not defined)        *)
(*  limits    integration limits and a polynomial                                                     *)
(*  member    a point given by integer local coordinates t / den, and what the predicates say          *)
(*  pred      the point predicates of geometry.py, integer coordinates                                 *)
(*  lattice   lattice points                                                                           *)
(*  inter     intersection of two cells, integer coordinates                                           *)
(*  dual      dual polygon                                                                            *)
EXTENDS Cells, IntGeometry, Json, IOUtils
ObsAll == JsonDeserialize(IOEnv.OBS)

(* ---------- consistency of the tables of the specification itself (evaluated once by TLC) ---------- *)
Full(s) == SetOf(s)
\* every vertex set that is an intersection of two faces is empty, a vertex or a listed edge
TablesOK(c) ==
  /\ Len(DefaultVertices(c)) = NVerts[c]
  /\ c = "point" \/ Euler(c) \/ CellDim[c] < 3
  /\ \A d \in 1..3 : \A n \in 1..Len(SubEntities(c, d)) :
       LET s == SubEntities(c, d)[n] IN \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
  /\ CellDim[c] = 3 =>
       /\ \A e \in SetOf(Edges(c)) : Cardinality({f \in SetOf(Faces(c)) : IsFace(e, f)}) = 2
       /\ \A f \in SetOf(Faces(c)) : Cardinality({e \in SetOf(Edges(c)) : IsFace(e, f)}) = Len(f)
       /\ \A f, g \in SetOf(Faces(c)) : f # g =>
            LET m == Full(f) \cap Full(g)
            IN Cardinality(m) <= 1 \/ \E e \in SetOf(Edges(c)) : Full(e) = m
  /\ CellDim[c] = 2 => \A v \in 0..(NVerts[c] - 1) :
            Cardinality({e \in SetOf(Edges(c)) : v \in Full(e)}) = 2
ASSUME \A c \in CellNames : TablesOK(c)

(* ------------------------------------------- topology ------------------------------------------- *)
SubTypes(c, d) == [n \in 1..Len(SubEntities(c, d)) |-> SubType(c, d, n)]
AllSubs(c) == {<<d, n>> \in (0..3) \X (0..11) : d <= CellDim[c] /\ n < Len(SubEntities(c, d))}
Ordered(z) == LET f == Flat(z) IN {<<f[i][1], f[i][2]>> : i \in 1..Len(f)}
TopoFails(o) ==
  LET c == o.cell
  IN (IF o.tdim = CellDim[c] /\ o.gdim = Len(DefaultVertices(c)[1]) /\ o.name = c THEN {} ELSE {"dimension or name"})
     \cup (IF \A d \in 0..3 : o.subs[d + 1] = SubEntities(c, d) THEN {} ELSE {"sub-entities by dimension"})
     \cup (IF \A d \in 0..CellDim[c] : o.cosubs[d + 1] = SubEntities(c, CellDim[c] - d) THEN {} ELSE {"sub-entities by codimension"})
     \cup (IF \A d \in 0..3 : o.counts[d + 1] = Len(SubEntities(c, d)) THEN {} ELSE {"sub-entity counts"})
     \cup (IF \A d \in 0..CellDim[c] : o.cocounts[d + 1] = Len(SubEntities(c, CellDim[c] - d)) THEN {} ELSE {"sub-entity counts by codimension"})
     \cup (IF \A d \in 0..CellDim[c] : o.types[d + 1] = SubTypes(c, d) THEN {} ELSE {"sub-entity types"})
     \cup (IF o.refverts = DefaultVertices(c) /\ o.defverts = DefaultVertices(c) THEN {} ELSE {"reference vertices"})
     \cup (IF /\ Ordered(o.z) = AllSubs(c) /\ Len(Flat(o.z)) = Cardinality(AllSubs(c))
              /\ Ordered(o.zx) = AllSubs(c) /\ Len(Flat(o.zx)) = Cardinality(AllSubs(c))
           THEN {} ELSE {"drawing order lists every sub-entity once"})
     \cup (IF CellDim[c] # 2 \/ \A i \in 1..Len(o.cw) :
                \E e \in SetOf(Edges(c)) : Full(e) = {o.cw[i], o.cw[(i % Len(o.cw)) + 1]}
           THEN {} ELSE {"vertices in cyclic order"})

SubFails(o) ==
  LET s == SubEntities(o.cell, o.d)[o.n + 1]
  IN (IF o.type = SubType(o.cell, o.d, o.n + 1) THEN {} ELSE {"type of the sub-entity"})
     \cup (IF /\ Len(o.sverts) = Len(s)
              /\ \A i \in 1..Len(s) : o.sverts[i] = o.verts[s[i] + 1] THEN {} ELSE {"vertices of the sub-entity"})

(* ------------------------------------------- measures ------------------------------------------- *)
GeomFails(o) ==
  LET p == o.p
      c == o.cell
      ax == TLCEval(Axes(c, o.verts, p))
      nv == NVerts[c]
      gd == Len(o.verts[1])
  IN (IF o.origin = o.verts[1] /\ o.axes = ax THEN {} ELSE {"origin and axes"})
     \cup (IF \A g \in 1..gd : FMul(nv, o.mid[g], p) = FSum([i \in 1..nv |-> o.verts[i][g]], p) THEN {} ELSE {"midpoint"})
     \cup (IF CellDim[c] = 0 THEN (IF o.vol = 0 THEN {} ELSE {"volume"})
           ELSE (IF FMul(o.jac, o.jac, p) = Det(Gram(ax, p), p) /\ o.jpos THEN {} ELSE {"Jacobian"})
                \cup (IF o.vol = FMul(RefMeasure(c, p), o.jac, p) THEN {} ELSE {"volume"})
                \cup (IF \A k \in 1..Len(ax) : FDot(o.saxes[k], o.saxes[k], p) = 1
                          /\ \A i, j \in 1..gd : FMul(o.saxes[k][i], ax[k][j], p) = FMul(o.saxes[k][j], ax[k][i], p)
                          /\ o.spos[k]
                      THEN {} ELSE {"unit axes"}))
     \cup (IF o.normal = <<>> THEN {}
           ELSE (IF \A k \in 1..Len(ax) : FDot(o.normal, ax[k], p) = 0 THEN {} ELSE {"normal orthogonal to the facet"})
                \cup (IF FDot(o.normal, o.normal, p) = 1 THEN {} ELSE {"normal has unit length"})
                \cup (IF VScale(o.jac, o.normal, p) = RawNormal(ax, p) THEN {} ELSE {"orientation of the normal"}))
     \cup (IF o.tangent = <<>> THEN {}
           ELSE IF VScale(o.jac, o.tangent, p) = ax[1] THEN {} ELSE {"tangent"})
     \cup (IF (o.normal = <<>>) = ~ (CellDim[c] = gd - 1 /\ CellDim[c] \in {1, 2}) THEN {} ELSE {"normal defined exactly on facets"})
     \cup (IF (o.tangent = <<>>) = ~ (CellDim[c] = 1) THEN {} ELSE {"tangent defined exactly on intervals"})

(* -------------------------------------- integration limits -------------------------------------- *)
(* polynomials in three variables as sequences of terms; limits <<variable, low, high>> are applied in *)
(* the given order, innermost first                                                                   *)
PMulT(s, t, p) == Flat(TLCEval([i \in 1..Len(s) |-> TLCEval([j \in 1..Len(t) |->
     << (s[i][1] * t[j][1]) % p, s[i][2] + t[j][2], s[i][3] + t[j][3], s[i][4] + t[j][4] >>])]))
RECURSIVE PPowT(_, _, _)
PPowT(s, n, p) == IF n = 0 THEN << <<1, 0, 0, 0>> >> ELSE PMulT(s, PPowT(s, n - 1, p), p)
NegT(s, p) == TLCEval([i \in 1..Len(s) |-> << FNeg(s[i][1], p), s[i][2], s[i][3], s[i][4] >>])
Without(x, v) == << x[1], IF v = 1 THEN 0 ELSE x[2], IF v = 2 THEN 0 ELSE x[3], IF v = 3 THEN 0 ELSE x[4] >>
IntTerm(x, lim, p) ==
  LET v == lim[1]
      e == x[v + 1] + 1
      base == << FMul(x[1], FInv(e, p), p), Without(x, v)[2], Without(x, v)[3], Without(x, v)[4] >>
  IN PMulT(<<base>>, TLCEval(PPowT(lim[3], e, p) \o NegT(PPowT(lim[2], e, p), p)), p)
IntLim(f, lim, p) == TLCEval(Flat(TLCEval([i \in 1..Len(f) |-> IntTerm(f[i], lim, p)])))
IntAll(f, lims, p) == FoldLeft(LAMBDA a, l : IntLim(a, l, p), f, lims)
LimitsFails(o) ==
  LET p == o.p
      r == RefRule(o.cell, IF PolyDeg(o.f) = 0 THEN 1 ELSE PolyDeg(o.f), p)
      rest == IntAll(o.f, o.lims, p)
      exact == FSum(TLCEval([i \in 1..Len(r) |-> FMul(r[i][2], EvT(o.f, PTab(r[i][1], MaxPow, p), p), p)]), p)
  IN IF Len(o.lims) # CellDim[o.cell] THEN {"number of integration limits"}
     ELSE IF \A i \in 1..Len(rest) : rest[i][2] = 0 /\ rest[i][3] = 0 /\ rest[i][4] = 0
     THEN IF FSum(TLCEval([i \in 1..Len(rest) |-> rest[i][1]]), p) = exact THEN {} ELSE {"integral with the limits"}
     ELSE {"limits leave a free variable"}

(* ------------------------------------------- membership ----------------------------------------- *)
(* local integer coordinates t over a common denominator den *)
InRef(c, t, den) ==
  CASE c = "point" -> TRUE
    [] c \in {"interval", "quadrilateral", "hexahedron"} -> \A i \in 1..Len(t) : 0 <= t[i] /\ t[i] <= den
    [] c \in {"triangle", "tetrahedron"} -> (\A i \in 1..Len(t) : 0 <= t[i]) /\ SumS(t) <= den
    [] c = "prism" -> t[1] >= 0 /\ t[2] >= 0 /\ t[1] + t[2] <= den /\ 0 <= t[3] /\ t[3] <= den
    [] OTHER -> t[1] >= 0 /\ t[2] >= 0 /\ t[3] >= 0 /\ t[1] + t[3] <= den /\ t[2] + t[3] <= den
Strict(c, t, den) ==
  CASE c = "point" -> TRUE
    [] c \in {"interval", "quadrilateral", "hexahedron"} -> \A i \in 1..Len(t) : 0 < t[i] /\ t[i] < den
    [] c \in {"triangle", "tetrahedron"} -> (\A i \in 1..Len(t) : 0 < t[i]) /\ SumS(t) < den
    [] c = "prism" -> t[1] > 0 /\ t[2] > 0 /\ t[1] + t[2] <= den /\ 0 < t[3] /\ t[3] < den
    [] OTHER -> t[1] > 0 /\ t[2] > 0 /\ t[3] > 0 /\ t[1] + t[3] < den /\ t[2] + t[3] < den
RV(c, v, den) == [i \in 1..CellDim[c] |-> den * DefaultVertices(c)[v + 1][i]]
IsVertex(c, t, den) == \E v \in 0..(NVerts[c] - 1) : t = RV(c, v, den)
OnSegment(c, e, t, den) ==
  \E s \in 0..den : \A i \in 1..Len(t) :
     t[i] = RV(c, e[1], den)[i] + s * (DefaultVertices(c)[e[2] + 1][i] - DefaultVertices(c)[e[1] + 1][i])
OnEdgeOf(c, t, den) == \E n \in 1..Len(Edges(c)) : OnSegment(c, Edges(c)[n], t, den)
InPlane(c, f, t, den) ==
  LET d == DefaultVertices(c)
      n == ICross(ISub(d[f[2] + 1], d[f[1] + 1]), ISub(d[f[3] + 1], d[f[1] + 1]))
  IN IDot(n, ISub(t, RV(c, f[1], den))) = 0
OnFaceOf(c, t, den) == IF CellDim[c] = 2 THEN InRef(c, t, den)
                       ELSE InRef(c, t, den) /\ \E n \in 1..Len(Faces(c)) : InPlane(c, Faces(c)[n], t, den)
MemberFails(o) ==
  (IF o.pt = At(o.verts[1], Axes(o.cell, o.verts, o.p), [i \in 1..Len(o.t) |-> FDiv(o.t[i] % o.p, o.den, o.p)], o.p)
   THEN {} ELSE {"observer: point"})
  \cup (IF o.contains \in {"refused", IF InRef(o.cell, o.t, o.den) THEN "yes" ELSE "no"} THEN {} ELSE {"contains"})
  \cup (IF o.contains # "refused" \/ ~ o.def THEN {} ELSE {"contains refused on the reference cell"})
  \cup (IF o.vertex = (IF IsVertex(o.cell, o.t, o.den) THEN "yes" ELSE "no") THEN {} ELSE {"at_vertex"})
  \cup (IF o.edge \in {"refused", IF OnEdgeOf(o.cell, o.t, o.den) THEN "yes" ELSE "no"} THEN {} ELSE {"on_edge"})
  \cup (IF o.face \in {"refused", IF OnFaceOf(o.cell, o.t, o.den) THEN "yes" ELSE "no"} THEN {} ELSE {"on_face"})

(* ------------------------------------ predicates of geometry.py ---------------------------------- *)
PredFails(o) == IF o.ans = InCell(o.cell, o.v, o.q) THEN {} ELSE {"point_in_" \o o.cell}

(* -------------------------------------------- lattices ------------------------------------------- *)
\* pts: residues; ts, den: local integer coordinates; lines: TRUE for the lattice with lines
LatticeFails(o) ==
  LET p == o.p
      m == Len(o.ts)
      ax == TLCEval(Axes(o.cell, o.verts, p))
      di == FInv(o.den, p)
  IN (IF \A i \in 1..m : o.pts[i] = At(o.verts[1], ax, [k \in 1..Len(o.ts[i]) |-> FMul(o.ts[i][k] % p, di, p)], p)
      THEN {} ELSE {"observer: lattice coordinates"})
     \cup (IF m > 0 THEN {} ELSE {"lattice is empty"})
     \cup (IF Cardinality(SetOf(o.ts)) = m THEN {} ELSE {"lattice points are distinct"})
     \cup (IF ~ o.floats THEN {"floating-point lattice agrees"} ELSE {})
     \cup (IF ~ o.lines
           THEN IF \A i \in 1..m : Strict(o.cell, o.ts[i], o.den) THEN {} ELSE {"lattice points inside the cell"}
           ELSE (IF \A i \in 1..m : InRef(o.cell, o.ts[i], o.den) THEN {} ELSE {"lattice points in the cell"})
                \cup (IF \A v \in 0..(NVerts[o.cell] - 1) : RV(o.cell, v, o.den) \in SetOf(o.ts) THEN {} ELSE {"lattice includes the vertices"})
                \cup (IF \A e \in 1..Len(Edges(o.cell)) :
                          Cardinality({i \in 1..m : OnSegment(o.cell, Edges(o.cell)[e], o.ts[i], o.den)}) = o.n
                      THEN {} ELSE {"number of lattice points along each edge"})
                \cup (IF \A i \in 1..Len(o.pairs) : o.pairs[i][1] # o.pairs[i][2]
                          /\ o.pairs[i][1] \in 0..(m - 1) /\ o.pairs[i][2] \in 0..(m - 1) THEN {} ELSE {"lattice lines join lattice points"})
                \cup (IF Cardinality({{o.pairs[i][1], o.pairs[i][2]} : i \in 1..Len(o.pairs)}) = Len(o.pairs) THEN {} ELSE {"lattice lines are distinct"})
                \cup (LET reach(S) == S \cup {j \in 0..(m - 1) : \E i \in 1..Len(o.pairs) :
                                       (o.pairs[i][1] = j /\ o.pairs[i][2] \in S) \/ (o.pairs[i][2] = j /\ o.pairs[i][1] \in S)}
                          all == FoldLeft(LAMBDA a, i : TLCEval(reach(a)), {0}, [i \in 1..m |-> i])
                      IN IF Cardinality(all) = m THEN {} ELSE {"lattice lines mesh the cell"}))

(* ------------------------------------------ intersections ---------------------------------------- *)
CornerIn(w, v, q) == InCell(w, v, q)
ContainsAll(w, v, qs) == \A i \in 1..Len(qs) : InCell(w, v, qs[i])
Loop(w, v) == IF w = "quadrilateral" THEN << v[1], v[2], v[4], v[3] >> ELSE v
Separates(a, b, vs, ws) == \* the line through a and b has all vs on one closed side and all ws on the other
  \/ (\A i \in 1..Len(vs) : Orient2(a, b, vs[i]) >= 0) /\ (\A i \in 1..Len(ws) : Orient2(a, b, ws[i]) <= 0)
  \/ (\A i \in 1..Len(vs) : Orient2(a, b, vs[i]) <= 0) /\ (\A i \in 1..Len(ws) : Orient2(a, b, ws[i]) >= 0)
Disjoint2(o) ==
  LET l1 == Loop(o.c1, o.v1)
      l2 == Loop(o.c2, o.v2)
  IN \/ \E i \in 1..Len(l1) : Separates(l1[i], l1[(i % Len(l1)) + 1], l1, l2)
     \/ \E i \in 1..Len(l2) : Separates(l2[i], l2[(i % Len(l2)) + 1], l1, l2)
FacePlane(v, f, vs, ws) ==
  LET s(q) == Orient3(v[f[1]], v[f[2]], v[f[3]], q)
  IN \/ (\A i \in 1..Len(vs) : s(vs[i]) >= 0) /\ (\A i \in 1..Len(ws) : s(ws[i]) <= 0)
     \/ (\A i \in 1..Len(vs) : s(vs[i]) <= 0) /\ (\A i \in 1..Len(ws) : s(ws[i]) >= 0)
Tri4 == << <<1,2,3>>, <<1,2,4>>, <<1,3,4>>, <<2,3,4>> >>
Disjoint3(o) == \E k \in 1..4 : FacePlane(o.v1, Tri4[k], o.v1, o.v2) \/ FacePlane(o.v2, Tri4[k], o.v1, o.v2)
InterFails(o) ==
  CASE o.ans = "refused" -> {}
    [] o.ans = "first" -> IF ContainsAll(o.c2, o.v2, o.v1) THEN {} ELSE {"intersection is the first cell"}
    [] o.ans = "second" -> IF ContainsAll(o.c1, o.v1, o.v2) THEN {} ELSE {"intersection is the second cell"}
    [] o.ans = "none" -> IF (Len(o.v1[1]) = 2 /\ Disjoint2(o)) \/ (Len(o.v1[1]) = 3 /\ Disjoint3(o)) THEN {} ELSE {"cells reported disjoint"}
    [] OTHER -> {"intersection is neither of the cells"}

(* ------------------------------------------- dual polygons --------------------------------------- *)
DualFails(o) ==
  LET p == o.p
      m == 2 * o.n
      v(i) == o.verts[((i - 1) % m) + 1]
  IN (IF Len(o.verts) = m /\ o.edges = [i \in 1..m |-> << i - 1, i % m >>] /\ o.faces = << [i \in 1..m |-> i - 1] >>
      THEN {} ELSE {"edges and faces of the dual polygon"})
     \cup (IF \A k \in 1..o.n : FDot(v(2 * k - 1), v(2 * k - 1), p) = 1 THEN {} ELSE {"dual polygon vertices on the unit circle"})
     \cup (IF \A k \in 1..o.n : \A g \in 1..2 : FMul(2, v(2 * k)[g], p) = (v(2 * k - 1)[g] + v(2 * k + 1)[g]) % p THEN {} ELSE {"dual polygon midpoints"})
     \cup (IF o.n < 3 \/ \A k \in 1..o.n : FDot(v(2 * k - 1), v(2 * k + 1), p) = FDot(v(1), v(3), p)
                   /\ M2(v(2 * k - 1)[1], v(2 * k - 1)[2], v(2 * k + 1)[1], v(2 * k + 1)[2], p) = M2(v(1)[1], v(1)[2], v(3)[1], v(3)[2], p)
           THEN {} ELSE {"dual polygon is regular"})
     \cup (IF v(1) = <<1, 0>> /\ o.origin = <<0, 0>> THEN {} ELSE {"first vertex and origin of the dual polygon"})
     \cup (IF o.counts = << m, m, 1, 0 >> /\ o.types = << "point", "interval", "dual polygon(" \o ToString(o.n) \o ")" >> THEN {} ELSE {"sub-entities of the dual polygon"})
     \cup (IF \A i \in 1..m : o.everts[i] = << v(i), v(i + 1) >> THEN {} ELSE {"edge of the dual polygon"})
     \cup (IF o.custom THEN {} ELSE {"dual polygon with given vertices"})
     \cup (IF o.lat = o.latexp THEN {} ELSE {"lattice of the dual polygon"})

Verdict(o) ==
  CASE o.k = "topo" -> TopoFails(o)
    [] o.k = "sub" -> SubFails(o)
    [] o.k = "geom" -> GeomFails(o)
    [] o.k = "limits" -> LimitsFails(o)
    [] o.k = "member" -> MemberFails(o)
    [] o.k = "pred" -> PredFails(o)
    [] o.k = "lattice" -> LatticeFails(o)
    [] o.k = "inter" -> InterFails(o)
    [] OTHER -> DualFails(o)

VARIABLES lane, pos, failed
INSTANCE Runner WITH Judge <- Verdict, Obs <- ObsAll, Lanes <- 8
===============================================================================
