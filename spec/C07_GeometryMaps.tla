--------------------------- MODULE C07_GeometryMaps ---------------------------
(* The maps between the reference cell and a cell with given vertices.                                *)
(* Observation: p, cell, verts (residues), affine, fwd (components of the recorded forward map), inv   *)
(* (components of the recorded inverse, <<>> if refused), ts (local points), cverts, corigin, caxes     *)
(* (what a cell created with these vertices reports), gp (its get_point at the ts), poly (a function on *)
(* the reference cell), mpoly (that function as mapped by the implementation, <<>> if not offered).     *)
EXTENDS Cells, Json, IOUtils
ObsAll == JsonDeserialize(IOEnv.OBS)

EvMap(m, pt, p) == LET tab == PTab(pt, MaxPow, p) IN TLCEval([i \in 1..Len(m) |-> EvC(m[i], tab, p)])
IsAffineMap(m) == \A i \in 1..Len(m) : m[i][2] = <<>> /\ PolyDeg(m[i][1]) <= 1
Phys(o, t) == At(o.verts[1], Axes(o.cell, o.verts, o.p), t, o.p)
Res(v, p) == TLCEval([i \in 1..Len(v) |-> v[i] % p])

Verdict(o) ==
  LET p == o.p
      dv == DefaultVertices(o.cell)
      nv == NVerts[o.cell]
      fw(t) == EvMap(o.fwd, t, p)
      iv(q) == EvMap(o.inv, q, p)
  IN (IF o.affine = IsAffine(o.cell, o.verts, p) THEN {} ELSE {"observer: affinity"})
     \cup (IF Len(o.fwd) = Len(o.verts[1]) THEN {} ELSE {"number of components of the map"})
     \cup (IF \A i \in 1..nv : fw(dv[i]) = o.verts[i] THEN {} ELSE {"map sends reference vertex to cell vertex"})
     \cup (IF Len(o.cverts) = nv /\ \A i \in 1..nv : o.cverts[i] = o.verts[i] THEN {} ELSE {"vertices of the created cell"})
     \cup (IF ~ o.affine THEN {} ELSE
        (IF IsAffineMap(o.fwd) THEN {} ELSE {"map is affine"})
        \cup (IF \A i \in 1..Len(o.ts) : fw(o.ts[i]) = Phys(o, o.ts[i]) THEN {} ELSE {"map at interior points"})
        \cup (IF o.corigin = o.verts[1] /\ o.caxes = Axes(o.cell, o.verts, p) THEN {} ELSE {"origin and axes of the created cell"})
        \cup (IF \A i \in 1..Len(o.ts) : o.gp[i] = Phys(o, o.ts[i]) THEN {} ELSE {"point from local coordinates"})
        \cup (IF o.inv = <<>> /\ CellDim[o.cell] > 0 THEN {"inverse map refused"}
              ELSE
                (IF Len(o.inv) = CellDim[o.cell] THEN {} ELSE {"number of components of the inverse map"})
                \cup (IF IsAffineMap(o.inv) THEN {} ELSE {"inverse map is affine"})
                \cup (IF \A i \in 1..nv : iv(o.verts[i]) = Res(dv[i], p) THEN {} ELSE {"inverse sends cell vertex to reference vertex"})
                \cup (IF \A i \in 1..Len(o.ts) : iv(Phys(o, o.ts[i])) = o.ts[i] THEN {} ELSE {"inverse after map is the identity"})
                \cup (IF \A i \in 1..Len(o.ts) : fw(iv(Phys(o, o.ts[i]))) = Phys(o, o.ts[i]) THEN {} ELSE {"map after inverse is the identity on the cell"}))
        \cup (IF o.mpoly = <<>> THEN {}
              ELSE IF \A i \in 1..Len(o.ts) : \A k \in 1..Len(o.poly) :
                       EvC(o.mpoly[k], PTab(Phys(o, o.ts[i]), MaxPow, p), p) = EvC(o.poly[k], PTab(o.ts[i], MaxPow, p), p)
                   THEN {} ELSE {"functions mapped from the default cell"}))

VARIABLES lane, pos, failed
INSTANCE Runner WITH Judge <- Verdict, Obs <- ObsAll, Lanes <- 8
===============================================================================
