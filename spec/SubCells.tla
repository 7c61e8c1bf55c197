-------------------------------- MODULE SubCells --------------------------------
(* Cells subdivided into pieces: tilings (in integers), the splits of the macro elements, and the         *)
(* regularity of their functions across the internal interfaces (over a prime field).                     *)
EXTENDS Spaces

(* ------------------------------------------------------------------ tilings, in scaled integers *)
ISub(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] - b[i]])
IDet(m) == CASE Len(m) = 1 -> m[1][1]
             [] Len(m) = 2 -> m[1][1] * m[2][2] - m[1][2] * m[2][1]
             [] OTHER -> m[1][1] * (m[2][2] * m[3][3] - m[2][3] * m[3][2])
                         - m[1][2] * (m[2][1] * m[3][3] - m[2][3] * m[3][1])
                         + m[1][3] * (m[2][1] * m[3][2] - m[2][2] * m[3][1])
IAbs(x) == IF x < 0 THEN -x ELSE x
(* number of corners tells the shape of a piece: a simplex, or a quadrilateral in tensor-product order *)
IsSimp(v) == Len(v) = Len(v[1]) + 1
AxIdx(v) == IF IsSimp(v) THEN [i \in 1..Len(v[1]) |-> i + 1] ELSE << 2, 3 >>
IVol(v) == \* times d! : the (scaled) volume of the simplex, twice that of the parallelogram
  (IF IsSimp(v) THEN 1 ELSE 2) * IAbs(IDet(TLCEval([i \in 1..Len(v[1]) |-> ISub(v[AxIdx(v)[i]], v[1])])))
Parallel(v) == IsSimp(v) \/ ISub(v[4], v[3]) = ISub(v[2], v[1])
IFacets(v) == \* sets of vertices
  IF IsSimp(v) THEN {SetOf(v) \ {v[i]} : i \in 1..Len(v)}
  ELSE {{v[1], v[2]}, {v[1], v[3]}, {v[2], v[4]}, {v[3], v[4]}}
(* which side of the hyperplane through the facet (a sequence of d points) a point lies on *)
ISide(f, x) == LET d == Len(x)
               IN IDet(TLCEval([i \in 1..d |-> IF i < d THEN ISub(f[i + 1], f[1]) ELSE ISub(x, f[1])]))
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
SideOf(fs, v) == \* side on which the piece lies
  LET s == {Sgn(ISide(fs, v[i])) : i \in {i \in 1..Len(v) : v[i] \notin SetOf(fs)}}
  IN IF Cardinality(s) = 1 THEN CHOOSE x \in s : TRUE ELSE 0

(* The pieces tile the cell: every facet of every piece is shared with exactly one other piece, on the    *)
(* other side of it, or lies in a facet of the cell, and the volumes add up.  (The number of pieces over  *)
(* a point is then constant inside the cell, and on average one.)                                         *)
TileFails(cellv, pcs) ==
  LET np == Len(pcs)
      owners(f) == {q \in 1..np : f \in IFacets(pcs[q])}
      boundary(f) == \E g \in IFacets(cellv) : LET gs == SetToSeq(g) IN \A x \in f : ISide(gs, x) = 0
      inside(x) == \A g \in IFacets(cellv) : LET gs == SetToSeq(g) IN Sgn(ISide(gs, x)) \in {0, SideOf(gs, cellv)}
      fine(q, f) == LET ow == owners(f) \ {q}
                        fs == SetToSeq(f)
                    IN \/ boundary(f) /\ ow = {}
                       \/ /\ ~boundary(f) /\ Cardinality(ow) = 1
                          /\ LET r == CHOOSE r \in ow : TRUE
                             IN SideOf(fs, pcs[q]) # 0 /\ SideOf(fs, pcs[q]) = -SideOf(fs, pcs[r])
  IN (IF \A q \in 1..np : Len(pcs[q][1]) = Len(cellv[1]) /\ Parallel(pcs[q]) /\ IVol(pcs[q]) > 0 THEN {} ELSE {"degenerate piece"})
     \cup (IF \A q \in 1..np : \A x \in SetOf(pcs[q]) : inside(x) THEN {} ELSE {"a piece leaves the cell"})
     \cup (IF \A q \in 1..np : \A f \in IFacets(pcs[q]) : fine(q, f) THEN {} ELSE {"pieces overlap or leave gaps"})
     \cup (IF FoldLeft(LAMBDA a, q : a + IVol(pcs[q]), 0, [q \in 1..np |-> q]) = IVol(cellv) THEN {}
           ELSE {"volumes of the pieces do not add up"})

(* the splits; coordinates are multiples of 12 *)
ISum(S) == LET s == SetToSeq(S) IN FoldLeft(LAMBDA a, x : TLCEval([i \in 1..Len(a) |-> a[i] + x[i]]), [i \in 1..Len(s[1]) |-> 0], s)
IMean(S) == LET t == ISum(S) IN TLCEval([i \in 1..Len(t) |-> t[i] \div Cardinality(S)])
Alfeld(v) == {{IMean(SetOf(v))} \cup (SetOf(v) \ {v[i]}) : i \in 1..Len(v)}
Halves(v) == {{v[i], IMean(SetOf(v))} : i \in 1..2}
Red(v) == {{v[i]} \cup {IMean({v[i], v[k]}) : k \in (1..3) \ {i}} : i \in 1..3}
          \cup {{IMean({v[i], v[k]}) : <<i, k>> \in {<<1, 2>>, <<1, 3>>, <<2, 3>>}}}
Quarter(v) == LET nb == << <<2, 3>>, <<1, 4>>, <<1, 4>>, <<2, 3>> >>
              IN {{v[i], IMean({v[i], v[nb[i][1]]}), IMean({v[i], v[nb[i][2]]}), IMean(SetOf(v))} : i \in 1..4}
SplitOf(fam, v) ==
  IF fam = "P1-iso-P2" THEN CASE Len(v) = 2 -> Halves(v) [] Len(v) = 3 -> Red(v) [] OTHER -> Quarter(v)
  ELSE Alfeld(v)

(* ------------------------------------------------------------------ regularity *)
(* the operators that agree on both sides of every interface, and one that does not for all functions     *)
Smooth(fam, d, k) ==
  LET vals == [i \in 1..d |-> Val(Unit(i, d))]
      grads == [i \in 1..d |-> << << Dv(i), <<1>> >> >>]
  IN CASE fam \in {"Hsieh-Clough-Tocher", "reduced Hsieh-Clough-Tocher"} -> << Val(<<1>>) >> \o grads
       [] fam \in {"P1 macro", "P1-iso-P2"} -> << Val(<<1>>) >>
       [] fam = "Alfeld-Sorokina" -> vals \o << DivL(d) >>
       [] fam = "Guzman-Neilan" -> vals
       [] OTHER -> <<>>
Dij(i, j) == << << 1, [v \in 1..3 |-> (IF v = i THEN 1 ELSE 0) + (IF v = j THEN 1 ELSE 0)] >> >>
Rough(fam, d) == \* together these never all agree
  CASE fam \in {"Hsieh-Clough-Tocher", "reduced Hsieh-Clough-Tocher"} ->
         << << << Dij(1, 1), <<1>> >> >>, << << Dij(1, 2), <<1>> >> >>, << << Dij(2, 2), <<1>> >> >> >>
    [] fam \in {"P1 macro", "P1-iso-P2"} -> [i \in 1..d |-> << << Dv(i), <<1>> >> >>]
    [] OTHER -> Flat([i \in 1..d |-> [c \in 1..d |-> << << Dv(i), Unit(c, d) >> >>]])

(* L applied to all recorded functions of a piece at a point *)
OpAt(pc, L, pt, p) ==
  LET mv(t, c) == TLCEval([m \in 1..Len(pc.m[c]) |->
                    FSum(TLCEval([i \in 1..Len(t[1]) |-> FMul(t[1][i][1], DMonAt(pc.m[c][m], t[1][i][2], pt, p), p)]), p)])
      w == TLCEval([i \in 1..Len(L) |-> TLCEval([c \in 1..Len(pc.m) |-> IF L[i][2][c] = 0 THEN <<>> ELSE VScale(L[i][2][c], mv(L[i], c), p)])])
  IN TLCEval([f \in 1..Len(pc.c) |->
       FSum(TLCEval([i \in 1..Len(L) |-> FSum(TLCEval([c \in 1..Len(pc.m) |->
            IF w[i][c] = <<>> THEN 0 ELSE FDot(pc.c[f][c], w[i][c], p)]), p)]), p)])
(* a point of the interface with the given weights *)
OnFace(vs, ws, p) ==
  LET last == (1 - FSum(TLCEval([i \in 1..(Len(vs) - 1) |-> ws[i]]), p)) % p
  IN TLCEval([c \in 1..Len(vs[1]) |->
       (FSum(TLCEval([i \in 1..(Len(vs) - 1) |-> FMul(ws[i], vs[i][c], p)]), p) + FMul(last, vs[Len(vs)][c], p)) % p])
RegularFails(o) ==
  LET p == o.p
      d == CellDim[o.cell]
      fs == Ifaces(o)
      sm == Smooth(o.fam, d, o.order)
      ro == Rough(o.fam, d)
      jump(f, L, ws) ==
        LET sh == Shared(o.pieces[f[1]].v, o.pieces[f[2]].v)
            pt == OnFace(sh, ws, p)
        IN OpAt(o.pieces[f[1]], L, pt, p) # OpAt(o.pieces[f[2]], L, pt, p)
      pts == 1..Len(o.ws)
  IN (IF fs = <<>> THEN {"no interfaces between the pieces"} ELSE {})
     \cup UNION {IF \E f \in SetOf(fs) : \E k \in pts : jump(f, sm[l], o.ws[k])
                 THEN {IF l = 1 THEN "functions jump across an interface"
                       ELSE "functions are not as regular across an interface as the element is defined to be"}
                 ELSE {} : l \in 1..Len(sm)}
     \cup (IF o.piola \/ \E f \in SetOf(fs) : \E l \in 1..Len(ro) : jump(f, ro[l], o.ws[1]) THEN {}
           ELSE {"functions are more regular than the macro element"})
================================================================================
