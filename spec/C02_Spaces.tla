------------------------------- MODULE C02_Spaces -------------------------------
(* One observation is one element: p, fam, cell, verts, order, default, n (advertised dimension), the    *)
(* recorded functions sh, pieces, smp (random functionals: per piece a point, in cell coordinates on the *)
(* single piece of an ordinary element, and component weights), cs, gs (random coefficients), the        *)
(* degrees the element reports (NR: not reported, NONE), split: number of leading functions that form    *)
(* the first part of an element that is a sum of two.                                                    *)
EXTENDS Spaces, Json, IOUtils
ObsAll == JsonDeserialize(IOEnv.OBS)
NR == -99
NONE == -98

One(o) == Len(o.pieces) = 1
(* physical point of a sample on piece q *)
Phys(o, s, q) == IF ~One(o) \/ o.default THEN s[q].pt
                 ELSE LET ax == Axes(o.cell, o.verts, o.p)
                      IN TLCEval([i \in 1..Len(o.verts[1]) |->
                            (o.verts[1][i] + FDot(s[q].pt, TLCEval([a \in 1..Len(ax) |-> ax[a][i]]), o.p)) % o.p])
MonVal(m, tab, p) == TLCEval([i \in 1..Len(m) |->
   (((tab[1][m[i][1] + 1] * tab[2][m[i][2] + 1]) % p) * tab[3][m[i][3] + 1]) % p])
(* values of all recorded functions under the sample functional s *)
SampleRec(o, s) ==
  LET p == o.p
      part(q) == LET pc == o.pieces[q]
                     tab == PTab(Phys(o, s, q), MaxPow, p)
                     di == IF pc.den = <<>> THEN 1 ELSE FInv(EvT(pc.den, tab, p), p)
                     mv == TLCEval([c \in 1..Len(pc.m) |-> VScale((s[q].w[c] * di) % p, MonVal(pc.m[c], tab, p), p)])
                 IN TLCEval([j \in 1..Len(pc.c) |->
                      FSum(TLCEval([c \in 1..Len(pc.m) |-> FDot(pc.c[j][c], mv[c], p)]), p)])
      ps == TLCEval([q \in 1..Len(o.pieces) |-> part(q)])
  IN TLCEval([j \in 1..Len(ps[1]) |-> FSum(TLCEval([q \in 1..Len(ps) |-> ps[q][j]]), p)])
(* generators: vectors of simplices are given in physical, everything else in cell coordinates *)
PhysGens(fam, cell) == fam \in {"Raviart-Thomas", "Nedelec"} /\ IsSimplex(cell)
SampleGen(o, gens, s, phys) ==
  LET p == o.p
      pt == IF phys THEN Phys(o, s, 1) ELSE s[1].pt
      tab == PTab(pt, MaxPow, p)
      w(m) == IF m = 0 THEN 1 ELSE FInv(FPow((1 - pt[3]) % p, m, p), p)
  IN TLCEval([g \in 1..Len(gens) |->
       FMul(w(gens[g].m), FSum(TLCEval([c \in 1..Len(gens[g].c) |->
            IF gens[g].c[c] = <<>> THEN 0 ELSE (s[1].w[c] * EvT(gens[g].c[c], tab, p)) % p]), p), p)])
RowsOf(o, F(_)) == TLCEval(Transp(TLCEval([i \in 1..Len(o.smp) |-> TLCEval(F(o.smp[i]))])))
(* random linear combination of rows *)
Comb(rows, cs, p) == TLCEval([i \in 1..Len(rows[1]) |-> FSum(TLCEval([j \in 1..Len(rows) |-> (cs[((j - 1) % Len(cs)) + 1] * rows[j][i]) % p]), p)])

(* the random combination of the recorded functions as term sequences: fq[q][c] *)
CombT(o) ==
  TLCEval([q \in 1..Len(o.pieces) |-> LET pc == o.pieces[q] IN TLCEval([c \in 1..Len(pc.m) |->
     SelectSeq(TLCEval([m \in 1..Len(pc.m[c]) |->
        << FSum(TLCEval([j \in 1..Len(pc.c) |-> (o.cs[j] * pc.c[j][c][m]) % o.p]), o.p),
           pc.m[c][m][1], pc.m[c][m][2], pc.m[c][m][3] >>]), LAMBDA t : t[1] # 0)])])
SupportIn(fq, E) == \A q \in 1..Len(fq) : \A c \in 1..Len(fq[q]) : \A t \in 1..Len(fq[q][c]) :
                        <<fq[q][c][t][2], fq[q][c][t][3], fq[q][c][t][4]>> \in E
Rational(o) == \E q \in 1..Len(o.pieces) : o.pieces[q].den # <<>>

(* degrees *)
LagExps(cell, k) == CASE IsSimplex(cell) -> PExps(CellDim[cell], k) [] IsBox(cell) -> QExps(CellDim[cell], k)
                      [] cell = "pyramid" -> PyrExps(k) [] OTHER -> PrismExps(k)
ValUnits(o, fq) ==
  CASE o.sh = <<>> -> << <<1>> >>
    [] Len(o.sh) = 1 -> Units(o.sh[1])
    [] OTHER -> LET d == o.sh[1]
                    tr(c) == ((c - 1) % d) * d + ((c - 1) \div d) + 1
                    rows == \A q \in 1..Len(fq) : \A c \in 1..Len(fq[q]) : SetOf(fq[q][c]) = SetOf(fq[q][tr(c)])
                IN IF rows THEN SymUnits(d) ELSE Units(d * d)
PGens(o, k, us) == IF k < 0 THEN <<>> ELSE Tens(MonoSeq(PExps(CellDim[o.cell], k)), us)
(* generators on all pieces at once: only for spaces of a single piece, or sampled piece by piece *)
ContainsPW(o, ech, gens) ==
  LET p == o.p
      val(s) == TLCEval([g \in 1..Len(gens) |-> FSum(TLCEval([q \in 1..Len(o.pieces) |->
                   LET tab == PTab(s[q].pt, MaxPow, p)
                       w(m) == IF m = 0 THEN 1 ELSE FInv(FPow((1 - s[q].pt[3]) % p, m, p), p)
                   IN FMul(w(gens[g].m), FSum(TLCEval([c \in 1..Len(gens[g].c) |->
                        (s[q].w[c] * EvT(gens[g].c[c], tab, p)) % p]), p), p)]), p)])
  IN gens = <<>> \/ InSpan(ech, Comb(RowsOf(o, val), o.gs, p), p)

DegreeFails(o, ech, fq) ==
  LET us == ValUnits(o, fq)
      lsub(k) == ContainsPW(o, ech, LagG(o.cell, k, us))
      psub(k) == ContainsPW(o, ech, PGens(o, k, us))
      poly == One(o) /\ ~Rational(o)
      within(E) == poly /\ SupportIn(fq, E)
      lsup(k) == IF o.cell = "pyramid" /\ One(o)
                 THEN LET lg == LagG("pyramid", k, us)
                          e == Echelon(RowsOf(o, LAMBDA s : SampleGen(o, lg, s, FALSE)), o.p)
                      IN k >= 0 /\ InSpan(e, Comb(RowsOf(o, LAMBDA s : SampleRec(o, s)), o.cs, o.p), o.p)
                 ELSE within(LagExps(o.cell, k))
      psup(k) == within(PExps(CellDim[o.cell], k))
  IN (IF o.lsub = NR \/ (lsub(o.lsub) /\ ~lsub(o.lsub + 1)) THEN {} ELSE {"Lagrange subdegree"})
     \cup (IF o.psub = NR \/ (psub(o.psub) /\ ~psub(o.psub + 1)) THEN {} ELSE {"polynomial subdegree"})
     \cup (IF o.lsup = NR \/ (IF o.lsup = NONE THEN ~poly /\ (o.cell # "pyramid" \/ ~lsup(o.order)) ELSE lsup(o.lsup) /\ ~lsup(o.lsup - 1)) THEN {} ELSE {"Lagrange superdegree"})
     \cup (IF o.psup = NR \/ (IF o.psup = NONE THEN ~poly ELSE psup(o.psup) /\ ~psup(o.psup - 1)) THEN {} ELSE {"polynomial superdegree"})
     \cup (IF o.mdeg = NR \/ (lsup(o.mdeg) /\ ~lsup(o.mdeg - 1)) THEN {} ELSE {"maximum degree"})

SpaceFails(o, ech, fq) ==
  LET p == o.p
      phys == PhysGens(o.fam, o.cell)
      gens == Gens(o.fam, o.cell, o.order, p)
      geh == Echelon(RowsOf(o, LAMBDA s : SampleGen(o, gens, s, phys)), p)
      recc == Comb(RowsOf(o, LAMBDA s : SampleRec(o, s)), o.cs, p)
      conds == Conds(o)
      sp == Super(o.fam, o.cell, o.order)
      dimc == Len(o.pieces) * Len(sp.u) * Len(sp.m) - Rank(TLCEval([i \in 1..Len(conds) |-> CondRow(conds[i], Len(o.pieces), sp, p)]), p)
  IN IF IsCond(o.fam, o.cell)
     THEN (IF SupportIn(fq, SetOf(sp.m)) THEN {} ELSE {"functions of too high a degree"})
          \cup (IF \A i \in 1..Len(conds) : CondOnFn(conds[i], fq, p) = 0 THEN {} ELSE {"a function outside the space of the family"})
          \cup (IF o.fam = "Guzman-Neilan" /\ o.cell = "tetrahedron" THEN {}
                ELSE IF dimc = DimF(o.fam, o.cell, o.order) THEN {} ELSE {"observer: conditions give dimension " \o ToString(dimc)})
          \cup (IF o.piecesok THEN {} ELSE {"pieces are not those of the family"})
     ELSE IF gens # <<>>
     THEN (IF InSpan(geh, recc, p) THEN {} ELSE {"a function outside the space of the family"})
          \cup (IF DimF(o.fam, o.cell, o.order) \in {-1, Len(geh)} THEN {} ELSE {"observer: generators have rank " \o ToString(Len(geh))})
          \cup (IF Len(geh) = o.n THEN {} ELSE {"dimension is not that of the family"})
     ELSE (IF o.contains < 0 \/ ContainsPW(o, ech, PGens(o, o.contains, << <<1>> >>)) THEN {} ELSE {"does not contain all polynomials of degree " \o ToString(o.contains)})
          \cup (IF o.within < 0 \/ SupportIn(fq, PExps(CellDim[o.cell], o.within)) THEN {} ELSE {"functions of too high a degree"})

(* elements that are a sum of a Lagrange-type element and a small enrichment (possibly inside it) *)
PartFails(o) ==
  LET p == o.p
      rec == RowsOf(o, LAMBDA s : SampleRec(o, s))
      first == Echelon(SubSeq(rec, 1, o.split), p)
      us == IF o.sh = <<>> THEN << <<1>> >> ELSE Units(o.sh[1])
      g1 == RowsOf(o, LAMBDA s : SampleGen(o, LagG(o.cell, o.order, us), s, FALSE))
      g2 == RowsOf(o, LAMBDA s : SampleGen(o, IF o.sh = <<>> THEN Scal(<<OneT>>) ELSE XMinusMid(CellDim[o.cell], o.cell, p), s, FALSE))
  IN (IF Len(first) = o.split /\ Len(g1) = o.split /\ \A i \in 1..Len(g1) : InSpan(first, g1[i], p) THEN {}
      ELSE {"first part of the enriched element is not the Lagrange space"})
     \cup (IF Len(rec) = o.split + 1 /\ Rank(<< rec[Len(rec)] >>, p) = 1 /\ Rank(<< rec[Len(rec)], g2[1] >>, p) = 1 THEN {}
           ELSE {"enrichment of the enriched element"})

Verdict(o) ==
  LET rec == RowsOf(o, LAMBDA s : SampleRec(o, s))
      ech == Echelon(rec, o.p)
      fq == CombT(o)
      nf == Len(o.pieces[1].c)
  IN IF o.split > 0 THEN PartFails(o)
     ELSE (IF nf = o.n /\ DimF(o.fam, o.cell, o.order) \in {-1, o.n} /\ o.dim \in {-1, o.n} THEN {} ELSE {"dimension is not that of the family"})
          \cup (IF Len(ech) = nf THEN {} ELSE {"basis functions are linearly dependent"})
          \cup (IF o.space THEN SpaceFails(o, ech, fq) ELSE {})
          \cup (IF o.default THEN DegreeFails(o, ech, fq) ELSE {})

VARIABLES lane, pos, failed
INSTANCE Runner WITH Judge <- Verdict, Obs <- ObsAll, Lanes <- 16
===============================================================================
