----------------------------- MODULE C14_Polynomials -----------------------------
(* Sets and bases of polynomials offered by symfem.polynomials.  An observation carries the prime p, the *)
(* kind, and functions as sequences of components <<numerator, denominator>>:                            *)
(*   set    : a polynomial set ctor(dim, order): generators of the documented space are given here       *)
(*   ortho  : orthogonal / orthonormal bases with their arrays of derivatives                            *)
(*   dual   : a set and its L2 dual                                                                      *)
(*   lobatto: Lobatto bases                                                                              *)
(* smp: random functionals (point, component weights); as, bs: random coefficients.                      *)
EXTENDS Spaces, Json, IOUtils
ObsAll == JsonDeserialize(IOEnv.OBS)

(* values of functions [component sequences] and of generators at the random functionals *)
SmpFn(f, s, p) == LET tab == PTab(s.pt, MaxPow, p)
                  IN FSum(TLCEval([c \in 1..Len(f) |-> (s.w[c] * EvC(f[c], tab, p)) % p]), p)
SmpGen(g, s, p) == LET tab == PTab(s.pt, MaxPow, p)
                       m == IF g.m = 0 THEN 1 ELSE FInv(FPow((1 - s.pt[3]) % p, g.m, p), p)
                   IN FMul(m, FSum(TLCEval([c \in 1..Len(g.c) |->
                          IF g.c[c] = <<>> THEN 0 ELSE (s.w[c] * EvT(g.c[c], tab, p)) % p]), p), p)
FnRows(o, fs) == TLCEval([j \in 1..Len(fs) |-> TLCEval([i \in 1..Len(o.smp) |-> SmpFn(fs[j], o.smp[i], o.p)])])
GenRows(o, gs) == TLCEval([j \in 1..Len(gs) |-> TLCEval([i \in 1..Len(o.smp) |-> SmpGen(gs[j], o.smp[i], o.p)])])
Within(ech, rows, p) == \A j \in 1..Len(rows) : InSpan(ech, rows[j], p)

(* generators of the documented sets; mod: the space the set completes (its complement is not unique) *)
QuoExps(d, top, low, c) == \* exponent top in variable c, at most low in the others
  {e \in QExps(d, IF top > low THEN top ELSE low) : e[c] = top /\ \A v \in (1..d) \ {c} : e[v] <= low}
HcurlQuo(d, k, c) == {e \in QExps(d, k) : e[c] <= k - 1 /\ \E v \in 1..d : e[v] = k}
SetGens(o) ==
  LET d == o.d
      k == o.order
      p == o.p
      us == Units(o.r)
  IN CASE o.ctor = "polynomial_set_1d" -> Scal(MonoSeq(PExps(d, k)))
       [] o.ctor = "polynomial_set_vector" -> Tens(MonoSeq(PExps(d, k)), us)
       [] o.ctor = "quolynomial_set_1d" -> Scal(MonoSeq(QExps(d, k)))
       [] o.ctor = "quolynomial_set_vector" -> Tens(MonoSeq(QExps(d, k)), us)
       [] o.ctor = "Hdiv_polynomials" -> XHom(d, k, p)
       [] o.ctor = "Hcurl_polynomials" -> Koszul(d, k, p)
       [] o.ctor = "Hdiv_quolynomials" -> Flat([c \in 1..d |-> InComp(MonoSeq(QuoExps(d, k, k - 1, c)), c, d)])
       [] o.ctor = "Hcurl_quolynomials" -> Flat([c \in 1..d |-> InComp(MonoSeq(HcurlQuo(d, k, c)), c, d)])
       [] o.ctor = "serendipity_set_1d" -> Scal(MonoSeq(SerExps(d, k) \ PExps(d, k)))
       [] o.ctor = "serendipity_set_vector" -> Tens(MonoSeq(SerExps(d, k) \ PExps(d, k)), us)
       [] o.ctor = "Hdiv_serendipity" -> SerDiv(d, k, p)
       [] o.ctor = "Hcurl_serendipity" -> SerCurl(d, k, p)
       [] o.ctor = "prism_polynomial_set_1d" -> LagG("prism", k, << <<1>> >>)
       [] o.ctor = "prism_polynomial_set_vector" -> LagG("prism", k, us)
       [] o.ctor = "pyramid_polynomial_set_1d" -> LagG("pyramid", k, << <<1>> >>)
       [] o.ctor = "pyramid_polynomial_set_vector" -> LagG("pyramid", k, us)
       [] OTHER -> LagG(o.cell, k, << <<1>> >>)          \* polynomial_set(cell, order), orthogonal bases
SetMod(o) == IF o.ctor \in {"Hdiv_serendipity", "Hcurl_serendipity"} THEN PkV(o.d, o.order) ELSE <<>>

SpanFails(o, fs) ==
  LET p == o.p
      rows == FnRows(o, fs)
      geh == Echelon(GenRows(o, SetGens(o)), p)
      md == SetMod(o)
      base == Echelon(IF md = <<>> THEN <<>> ELSE GenRows(o, md), p)
      all == Rank(TLCEval([i \in 1..Len(base) |-> base[i][2]]) \o rows, p)
  IN (IF Within(geh, rows, p) THEN {} ELSE {"a function outside the space"})
     \cup (IF all - Len(base) = Len(fs) THEN {} ELSE {"functions are linearly dependent"})
     \cup (IF all = Len(geh) THEN {} ELSE {"functions do not span the space"})

(* integration on the reference cells; the rule for the pyramid avoids the apex, where bases are only    *)
(* defined as limits                                                                                     *)
OpenWeight(a, n, p) == \* node a / (n + 1), a in 0..n
  LET f == FoldLeft(LAMBDA u, b : IF b = a THEN u
                                   ELSE LET i == FInv((a - b) % p, p)
                                        IN MulLin(u, ((n + 1) * i) % p, ((0 - b) * i) % p, p),
                    <<1>>, [b \in 1..(n + 1) |-> b - 1])
  IN FSum(TLCEval([k \in 1..Len(f) |-> (f[k] * FInv(k, p)) % p]), p)
OpenRule(n, p) == LET i == FInv(n + 1, p)
                  IN TLCEval([a \in 1..(n + 1) |-> << << ((a - 1) * i) % p >>, OpenWeight(a - 1, n, p) >>])
OpenPyr(n, p) ==
  LET q == Box2(Box2(OpenRule(n + 2, p), NCRule(n, p), p), NCRule(n, p), p)
  IN TLCEval([k \in 1..Len(q) |->
       LET z == q[k][1][1]
           w == (1 - z) % p
       IN << <<(w * q[k][1][2]) % p, (w * q[k][1][3]) % p, z>>, (((w * w) % p) * q[k][2]) % p >>])
Rule(cell, n, p) == IF cell = "pyramid" THEN OpenPyr(n, p) ELSE RefRule(cell, n, p)
(* values of scalar functions at the nodes of a rule: vals[node][function] *)
AtNodes(fs, rule, p) == TLCEval([q \in 1..Len(rule) |->
   LET tab == PTab(rule[q][1], MaxPow, p) IN TLCEval([j \in 1..Len(fs) |-> EvC(fs[j][1], tab, p)])])
Bilinear(us, vs, as, bs, rule, p) ==       \* integral of (sum as_i u_i) (sum bs_j v_j)
  FSum(TLCEval([q \in 1..Len(rule) |-> FMul(rule[q][2], FMul(FDot(us[q], as, p), FDot(vs[q], bs, p), p), p)]), p)
SqNorm(us, j, rule, p) == FSum(TLCEval([q \in 1..Len(rule) |-> FMul(rule[q][2], FMul(us[q][j], us[q][j], p), p)]), p)

OrthoFails(o) ==
  LET p == o.p
      fs == o.fs[1]
      n == Len(fs)
      rule == Rule(o.cell, 2 * o.deg, p)
      us == AtNodes(fs, rule, p)
      nn == TLCEval([j \in 1..n |-> IF o.normal THEN 1 ELSE SqNorm(us, j, rule, p)])
      as == SubSeq(o.as, 1, n)
      bs == SubSeq(o.bs, 1, n)
      rows == FnRows(o, fs)
      simp == IsSimplex(o.cell)
  IN (IF n = DimF(IF IsBox(o.cell) THEN "Q" ELSE "Lagrange", o.cell, o.order) THEN {} ELSE {"number of functions"})
     \cup SpanFails(o, fs)
     \cup (IF Bilinear(us, us, as, bs, rule, p) = FSum(TLCEval([j \in 1..n |-> FMul(nn[j], FMul(as[j], bs[j], p), p)]), p)
           THEN {} ELSE IF o.normal THEN {"functions are not orthonormal"} ELSE {"functions are not orthogonal"})
     \cup (IF simp => \A k \in 0..(o.order - 1) :
                        LET geh == Echelon(GenRows(o, Scal(MonoSeq(PExps(CellDim[o.cell], k)))), p)
                        IN Within(geh, SubSeq(rows, 1, PDim(CellDim[o.cell], k)), p)
           THEN {} ELSE {"functions are not ordered by degree"})
     \* array i holds a derivative (by variable o.dv[i][2]) of array o.dv[i][1]
     \cup (IF Len(o.fs) = Len(o.dv) + 1 THEN {} ELSE {"number of arrays of derivatives"})
     \cup UNION {IF Len(o.fs[i]) = n THEN {} ELSE {"number of derivatives"} : i \in 2..Len(o.fs)}
     \cup UNION {IF \A j \in 1..n : \A s \in 1..2 :
                     LET tab == PTab(o.smp[s].pt, MaxPow, p)
                     IN EvC(o.fs[i + 1][j][1], tab, p) = EvDC(o.fs[o.dv[i][1]][j][1], o.dv[i][2], tab, p)
                 THEN {} ELSE {"derivatives"}
                 : i \in {i \in 1..Len(o.dv) : i + 1 <= Len(o.fs) /\ Len(o.fs[i + 1]) = n}}

DualFails(o) ==
  LET p == o.p
      n == Len(o.fs)
      rule == Rule(o.cell, o.deg, p)
      us == AtNodes(o.fs, rule, p)
      vs == AtNodes(o.ds, rule, p)
      as == SubSeq(o.as, 1, n)
      bs == SubSeq(o.bs, 1, n)
      ech == Echelon(FnRows(o, o.span), p)
  IN IF Len(o.ds) # n THEN {"number of dual functions"}
     ELSE (IF Bilinear(us, vs, as, bs, rule, p) = FDot(as, bs, p) THEN {} ELSE {"functions are not dual"})
          \cup (IF Within(ech, FnRows(o, o.ds), p) THEN {} ELSE {"dual functions are not in the span"})

(* Lobatto: with the end points a basis of P_k / Q_k; without, its functions that vanish at both ends of *)
(* every variable                                                                                        *)
LobattoFails(o) ==
  LET p == o.p
      d == CellDim[o.cell]
      k == o.order
      gens == IF o.ends THEN Scal(MonoSeq(QExps(d, k)))
              ELSE Scal(Times(BoxBubble(d, p), MonoSeq(QExps(d, k - 2)), p))
      geh == Echelon(IF gens = <<>> THEN <<>> ELSE GenRows(o, gens), p)
      rows == FnRows(o, o.fs)
      \* derivatives of the one-dimensional functions beyond the first are orthonormal
      rule == Rule("interval", 2 * o.deg, p)
      df == TLCEval([j \in 1..Len(o.fs) |-> << << DPoly(o.fs[j][1][1], 1, p), <<>> >> >>])
      us == AtNodes(df, rule, p)
      first == IF o.ends THEN 2 ELSE 1
      as == [j \in 1..Len(o.fs) |-> IF j < first THEN 0 ELSE o.as[j]]
      bs == [j \in 1..Len(o.fs) |-> IF j < first THEN 0 ELSE o.bs[j]]
  IN (IF Len(geh) = Len(o.fs) /\ Rank(rows, p) = Len(o.fs) THEN {} ELSE {"number of independent functions"})
     \cup (IF Within(geh, rows, p) THEN {} ELSE {"a function outside the space"})
     \cup (IF o.cell = "interval" => Bilinear(us, us, as, bs, rule, p) = FDot(as, bs, p) THEN {} ELSE {"derivatives are not orthonormal"})
     \cup (IF o.cell = "interval" => \A j \in 1..Len(o.fs) : PolyDeg(o.fs[j][1][1]) = IF o.ends THEN j - 1 ELSE j + 1
           THEN {} ELSE {"functions are not ordered by degree"})

Verdict(o) ==
  IF o.foreign THEN {"a function of variables that were not asked for"}
  ELSE CASE o.kind = "set" -> SpanFails(o, o.fs)
         [] o.kind = "ortho" -> OrthoFails(o)
         [] o.kind = "dual" -> DualFails(o)
         [] o.kind = "lobatto" -> LobattoFails(o)
         [] OTHER -> {"observer: kind"}

VARIABLES lane, pos, failed
INSTANCE Runner WITH Judge <- Verdict, Obs <- ObsAll, Lanes <- 16
===============================================================================
