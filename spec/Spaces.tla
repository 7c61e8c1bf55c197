-------------------------------- MODULE Spaces --------------------------------
(* The spaces that define the families of elements, from the literature.  A space is given either by    *)
(* generators, or by a space of all (piecewise) polynomials together with the linear conditions that    *)
(* cut the element space out of it.                                                                     *)
(*   generator : [c |-> components (term sequences), m |-> power of 1/(1 - z)]                            *)
(*   condition : sequence of [q (piece), c (component), w, d (derivative), pt]: Sum w (D^d f_c)(pt) = 0   *)
EXTENDS Cells

Mn(i, j, k) == << 1, i, j, k >>
AsSeq(S) == TLCEval(SetToSeq(S))
N0(k) == IF k < 0 THEN {} ELSE 0..k
(* exponents of monomials in the first d variables *)
PExps(d, k) == {e \in N0(k) \X (IF d > 1 THEN N0(k) ELSE {0}) \X (IF d > 2 THEN N0(k) ELSE {0}) : e[1] + e[2] + e[3] <= k}
HExps(d, k) == {e \in PExps(d, k) : e[1] + e[2] + e[3] = k}
BoxExps(a, b, c) == N0(a) \X N0(b) \X N0(c)
QExps(d, k) == BoxExps(k, IF d > 1 THEN k ELSE 0, IF d > 2 THEN k ELSE 0)
PrismExps(k) == {e \in BoxExps(k, k, k) : e[1] + e[2] <= k}
PyrExps(k) == {e \in BoxExps(k, k, k) : e[1] + e[3] <= k /\ e[2] + e[3] <= k}
Ones(e) == Cardinality({i \in 1..3 : e[i] = 1})
SLDeg(e) == e[1] + e[2] + e[3] - Ones(e)                 \* superlinear degree
SerExps(d, k) == {e \in QExps(d, IF k < 1 THEN 1 ELSE k) : SLDeg(e) <= k}
Mono(e) == << << 1, e[1], e[2], e[3] >> >>
MonoSeq(S) == LET s == AsSeq(S) IN TLCEval([i \in 1..Len(s) |-> Mono(s[i])])

(* polynomials as term sequences *)
PMulT(s, t, p) == Flat(TLCEval([i \in 1..Len(s) |-> TLCEval([j \in 1..Len(t) |->
    << (s[i][1] * t[j][1]) % p, s[i][2] + t[j][2], s[i][3] + t[j][3], s[i][4] + t[j][4] >>])]))
PScaleT(a, t, p) == TLCEval([i \in 1..Len(t) |-> << (a * t[i][1]) % p, t[i][2], t[i][3], t[i][4] >>])
PNegT(t, p) == PScaleT(p - 1, t, p)
X1 == << << 1, 1, 0, 0 >> >>
X2 == << << 1, 0, 1, 0 >> >>
X3 == << << 1, 0, 0, 1 >> >>
Xs == << X1, X2, X3 >>
OneT == << << 1, 0, 0, 0 >> >>
OneMinus(t, p) == OneT \o PNegT(t, p)
RECURSIVE PPowT(_, _, _)
PPowT(t, n, p) == IF n = 0 THEN OneT ELSE PMulT(t, PPowT(t, n - 1, p), p)
ProdT(ss, p) == FoldLeft(LAMBDA a, b : PMulT(a, b, p), OneT, ss)

Gr(f, d, p) == TLCEval([i \in 1..d |-> DPoly(f, i, p)])
Rot2(f, p) == << DPoly(f, 2, p), PNegT(DPoly(f, 1, p), p) >>
Curl3T(v, p) == << DPoly(v[3], 2, p) \o PNegT(DPoly(v[2], 3, p), p),
                   DPoly(v[1], 3, p) \o PNegT(DPoly(v[3], 1, p), p),
                   DPoly(v[2], 1, p) \o PNegT(DPoly(v[1], 2, p), p) >>
CrossX(v, p) == << PMulT(v[2], X3, p) \o PNegT(PMulT(v[3], X2, p), p),
                   PMulT(v[3], X1, p) \o PNegT(PMulT(v[1], X3, p), p),
                   PMulT(v[1], X2, p) \o PNegT(PMulT(v[2], X1, p), p) >>

G(c) == [c |-> c, m |-> 0]
Scal(ms) == TLCEval([i \in 1..Len(ms) |-> G(<< ms[i] >>)])
(* the tensor product of scalar polynomials with constant values given by units (0/1 sequences) *)
Unit(i, d) == [j \in 1..d |-> IF i = j THEN 1 ELSE 0]
Units(d) == [i \in 1..d |-> Unit(i, d)]
(* row-major symmetric units of a d x d matrix *)
SymUnits(d) == AsSeq({ [k \in 1..(d * d) |-> IF k = (a - 1) * d + b \/ k = (b - 1) * d + a THEN 1 ELSE 0] : a \in 1..d, b \in 1..d })
Tens(ms, us) == Flat(TLCEval([i \in 1..Len(ms) |-> TLCEval([u \in 1..Len(us) |->
    G(TLCEval([c \in 1..Len(us[u]) |-> IF us[u][c] = 1 THEN ms[i] ELSE <<>>]))])]))
InComp(ms, c, d) == TLCEval([i \in 1..Len(ms) |-> G([k \in 1..d |-> IF k = c THEN ms[i] ELSE <<>>])])
Vecs(vs) == TLCEval([i \in 1..Len(vs) |-> G(vs[i])])

PkV(d, k) == Tens(MonoSeq(PExps(d, k)), Units(d))
(* x P~_{k-1} and the Koszul complement of the Nedelec space *)
XHom(d, k, p) == LET s == MonoSeq(HExps(d, k - 1))
                 IN Vecs(TLCEval([i \in 1..Len(s) |-> TLCEval([c \in 1..d |-> PMulT(s[i], Xs[c], p)])]))
Koszul(d, k, p) == LET s == MonoSeq(HExps(d, k - 1))
                   IN IF d = 2 THEN Vecs(TLCEval([i \in 1..Len(s) |-> << PMulT(s[i], X2, p), PNegT(PMulT(s[i], X1, p), p) >>]))
                      ELSE Flat(TLCEval([c \in 1..3 |-> Vecs(TLCEval([i \in 1..Len(s) |-> CrossX([j \in 1..3 |-> IF j = c THEN s[i] ELSE <<>>], p)]))]))

(* The serendipity complex (Arnold, Awanou): J_r of 0- and 1-forms. H_{r,l}: monomial forms of degree r *)
(* with at least l linear variables among those outside the alternator.                                 *)
LinOut(e, out) == Cardinality({i \in out : e[i] = 1})
J0(d, r, p) ==
  Flat(TLCEval([c \in 1..d |-> Flat(TLCEval([l \in 1..(d - 1) |->
     LET s == AsSeq({e \in HExps(d, r + l - 1) : LinOut(e, (1..d) \ {c}) >= l})
     IN TLCEval([i \in 1..Len(s) |-> PMulT(Mono(s[i]), Xs[c], p)])]))]))
J1(r, p) == \* three dimensions, as vectors
  Flat(TLCEval([c \in 1..3 |->
     LET s == AsSeq({e \in HExps(3, r) : e[c] = 1})
     IN TLCEval([i \in 1..Len(s) |-> CrossX([j \in 1..3 |-> IF j = c THEN Mono(s[i]) ELSE <<>>], p)])]))
GradsOf(fs, d, p) == Vecs(TLCEval([i \in 1..Len(fs) |-> Gr(fs[i], d, p)]))
RotsOf(fs, p) == Vecs(TLCEval([i \in 1..Len(fs) |-> Rot2(fs[i], p)]))
CurlsOf(vs, p) == Vecs(TLCEval([i \in 1..Len(vs) |-> Curl3T(vs[i], p)]))
SerCurl(d, k, p) == PkV(d, k) \o (IF d = 3 THEN Vecs(J1(k, p)) ELSE <<>>) \o GradsOf(J0(d, k + 1, p), d, p)
SerDiv(d, k, p) == PkV(d, k) \o (IF d = 3 THEN CurlsOf(J1(k + 1, p), p) ELSE RotsOf(J0(2, k + 1, p), p))
TrimCurl(d, k, p) == PkV(d, k - 1) \o Koszul(d, k, p) \o (IF d = 3 THEN Vecs(J1(k, p)) ELSE <<>>) \o GradsOf(J0(d, k, p), d, p)
TrimDiv(d, k, p) == PkV(d, k - 1) \o XHom(d, k, p) \o (IF d = 3 THEN CurlsOf(J1(k, p), p) ELSE RotsOf(J0(2, k, p), p))

BDDFExtra(k, p) ==
  CurlsOf(<< << <<>>, <<>>, <<Mn(k + 1, 1, 0)>> >>, << <<>>, <<Mn(1, 0, k + 1)>>, <<>> >>, << <<Mn(0, k + 1, 1)>>, <<>>, <<>> >> >>
     \o Flat([i \in 1..k |-> << << <<>>, <<>>, <<Mn(1, i + 1, k - i)>> >>, << <<>>, <<Mn(i + 1, k - i, 1)>>, <<>> >>,
                                << <<Mn(k - i, 1, i + 1)>>, <<>>, <<>> >> >>]), p)

(* shifted Legendre polynomial of degree n in variable v, up to scale: Rodrigues' formula *)
RECURSIVE DRep(_, _, _, _)
DRep(t, v, n, p) == IF n = 0 THEN t ELSE DRep(DPoly(t, v, p), v, n - 1, p)
Leg(n, v, p) == DRep(PPowT(Xs[v] \o PNegT(PMulT(Xs[v], Xs[v], p), p), n, p), v, n, p)
(* its antiderivative vanishing at both ends has leading monomial v^{n+1} up to lower-degree terms that  *)
(* lie in Q_n, with leading coefficient lead(Leg(n)) / (n + 1): the same for every variable               *)
TNTdivE(d, k, p) ==
  LET L(v, on) == IF on THEN Leg(k, v, p) ELSE OneT
      T(v) == << << 1, IF v = 1 THEN k + 1 ELSE 0, IF v = 2 THEN k + 1 ELSE 0, IF v = 3 THEN k + 1 ELSE 0 >> >>
      pick == AsSeq({S \in SUBSET (1..d) : S # {}})
      comp(S, c) == IF c \notin S THEN <<>>
                    ELSE FoldLeft(LAMBDA a, v : IF v = c THEN a ELSE PMulT(a, L(v, v \in S), p), T(c), [i \in 1..d |-> i])
  IN TLCEval([i \in 1..Len(pick) |-> G(TLCEval([c \in 1..d |-> comp(pick[i], c)]))])
TNTcurlE2(k, p) ==
  << G(<< <<Mn(0, k + 1, 0)>>, <<>> >>), G(<< <<>>, <<Mn(k + 1, 0, 0)>> >>),
     G(<< PMulT(Leg(k, 1, p), <<Mn(0, k + 1, 0)>>, p), PNegT(PMulT(Leg(k, 2, p), <<Mn(k + 1, 0, 0)>>, p), p) >>) >>
(* on every face lambda_f x (the gradient-rotated face functions): the face functions of the div space    *)
(* on the face, embedded, with lambda in {x, 1 - x} normal to the face                                    *)
TNTcurlE3(k, p) ==
  LET pw(v) == << << 1, IF v = 1 THEN k + 1 ELSE 0, IF v = 2 THEN k + 1 ELSE 0, IF v = 3 THEN k + 1 ELSE 0 >> >>
      face(a, b) == << << pw(a), <<>> >>, << <<>>, pw(b) >>, << PMulT(pw(a), Leg(k, b, p), p), PMulT(pw(b), Leg(k, a, p), p) >> >>
      emb(n, lam, a, b, f) == \* lam e_n x (f1 e_a + f2 e_b)
        LET g == [j \in 1..3 |-> IF j = a THEN f[1] ELSE IF j = b THEN f[2] ELSE <<>>]
            e(j, m, s) == IF s = 1 THEN PMulT(lam, g[j], p) ELSE PNegT(PMulT(lam, g[j], p), p)
        IN CASE n = 1 -> << <<>>, e(3, 0, -1), e(2, 0, 1) >>
             [] n = 2 -> << e(3, 0, 1), <<>>, e(1, 0, -1) >>
             [] OTHER -> << e(2, 0, -1), e(1, 0, 1), <<>> >>
      ab == << <<2, 3>>, <<1, 3>>, <<1, 2>> >>
  IN Flat([n \in 1..3 |-> Flat([s \in 1..2 |-> Vecs([i \in 1..3 |->
        emb(n, IF s = 1 THEN Xs[n] ELSE OneMinus(Xs[n], p), ab[n][1], ab[n][2], face(ab[n][1], ab[n][2])[i])])])])

(* barycentric coordinates / bubbles of the default cells *)
Lam(d, i, p) == IF i = 0 THEN FoldLeft(LAMBDA a, v : a \o PNegT(Xs[v], p), OneT, [v \in 1..d |-> v]) ELSE Xs[i]
BubbleT(d, S, p) == ProdT(SetToSeq({Lam(d, i, p) : i \in S}), p)      \* product over the vertices in S
BoxBubble(d, p) == ProdT([v \in 1..d |-> PMulT(Xs[v], OneMinus(Xs[v], p), p)], p)
Times(b, ms, p) == TLCEval([i \in 1..Len(ms) |-> PMulT(b, ms[i], p)])

BRBubbles(d, p) == \* normal (up to scale) of the facet opposite vertex i times its bubble
  TLCEval([i \in 1..(d + 1) |->
     LET b == BubbleT(d, (0..d) \ {i - 1}, p)
     IN G(TLCEval([c \in 1..d |-> IF i = 1 \/ c = i - 1 THEN b ELSE <<>>]))])

Mid(cell) == CASE cell \in {"triangle"} -> 3 [] cell = "tetrahedron" -> 4 [] OTHER -> 2
XMinusMid(d, cell, p) == << G(TLCEval([c \in 1..d |-> Xs[c] \o << << FNeg(FInv(Mid(cell), p), p), 0, 0, 0 >> >>])) >>

IsSimplex(cell) == cell \in {"interval", "triangle", "tetrahedron"}
IsBox(cell) == cell \in {"quadrilateral", "hexahedron"}

(* Lagrange space of degree k on a cell, for values with the given units *)
LagG(cell, k, us) ==
  IF k < 0 THEN <<>>
  ELSE IF cell = "pyramid" THEN LET s == AsSeq(PyrExps(k))
                           IN Flat(TLCEval([i \in 1..Len(s) |-> TLCEval([u \in 1..Len(us) |->
                                [c |-> [c \in 1..Len(us[u]) |-> IF us[u][c] = 1 THEN Mono(s[i]) ELSE <<>>],
                                 m |-> IF s[i][1] < s[i][2] THEN s[i][1] ELSE s[i][2]]])]))
  ELSE Tens(MonoSeq(CASE IsSimplex(cell) -> PExps(CellDim[cell], k)
                      [] IsBox(cell) -> QExps(CellDim[cell], k)
                      [] OTHER -> PrismExps(k)), us)

PFams == {"Lagrange", "Bernstein", "Taylor", "Hermite", "Argyris", "Morley", "Morley-Wang-Xu", "Crouzeix-Raviart",
          "Fortin-Soulie", "dPc"}
(* generators of the family on the default cell; <<>> when the family is defined by conditions *)
Gens(fam, cell, k, p) ==
  LET d == CellDim[cell]
      Pk(n) == MonoSeq(PExps(d, n))
      Sym(n) == Tens(Pk(n), SymUnits(d))
  IN
  CASE fam \in PFams /\ ~(fam = "Lagrange" /\ cell \in {"prism", "pyramid"}) -> Scal(Pk(k))
    [] fam = "Lagrange" -> LagG(cell, k, << <<1>> >>)
    [] fam = "vector Lagrange" -> PkV(d, k)
    [] fam = "vector dPc" -> PkV(d, k)
    [] fam = "matrix Lagrange" -> Tens(Pk(k), Units(d * d))
    [] fam \in {"symmetric matrix Lagrange", "Hellan-Herrmann-Johnson"} -> Sym(k)
    [] fam = "Regge" /\ IsSimplex(cell) -> Sym(k)
    [] fam = "Regge" -> \* tensor-product Regge: degree one less in the variables named by the component
         Flat(TLCEval([a \in 1..d |-> Flat(TLCEval([b1 \in 1..(d - a + 1) |->
             LET b == b1 + a - 1
                 ex(v) == IF v > d THEN 0 ELSE IF v \in {a, b} THEN k ELSE k + 1
                 u == [m \in 1..(d * d) |-> IF m = (a - 1) * d + b \/ m = (b - 1) * d + a THEN 1 ELSE 0]
             IN Tens(MonoSeq(BoxExps(ex(1), ex(2), ex(3))), << u >>)]))]))
    [] fam = "Q" -> Scal(MonoSeq(QExps(d, k)))
    [] fam = "vector Q" -> Tens(MonoSeq(QExps(d, k)), Units(d))
    [] fam = "Bogner-Fox-Schmit" -> Scal(MonoSeq(QExps(d, 3)))
    [] fam = "serendipity" -> Scal(MonoSeq(SerExps(d, k)))
    [] fam = "serendipity Hcurl" -> SerCurl(d, k, p)
    [] fam = "serendipity Hdiv" -> SerDiv(d, k, p)
    [] fam = "trimmed serendipity Hcurl" -> TrimCurl(d, k, p)
    [] fam = "trimmed serendipity Hdiv" -> TrimDiv(d, k, p)
    [] fam = "Arbogast-Correa" -> IF k = 0 THEN PkV(2, 0) \o << G(<< X1, <<>> >>), G(<< <<>>, X2 >>) >>
                                  ELSE SerDiv(2, k, p) \o XHom(2, k + 1, p)
    [] fam = "Raviart-Thomas" -> PkV(d, k - 1) \o XHom(d, k, p)
    [] fam = "Nedelec" /\ IsSimplex(cell) -> PkV(d, k - 1) \o Koszul(d, k, p)
    [] fam = "Nedelec" /\ cell = "prism" ->
         LET n1 == PkV(2, k - 1) \o Koszul(2, k, p)
             z(n) == TLCEval([i \in 1..(n + 1) |-> << Mn(0, 0, i - 1) >>])
         IN Flat(TLCEval([i \in 1..Len(n1) |-> Vecs([j \in 1..(k + 1) |->
                   << PMulT(n1[i].c[1], z(k)[j], p), PMulT(n1[i].c[2], z(k)[j], p), <<>> >>])]))
            \o InComp(MonoSeq({e \in BoxExps(k, k, k - 1) : e[1] + e[2] <= k}), 3, 3)
    [] fam \in {"Brezzi-Douglas-Marini", "Nedelec2"} -> PkV(d, k)
    [] fam = "NCF" -> Flat([c \in 1..d |-> InComp(MonoSeq(BoxExps(IF c = 1 THEN k ELSE k - 1, IF c = 2 THEN k ELSE k - 1,
                              IF d < 3 THEN 0 ELSE IF c = 3 THEN k ELSE k - 1)), c, d)])
    [] fam = "NCE" -> Flat([c \in 1..d |-> InComp(MonoSeq(BoxExps(IF c = 1 THEN k - 1 ELSE k, IF c = 2 THEN k - 1 ELSE k,
                              IF d < 3 THEN 0 ELSE IF c = 3 THEN k - 1 ELSE k)), c, d)])
    [] fam = "Arnold-Boffi-Falk" -> InComp(MonoSeq(BoxExps(k + 2, k, 0)), 1, 2) \o InComp(MonoSeq(BoxExps(k, k + 2, 0)), 2, 2)
    [] fam = "Huang-Zhang" -> InComp(MonoSeq(BoxExps(k, k - 1, 0)), 1, 2) \o InComp(MonoSeq(BoxExps(k - 1, k, 0)), 2, 2)
    [] fam = "Brezzi-Douglas-Duran-Fortin" -> PkV(3, k) \o BDDFExtra(k, p)
    [] fam = "tiniest tensor" ->
         Scal(MonoSeq(QExps(d, k) \cup {e \in QExps(d, k + 1) : \E v \in 1..d : e[v] = k + 1 /\ \A w \in (1..d) \ {v} : e[w] <= 1}))
    [] fam = "tiniest tensor Hdiv" -> Tens(MonoSeq(QExps(d, k)), Units(d)) \o TNTdivE(d, k, p)
    [] fam = "tiniest tensor Hcurl" -> Tens(MonoSeq(QExps(d, k)), Units(d)) \o (IF d = 2 THEN TNTcurlE2(k, p) ELSE TNTcurlE3(k, p))
    [] fam = "bubble" -> IF IsBox(cell) THEN Scal(Times(BoxBubble(d, p), MonoSeq(QExps(d, k - 2)), p))
                         ELSE Scal(Times(BubbleT(d, 0..d, p), Pk(k - d - 1), p))
    [] fam = "bubble enriched Lagrange" -> Scal(Pk(k) \o Times(BubbleT(2, 0..2, p), Pk(k - 1), p))
    [] fam = "bubble enriched vector Lagrange" -> Tens(Pk(k) \o Times(BubbleT(2, 0..2, p), Pk(k - 1), p), Units(2))
    [] fam = "conforming Crouzeix-Raviart" -> Scal(Pk(k) \o Times(BubbleT(2, 0..2, p), MonoSeq(HExps(2, k - 2)), p))
    [] fam = "Kong-Mulder-Veldhuizen" ->
         IF k = 1 THEN Scal(Pk(1))
         ELSE IF d = 2 THEN Scal(Pk(k) \o Times(BubbleT(2, 0..2, p), Pk(k - 2), p))
         ELSE Scal(Pk(2) \o Flat([i \in 1..4 |-> Times(BubbleT(3, (0..3) \ {i - 1}, p), Pk(1), p)]))
    [] fam = "Bernardi-Raugel" -> PkV(d, k) \o BRBubbles(d, p)
                                  \o (IF k = 2 THEN InComp(<<BubbleT(3, 0..3, p)>>, 1, 3) \o InComp(<<BubbleT(3, 0..3, p)>>, 2, 3)
                                                    \o InComp(<<BubbleT(3, 0..3, p)>>, 3, 3) ELSE <<>>)
    [] fam = "Rannacher-Turek" -> Scal(IF d = 2 THEN Pk(1) \o << << Mn(2, 0, 0), << p - 1, 0, 2, 0 >> >> >>
                                       ELSE Pk(1) \o << << Mn(2, 0, 0), << p - 1, 0, 2, 0 >> >>, << Mn(0, 2, 0), << p - 1, 0, 0, 2 >> >> >>)
    [] fam = "Wu-Xu" -> Scal(Pk(d + 1) \o Times(BubbleT(d, 0..d, p), Pk(1), p))
    [] fam = "Mardal-Tai-Winther" /\ d = 3 ->
         LET v == PkV(3, 1)
             b == BubbleT(3, 0..3, p)
         IN PkV(3, 1) \o CurlsOf(TLCEval([i \in 1..Len(v) |-> TLCEval([c \in 1..3 |-> PMulT(b, v[i].c[c], p)])]), p)
    [] OTHER -> <<>>

(* ------------------------------------- spaces given by conditions ----------------------------------- *)
Fn(q, c, w, dd, pt) == [q |-> q, c |-> c, w |-> w, d |-> dd, pt |-> pt]
CondFams == {"Brezzi-Douglas-Fortin-Marini", "Bell", "Arnold-Winther", "nonconforming Arnold-Winther",
             "Hsieh-Clough-Tocher", "reduced Hsieh-Clough-Tocher", "Alfeld-Sorokina", "P1 macro", "P1-iso-P2",
             "Guzman-Neilan"}
IsCond(fam, cell) == fam \in CondFams \/ (fam = "Mardal-Tai-Winther" /\ cell = "triangle")

Fact(n) == FoldLeft(LAMBDA a, i : a * i, 1, [i \in 1..n |-> i])          \* n <= 12
(* D_t^a D_u^b in terms of partial derivatives: sequence of <<coefficient, multi-index>> *)
Lin3(t) == [i \in 1..3 |-> IF i <= Len(t) THEN t[i] ELSE 0]
DirD(t, a, p) == \* directional derivative of order a
  LET e == AsSeq(HExps(3, a))
      tt == Lin3(t)
      co(x) == FMul(FMul(FMul(FPow(tt[1], x[1], p), FPow(tt[2], x[2], p), p), FPow(tt[3], x[3], p), p),
                    (Fact(a) \div (Fact(x[1]) * Fact(x[2]) * Fact(x[3]))) % p, p)
  IN TLCEval([i \in 1..Len(e) |-> << co(e[i]), e[i] >>])
DComp(s, t, p) == Flat(TLCEval([i \in 1..Len(s) |-> TLCEval([j \in 1..Len(t) |->
    << FMul(s[i][1], t[j][1], p), [v \in 1..3 |-> s[i][2][v] + t[j][2][v]] >>])]))
(* the functional  f |-> D f.n (pt)  for a differential operator D and component weights n *)
Func(q, D, w, pt, p) == Flat(TLCEval([c \in 1..Len(w) |-> TLCEval([i \in 1..Len(D) |-> Fn(q, c, FMul(w[c], D[i][1], p), D[i][2], pt)])]))
D0 == << << 1, <<0, 0, 0>> >> >>
Dv(i) == << << 1, [v \in 1..3 |-> IF v = i THEN 1 ELSE 0] >> >>

VSubP(a, b, p) == TLCEval([i \in 1..Len(a) |-> (a[i] - b[i]) % p])

(* all differential operators of total order n in the directions ts *)
DirsD(ts, n, p) ==
  CASE Len(ts) = 0 -> IF n = 0 THEN << D0 >> ELSE <<>>
    [] Len(ts) = 1 -> << DirD(ts[1], n, p) >>
    [] Len(ts) = 2 -> TLCEval([a \in 1..(n + 1) |-> DComp(DirD(ts[1], a - 1, p), DirD(ts[2], n - a + 1, p), p)])
    [] OTHER -> Flat(TLCEval([a \in 1..(n + 1) |-> TLCEval([b \in 1..(n - a + 2) |->
                  DComp(DirD(ts[1], a - 1, p), DComp(DirD(ts[2], b - 1, p), DirD(ts[3], n - a - b + 2, p), p), p)])]))
FNegW(f, p) == TLCEval([i \in 1..Len(f) |-> [f[i] EXCEPT !.w = FNeg(f[i].w, p)]])
(* an operator L is a sequence of <<differential operator, component weights>> *)
App(q, L, op, pt, p) == Flat(TLCEval([i \in 1..Len(L) |-> Func(q, DComp(L[i][1], op, p), L[i][2], pt, p)]))
(* L f restricted to pt + span(ts) has degree < lo, given that its degree is at most hi *)
DegBelow(q, L, pt, ts, lo, hi, p) ==
  Flat(TLCEval([n \in 1..(hi - lo + 1) |->
     LET ops == DirsD(ts, lo + n - 1, p) IN TLCEval([j \in 1..Len(ops) |-> App(q, L, ops[j], pt, p)])]))
(* L f agrees on the two sides of pt + span(ts), given that its degree is at most hi *)
Agree(q1, q2, L, pt, ts, hi, p) ==
  Flat(TLCEval([n \in 1..(hi + 1) |->
     LET ops == DirsD(ts, n - 1, p)
     IN TLCEval([j \in 1..Len(ops) |-> App(q1, L, ops[j], pt, p) \o FNegW(App(q2, L, ops[j], pt, p), p)])]))
Val(w) == << << D0, w >> >>
DivL(d) == [i \in 1..d |-> << Dv(i), Unit(i, d) >>]
RowDivL(d, r) == [j \in 1..d |-> << Dv(j), Unit((r - 1) * d + j, d * d) >>]
CoordDirs(d) == [i \in 1..d |-> Unit(i, d)]

(* geometry of the pieces *)
Shared(v1, v2) == SelectSeq(v1, LAMBDA a : \E b \in SetOf(v2) : a = b)
DirsOf(vs, p) == TLCEval([i \in 1..(Len(vs) - 1) |-> VSubP(vs[i + 1], vs[1], p)])
FacetSize(cell) == CASE cell = "interval" -> 1 [] cell \in {"triangle", "quadrilateral"} -> 2 [] OTHER -> 3
Ifaces(o) == AsSeq({t \in (1..Len(o.pieces)) \X (1..Len(o.pieces)) :
                     t[1] < t[2] /\ Len(Shared(o.pieces[t[1]].v, o.pieces[t[2]].v)) >= FacetSize(o.cell)})
(* conditions on every interface: the operators in Ls agree, of degree at most hi there *)
Glue(o, Ls, hi, p) ==
  LET fs == Ifaces(o)
  IN Flat(TLCEval([i \in 1..Len(fs) |->
       LET sh == Shared(o.pieces[fs[i][1]].v, o.pieces[fs[i][2]].v)
       IN Flat(TLCEval([l \in 1..Len(Ls) |-> Agree(fs[i][1], fs[i][2], Ls[l], sh[1], DirsOf(sh, p), hi, p)]))]))
(* facets of the cell: <<first vertex, directions, normal (not scaled), piece>> *)
FacetList(o) ==
  LET d == CellDim[o.cell]
      se == SubEntities(o.cell, d - 1)
      dv == DefaultVertices(o.cell)
  IN TLCEval([n \in 1..Len(se) |->
       LET vs == TLCEval([i \in 1..Len(se[n]) |-> o.verts[se[n][i] + 1]])
           ax == Axes(SubType(o.cell, d - 1, n), vs, o.p)
           pc == CHOOSE q \in 1..Len(o.pieces) : Len(o.pieces) = 1 \/ \A i \in 1..Len(vs) : vs[i] \in SetOf(o.pieces[q].v)
       IN << vs[1], ax, RawNormal(ax, o.p), pc >>])
OnFacets(o, F(_)) == LET fl == FacetList(o) IN Flat(TLCEval([n \in 1..Len(fl) |-> F(fl[n])]))
NormalD(n, p) == DirD(n, 1, p)
Outer(n, p) == Flat(TLCEval([i \in 1..Len(n) |-> TLCEval([j \in 1..Len(n) |-> FMul(n[i], n[j], p)])]))

(* the space of all functions the conditions are imposed on: [units, monomials] of every piece *)
Super(fam, cell, k) ==
  LET d == CellDim[cell]
      vec(n) == [u |-> Units(d), m |-> AsSeq(PExps(d, n))]
      sc(n) == [u |-> << <<1>> >>, m |-> AsSeq(PExps(d, n))]
      sym(n) == [u |-> SymUnits(d), m |-> AsSeq(PExps(d, n))]
  IN CASE fam = "Brezzi-Douglas-Fortin-Marini" -> vec(k)
       [] fam = "Bell" -> sc(5)
       [] fam = "Mardal-Tai-Winther" -> vec(3)
       [] fam = "Arnold-Winther" -> sym(k)
       [] fam = "nonconforming Arnold-Winther" -> sym(2)
       [] fam \in {"Hsieh-Clough-Tocher", "reduced Hsieh-Clough-Tocher"} -> sc(3)
       [] fam = "Alfeld-Sorokina" -> vec(2)
       [] fam = "Guzman-Neilan" -> vec(d)
       [] fam = "P1 macro" -> sc(1)
       [] OTHER -> IF cell = "quadrilateral" THEN [u |-> << <<1>> >>, m |-> AsSeq(QExps(2, 1))] ELSE sc(1)
C0All(o, d, hi, p) == Glue(o, [i \in 1..d |-> Val(Unit(i, d))], hi, p)
Conds(o) ==
  LET p == o.p
      k == o.order
      d == CellDim[o.cell]
      orig == o.verts[1]
      cd == CoordDirs(d)
      normDeg(lo, hi) == OnFacets(o, LAMBDA f : DegBelow(f[4], Val(f[3]), f[1], f[2], lo, hi, p))
      sym(hi) == DegBelow(1, << << D0, [c \in 1..(d * d) |-> IF c = 2 THEN 1 ELSE IF c = d + 1 THEN p - 1 ELSE 0] >> >>, orig, cd, 0, hi, p)
      c0c1(hi) == Glue(o, << Val(<<1>>) >>, hi, p) \o Glue(o, [i \in 1..d |-> << << Dv(i), <<1>> >> >>], hi - 1, p)
  IN CASE o.fam = "Brezzi-Douglas-Fortin-Marini" -> normDeg(k, k)
       [] o.fam = "Bell" -> OnFacets(o, LAMBDA f : DegBelow(1, << << NormalD(f[3], p), <<1>> >> >>, f[1], f[2], 4, 4, p))
       [] o.fam = "Mardal-Tai-Winther" -> DegBelow(1, DivL(2), orig, cd, 1, 2, p) \o normDeg(2, 3)
       [] o.fam = "Arnold-Winther" -> sym(k) \o DegBelow(1, RowDivL(2, 1), orig, cd, k - 1, k - 1, p)
                                             \o DegBelow(1, RowDivL(2, 2), orig, cd, k - 1, k - 1, p)
       [] o.fam = "nonconforming Arnold-Winther" ->
            sym(2) \o OnFacets(o, LAMBDA f : DegBelow(1, Val(Outer(f[3], p)), f[1], f[2], 2, 2, p))
       [] o.fam = "Hsieh-Clough-Tocher" -> c0c1(3)
       [] o.fam = "reduced Hsieh-Clough-Tocher" ->
            c0c1(3) \o OnFacets(o, LAMBDA f : DegBelow(f[4], << << NormalD(f[3], p), <<1>> >> >>, f[1], f[2], 2, 2, p))
       [] o.fam = "Alfeld-Sorokina" -> C0All(o, d, 2, p) \o Glue(o, << DivL(d) >>, 1, p)
       [] o.fam = "Guzman-Neilan" ->
            C0All(o, d, d, p)
            \o (IF k > 1 THEN <<>> ELSE
                  Flat([q \in 1..Len(o.pieces) |-> DegBelow(q, DivL(d), orig, cd, 1, d - 1, p)]))
            \o OnFacets(o, LAMBDA f : Flat([t \in 1..Len(f[2]) |-> DegBelow(f[4], Val(f[2][t]), f[1], f[2], k + 1, d, p)]))
       [] o.fam = "P1 macro" -> C0All(o, 1, 1, p)
       [] OTHER -> C0All(o, 1, IF o.cell = "quadrilateral" THEN 2 ELSE 1, p)

(* value of a condition on x^e times a unit, on the piece q; and on a combination of functions *)
FallF(n, a) == IF a > n THEN 0 ELSE FoldLeft(LAMBDA x, i : x * (n - i + 1), 1, [i \in 1..a |-> i])
DMonAt(e, dd, pt, p) ==
  LET g(v) == IF dd[v] > e[v] THEN 0 ELSE FMul(FallF(e[v], dd[v]) % p, FPow(IF v <= Len(pt) THEN pt[v] ELSE 0, e[v] - dd[v], p), p)
  IN FMul(g(1), FMul(g(2), g(3), p), p)
CondOnMono(cond, q, u, e, p) ==
  FSum(TLCEval([i \in 1..Len(cond) |-> IF cond[i].q # q \/ cond[i].w = 0 \/ u[cond[i].c] = 0 THEN 0
                 ELSE FMul(cond[i].w, DMonAt(e, cond[i].d, cond[i].pt, p), p)]), p)
CondRow(cond, nq, sp, p) ==
  Flat(TLCEval([q \in 1..nq |-> Flat(TLCEval([u \in 1..Len(sp.u) |-> TLCEval([m \in 1..Len(sp.m) |->
      CondOnMono(cond, q, sp.u[u], sp.m[m], p)])]))]))
CondOnFn(cond, fq, p) == \* fq[q][c]: term sequence
  FSum(TLCEval([i \in 1..Len(cond) |-> IF cond[i].w = 0 THEN 0
        ELSE FMul(cond[i].w, FSum(TLCEval([t \in 1..Len(fq[cond[i].q][cond[i].c]) |->
               LET x == fq[cond[i].q][cond[i].c][t]
               IN FMul(x[1], DMonAt(<<x[2], x[3], x[4]>>, cond[i].d, cond[i].pt, p), p)]), p), p)]), p)

(* closed formulae for the dimensions *)
Choose(n, r) == IF r < 0 \/ r > n THEN 0 ELSE FoldLeft(LAMBDA a, i : (a * (n - i + 1)) \div i, 1, [i \in 1..r |-> i])
PDim(d, k) == IF k < 0 THEN 0 ELSE Choose(k + d, d)
QDim(d, k) == (k + 1)^d
SerDim(d, k) == FoldLeft(LAMBDA a, j : a + 2^(d - j + 1) * Choose(d, j - 1) * Choose(k - j + 1, j - 1), 0,
                         [j \in 1..((IF d < k \div 2 THEN d ELSE k \div 2) + 1) |-> j])
Pick(s, k) == IF k \in 1..Len(s) THEN s[k] ELSE -1
DimF(fam, cell, k) ==      \* -1: no formula recorded
  LET d == CellDim[cell]
      tri == cell = "triangle"
      quad == cell = "quadrilateral"
  IN CASE fam = "Lagrange" /\ cell = "prism" -> ((k + 1) * (k + 1) * (k + 2)) \div 2
       [] fam = "Lagrange" /\ cell = "pyramid" -> ((k + 1) * (k + 2) * (2 * k + 3)) \div 6
       [] fam \in {"Lagrange", "Bernstein", "Taylor", "Hermite", "Argyris", "Morley", "Crouzeix-Raviart", "Fortin-Soulie", "dPc",
                   "Morley-Wang-Xu"} -> PDim(d, k)
       [] fam \in {"vector Lagrange", "vector dPc", "Brezzi-Douglas-Marini", "Nedelec2"} -> d * PDim(d, k)
       [] fam = "matrix Lagrange" -> d * d * PDim(d, k)
       [] fam \in {"symmetric matrix Lagrange", "Hellan-Herrmann-Johnson"} -> ((d * (d + 1)) \div 2) * PDim(d, k)
       [] fam = "Regge" /\ IsSimplex(cell) -> ((d * (d + 1)) \div 2) * PDim(d, k)
       [] fam = "Regge" -> IF quad THEN 2 * (k + 1) * (k + 2) + (k + 1)^2
                           ELSE 3 * (k + 1) * (k + 2)^2 + 3 * (k + 1)^2 * (k + 2)
       [] fam = "Q" -> QDim(d, k)
       [] fam = "vector Q" -> d * QDim(d, k)
       [] fam = "Bogner-Fox-Schmit" -> 16
       [] fam = "serendipity" -> SerDim(d, k)
       [] fam = "direct serendipity" -> SerDim(2, k)
       [] fam = "serendipity Hcurl" -> IF quad THEN 2 * PDim(2, k) + 2 ELSE Pick(<<24, 48, 84, 135>>, k)
       [] fam = "serendipity Hdiv" -> IF quad THEN (k + 1) * (k + 2) + 2 ELSE ((k + 1) * (k * k + 5 * k + 12)) \div 2
       [] fam = "trimmed serendipity Hcurl" -> IF quad THEN Pick(<<4, 10, 17, 26>>, k) ELSE Pick(<<12, 36, 66, 111>>, k)
       [] fam = "trimmed serendipity Hdiv" -> IF quad THEN Pick(<<4, 10, 17, 26>>, k) ELSE Pick(<<6, 21, 45, 82>>, k)
       [] fam = "Arbogast-Correa" -> IF k = 0 THEN 4 ELSE (k + 1) * (k + 3) + 2
       [] fam = "Raviart-Thomas" -> IF tri THEN k * (k + 2) ELSE (k * (k + 1) * (k + 3)) \div 2
       [] fam = "Nedelec" /\ cell = "prism" -> Pick(<<9, 36>>, k)
       [] fam = "Nedelec" -> IF tri THEN k * (k + 2) ELSE (k * (k + 2) * (k + 3)) \div 2
       [] fam = "NCF" -> d * k^(d - 1) * (k + 1)
       [] fam = "NCE" -> d * k * (k + 1)^(d - 1)
       [] fam = "Arnold-Boffi-Falk" -> 2 * (k + 1) * (k + 3)
       [] fam = "Huang-Zhang" -> 2 * k * (k + 1)
       [] fam = "Brezzi-Douglas-Duran-Fortin" -> ((k + 1) * (k + 2) * (k + 3)) \div 2 + 3 * (k + 1)
       [] fam = "Brezzi-Douglas-Fortin-Marini" ->
            CASE quad -> (k + 1) * (k + 2) - 2 [] tri -> (k + 1) * (k + 2) - 3
              [] cell = "tetrahedron" -> ((k + 1) * (k + 2) * (k + 3)) \div 2 - 4 * (k + 1)
              [] OTHER -> ((k + 1) * (k + 2) * (k + 3)) \div 2 - 3 * (k + 1)
       [] fam = "tiniest tensor" -> IF d = 2 THEN QDim(2, k) + 4 ELSE QDim(3, k) + 12
       [] fam = "tiniest tensor Hdiv" -> IF d = 2 THEN 2 * QDim(2, k) + 3 ELSE 3 * QDim(3, k) + 7
       [] fam = "tiniest tensor Hcurl" -> IF d = 2 THEN 2 * QDim(2, k) + 3 ELSE 3 * QDim(3, k) + 18
       [] fam = "bubble" -> IF IsBox(cell) THEN (k - 1)^d ELSE PDim(d, k - d - 1)
       [] fam = "bubble enriched Lagrange" -> IF k = 1 THEN 4 ELSE IF k = 2 THEN 9 ELSE -1
       [] fam = "bubble enriched vector Lagrange" -> IF k = 1 THEN 8 ELSE IF k = 2 THEN 18 ELSE -1
       [] fam = "conforming Crouzeix-Raviart" -> IF k = 1 THEN 3 ELSE PDim(2, k) + k - 1
       [] fam = "Kong-Mulder-Veldhuizen" -> IF tri THEN Pick(<<3, 7, 12>>, k) ELSE Pick(<<4, 23>>, k)
       [] fam = "Bernardi-Raugel" -> IF tri THEN 9 ELSE Pick(<<16, 37>>, k)
       [] fam = "Rannacher-Turek" -> IF d = 2 THEN 4 ELSE 6
       [] fam = "Wu-Xu" -> Pick(<<4, 12, 38>>, d)
       [] fam = "Mardal-Tai-Winther" -> IF tri THEN 9 ELSE 24
       [] fam = "Bell" -> 18
       [] fam = "Arnold-Winther" -> (3 * k * k + 5 * k + 6) \div 2
       [] fam = "nonconforming Arnold-Winther" -> 15
       [] fam = "Hsieh-Clough-Tocher" -> 12
       [] fam = "reduced Hsieh-Clough-Tocher" -> 9
       [] fam = "Alfeld-Sorokina" -> 15
       [] fam = "P1 macro" -> 4
       [] fam = "P1-iso-P2" -> IF cell = "interval" THEN 3 ELSE IF tri THEN 6 ELSE 9
       [] fam = "Guzman-Neilan" -> IF tri THEN 11 ELSE Pick(<<19, 49>>, k)
       [] OTHER -> -1
===============================================================================
