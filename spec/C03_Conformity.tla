------------------------------ MODULE C03_Conformity ------------------------------
(* Two cells of the same type share the sub-entity of dimension ed that is number e[1] of the first and  *)
(* e[2] of the second cell; the vertices of the shared entity are numbered in the same order.            *)
(* Observation: p, cell, fam, verts (of both cells), ed, e, cont (continuity in words), kk (k for C^k), n,     *)
(*  table (DOFs of every sub-entity), fs (the functions of both cells, in coefficient form), cs (random   *)
(*  weights), xs: points of the shared entity: [t (local coordinates in the entity), q1, q2 (pieces of     *)
(*  the first and second cell whose closure contains the point)].  inner: the element is of order 0 or     *)
(*  of a variant that associates every function with the interior, and then promises no continuity.        *)
EXTENDS Functionals, Json, IOUtils
ObsAll == JsonDeserialize(IOEnv.OBS)

ET(o) == SubType(o.cell, o.ed, o.e[1] + 1)
EV(o, k) == SubVerts(o.cell, o.verts[k], o.ed, o.e[k] + 1)
EA(o) == Axes(ET(o), EV(o, 1), o.p)
SharedOk(o) == ET(o) = SubType(o.cell, o.ed, o.e[2] + 1) /\ EV(o, 1) = EV(o, 2)
               /\ IsAffine(o.cell, o.verts[1], o.p) /\ IsAffine(o.cell, o.verts[2], o.p)

(* the degrees of freedom of the closure of the shared entity, as pairs for the two cells             *)
EntVerts(o, d, n) == IF d = CellDim[o.cell] THEN [i \in 1..NVerts[o.cell] |-> i - 1] ELSE SubEntities(o.cell, d)[n]
Shared(o, k) == EntVerts(o, o.ed, o.e[k] + 1)
(* the sub-entity of cell 2 that corresponds to sub-entity (d, n) of cell 1 *)
Image(o, d, n) ==
  LET s1 == Shared(o, 1)
      s2 == Shared(o, 2)
      v == EntVerts(o, d, n)
      w == TLCEval([i \in 1..Len(v) |-> s2[CHOOSE j \in 1..Len(s1) : s1[j] = v[i]]])
  IN CHOOSE m \in 1..Len(SubEntities(o.cell, d)) : EntVerts(o, d, m) = w
InClosure(o, k, d, n) == d <= o.ed /\ IsFace(EntVerts(o, d, n), Shared(o, k))
Ents(o) == {<<d, n>> \in (0..o.ed) \X (1..12) : n <= Len(SubEntities(o.cell, d))}
ClosurePairs(o) == UNION {LET m == Image(o, x[1], x[2])
                              a == o.table[x[1] + 1][x[2]]
                              b == o.table[x[1] + 1][m]
                          IN {<<a[i], b[i]>> : i \in 1..Len(a)} : x \in {y \in Ents(o) : InClosure(o, 1, y[1], y[2])}}
Counts(o) == \A x \in {y \in Ents(o) : InClosure(o, 1, y[1], y[2])} :
                Len(o.table[x[1] + 1][x[2]]) = Len(o.table[x[1] + 1][Image(o, x[1], x[2])])
InClosureDofs(o, k) == UNION {SetOf(o.table[x[1] + 1][x[2]]) : x \in {y \in Ents(o) : InClosure(o, k, y[1], y[2])}}

(* the combination with weights w of the functions in piece pc: components as term sequences over den  *)
Comb(pc, w, p) ==
  TLCEval([c \in 1..Len(pc.m) |->
     << SelectSeq(TLCEval([m \in 1..Len(pc.m[c]) |->
           << FSum(TLCEval([j \in 1..Len(pc.c) |-> IF w[j] = 0 THEN 0 ELSE (w[j] * pc.c[j][c][m]) % p]), p),
              pc.m[c][m][1], pc.m[c][m][2], pc.m[c][m][3] >>]), LAMBDA t : t[1] # 0), pc.den >>])

(* ---- traces ---- *)
Dual2(a, v, w, p) == MatForm(v, a, w, p)
Derivs(f, k, gd, tab, p) ==  \* all derivatives of order 1..k of polynomial components
  IF k = 0 THEN <<>>
  ELSE Flat(TLCEval([g \in 1..gd |-> TLCEval([c \in 1..Len(f) |-> EvDC(f[c], g, tab, p)])]))
       \o (IF k = 1 THEN <<>>
           ELSE Flat(TLCEval([g \in 1..(gd * gd) |-> TLCEval([c \in 1..Len(f) |->
                  EvT(DPoly(DPoly(f[c][1], ((g - 1) \div gd) + 1, p), ((g - 1) % gd) + 1, p), tab, p)])])))
Trace(o, f, x) ==
  LET p == o.p
      ax == EA(o)
      tab == PTab(x, MaxPow, p)
      v == TLCEval([c \in 1..Len(f) |-> EvC(f[c], tab, p)])
      N == RawNormal(ax, p)
  IN CASE o.cont = "C" -> v \o Derivs(f, o.kk, Len(x), tab, p)
       [] o.cont = "H(div)" -> << FDot(v, N, p) >>
       [] o.cont = "H(curl)" -> TLCEval([i \in 1..Len(ax) |-> FDot(v, ax[i], p)])
       [] o.cont = "inner H(curl)" -> TLCEval([k \in 1..(Len(ax) * Len(ax)) |->
             MatForm(v, ax[((k - 1) \div Len(ax)) + 1], ax[((k - 1) % Len(ax)) + 1], p)])
       [] OTHER -> << MatForm(v, N, N, p) >>
PhysE(o, t) == At(EV(o, 1)[1], EA(o), t, o.p)
TracesAt(o, x, f) == Trace(o, f, PhysE(o, x.t))
Integral(o, fq) ==
  LET r == NCRule(8, o.p)
  IN FSum(TLCEval([i \in 1..Len(r) |-> (r[i][2] * Trace(o, fq[1], PhysE(o, << r[i][1] >>))[1]) % o.p]), o.p)
(* traces of the combination w of the functions of cell k at the points (all containing pieces)        *)
Zero(o, k, w) ==
  LET fq == TLCEval([q \in 1..Len(o.fs[k].pieces) |-> Comb(o.fs[k].pieces[q], w, o.p)])
  IN IF o.cont = "integral inner H(div)" THEN Integral(o, fq) = 0
     ELSE \A i \in 1..Len(o.xs) : \A q \in SetOf(IF k = 1 THEN o.xs[i].q1 ELSE o.xs[i].q2) :
             IsZeroV(TracesAt(o, o.xs[i], fq[q]))
Weights(o, S) == TLCEval([j \in 1..o.n |-> IF (j - 1) \in S THEN o.cs[j] ELSE 0])
Glue(o) ==
  LET pairs == ClosurePairs(o)
      w1 == TLCEval([j \in 1..o.n |-> IF \E x \in pairs : x[1] = j - 1 THEN o.cs[j] ELSE 0])
      w2 == TLCEval([j \in 1..o.n |-> LET s == {x \in pairs : x[2] = j - 1}
                                      IN IF s = {} THEN 0 ELSE o.cs[(CHOOSE x \in s : TRUE)[1] + 1]])
      f1 == TLCEval([q \in 1..Len(o.fs[1].pieces) |-> Comb(o.fs[1].pieces[q], w1, o.p)])
      f2 == TLCEval([q \in 1..Len(o.fs[2].pieces) |-> Comb(o.fs[2].pieces[q], w2, o.p)])
  IN IF o.cont = "integral inner H(div)" THEN Integral(o, f1) = Integral(o, f2)
     ELSE \A i \in 1..Len(o.xs) : \A a \in SetOf(o.xs[i].q1), b \in SetOf(o.xs[i].q2) :
             TracesAt(o, o.xs[i], f1[a]) = TracesAt(o, o.xs[i], f2[b])

(* families that are conforming in H1, H(div), H(curl) or the spaces of matrix functions: they have to  *)
(* promise some continuity                                                                             *)
Conforming ==
  {"Lagrange", "vector Lagrange", "Q", "vector Q", "serendipity", "tiniest tensor", "Bernstein", "bubble",
   "bubble enriched Lagrange", "bubble enriched vector Lagrange", "transition", "direct serendipity",
   "Kong-Mulder-Veldhuizen", "P1 macro", "P1-iso-P2", "Hermite", "Bogner-Fox-Schmit", "Hsieh-Clough-Tocher",
   "reduced Hsieh-Clough-Tocher", "Alfeld-Sorokina", "Bell", "Wu-Xu",
   "Raviart-Thomas", "Brezzi-Douglas-Marini", "Brezzi-Douglas-Fortin-Marini", "Brezzi-Douglas-Duran-Fortin",
   "Arnold-Boffi-Falk", "Arbogast-Correa", "Mardal-Tai-Winther", "NCF", "serendipity Hdiv",
   "trimmed serendipity Hdiv", "tiniest tensor Hdiv", "Huang-Zhang", "Guzman-Neilan", "Bernardi-Raugel",
   "Nedelec", "Nedelec2", "NCE", "serendipity Hcurl", "trimmed serendipity Hcurl", "tiniest tensor Hcurl",
   "Regge", "Hellan-Herrmann-Johnson", "Arnold-Winther", "nonconforming Arnold-Winther"}
Weak(o) == o.fam \in Conforming /\ ~o.inner /\ (o.cont = "L2" \/ (o.fam = "Bell" /\ o.cont = "C" /\ o.kk < 1))

Verdict(o) ==
  IF Weak(o) THEN {"the declared continuity is weaker than that of the space"}
  ELSE IF o.cont = "L2" THEN {}
  ELSE IF ~SharedOk(o) THEN {"observer: the cells do not share the entity"}
  ELSE IF (o.inner /\ \A d \in 1..CellDim[o.cell] : \A e \in 1..Len(o.table[d]) : o.table[d][e] = <<>>) THEN {}
  ELSE IF ~Counts(o) THEN {"numbers of shared DOFs differ"}
  ELSE (IF Glue(o) THEN {} ELSE {"traces of matched functions differ (" \o o.cont \o ")"})
       \cup UNION {IF Zero(o, k, Weights(o, (0..(o.n - 1)) \ InClosureDofs(o, k))) THEN {}
                   ELSE {"function of a DOF elsewhere has a trace (" \o o.cont \o ")"} : k \in 1..2}

VARIABLES lane, pos, failed
INSTANCE Runner WITH Judge <- Verdict, Obs <- ObsAll, Lanes <- 8
===============================================================================
