------------------------------- MODULE C15_Reading -------------------------------
(* Ways of reading the basis of one element.  An observation records                                     *)
(*   pieces : the basis functions, piecewise coefficient form (per piece: m exponents per component,     *)
(*            c[function][component] coefficients, den common denominator)                               *)
(*   pts    : points [q piece, x coordinates]                                                            *)
(*   tabs   : tabulations [order, refused, sig nested lengths of a row, flat entries of the row] per     *)
(*            requested order, a row per point                                                           *)
(*   floats : tabulate_basis_float [fn -> components], scaled integers; exact the same for the exact values  *)
(*   lazy   : readings of single basis functions [n, k point, how, d, vals]                              *)
(*   pairs  : operations [how, a answer of the lazily obtained function, b answer of the full basis' entry]   *)
(*   fac    : the tensor factorisation [type, perm, factors (term sequences in the first variable)]      *)
(*   tens   : functions obtained with use_tensor_factorisation                                           *)
EXTENDS Spaces, Json, IOUtils
ObsAll == JsonDeserialize(IOEnv.OBS)

(* the exact values: [function][component] at a point of a piece *)
MonVal(m, tab, p) == TLCEval([i \in 1..Len(m) |->
   (((tab[1][m[i][1] + 1] * tab[2][m[i][2] + 1]) % p) * tab[3][m[i][3] + 1]) % p])
Values(o, pt) ==
  LET p == o.p
      pc == o.pieces[pt.q]
      tab == PTab(pt.x, MaxPow, p)
      di == IF pc.den = <<>> THEN 1 ELSE FInv(EvT(pc.den, tab, p), p)
      mv == TLCEval([c \in 1..Len(pc.m) |-> VScale(di, MonVal(pc.m[c], tab, p), p)])
  IN TLCEval([j \in 1..Len(pc.c) |-> TLCEval([c \in 1..Len(pc.m) |-> FDot(pc.c[j][c], mv[c], p)])])
DValue(o, pt, j, dir) == \* derivative of function j (only for polynomial pieces)
  LET p == o.p
      pc == o.pieces[pt.q]
      tab == PTab(pt.x, MaxPow, p)
      term(c) == TLCEval([m \in 1..Len(pc.m[c]) |-> << pc.c[j][c][m], pc.m[c][m][1], pc.m[c][m][2], pc.m[c][m][3] >>])
  IN TLCEval([c \in 1..Len(pc.m) |-> EvT(DPoly(term(c), dir, p), tab, p)])

(* the layout of a tabulation: nested lengths and entries in reading order *)
FnMajor(v) == Flat(v)
CompMajor(v) == Flat(TLCEval([c \in 1..Len(v[1]) |-> TLCEval([j \in 1..Len(v) |-> v[j][c]])]))
LayoutSig(order, n, nc, scalar) ==
  IF scalar THEN << n >>
  ELSE CASE order = "xyz,xyz" -> << n, nc >>
         [] order = "xx,yy,zz" -> << nc, n >>
         [] OTHER -> << n * nc >>
LayoutVals(order, v) == IF order \in {"xxyyzz", "xx,yy,zz"} THEN CompMajor(v) ELSE FnMajor(v)
Known == {"xyzxyz", "xyz,xyz", "xxyyzz", "xx,yy,zz", "default"}
Order(o) == IF o = "default" THEN "xyzxyz" ELSE o

TabFails(o, vals) ==
  UNION {LET t == o.tabs[i]
             n == Len(vals[1])
             nc == Len(vals[1][1])
         IN IF t.order \notin Known THEN IF t.refused THEN {} ELSE {"an unknown ordering is not refused"}
            ELSE IF t.refused THEN {"ordering " \o t.order \o " refused"}
            ELSE (IF Len(t.rows) = Len(o.pts) THEN {} ELSE {"number of tabulated points"})
                 \cup UNION {(IF t.rows[k].sig = LayoutSig(Order(t.order), n, nc, o.sh = <<>>) THEN {} ELSE {"arrangement of ordering " \o t.order})
                             \cup (IF t.rows[k].flat = LayoutVals(Order(t.order), vals[k]) THEN {} ELSE {"values of ordering " \o t.order})
                             : k \in 1..(IF Len(t.rows) < Len(o.pts) THEN Len(t.rows) ELSE Len(o.pts))}
         : i \in 1..Len(o.tabs)}

Near(a, b) == a - b \in -2..2
FloatFails(o) ==
  IF Len(o.floats) = Len(o.exact) /\ \A k \in 1..Len(o.exact) :
        /\ Len(o.floats[k]) = Len(o.exact[k])
        /\ \A j \in 1..Len(o.exact[k]) : Len(o.floats[k][j]) = Len(o.exact[k][j])
                                          /\ \A c \in 1..Len(o.exact[k][j]) : Near(o.floats[k][j][c], o.exact[k][j][c])
  THEN {} ELSE {"floating-point tabulation"}

LazyFails(o, vals) ==
  UNION {LET z == o.lazy[i]
             v == vals[z.k][z.n]
             w == CASE z.how = "derivative" -> DValue(o, o.pts[z.k], z.n, z.d)
                    [] z.how = "negative" -> TLCEval([c \in 1..Len(v) |-> FNeg(v[c], o.p)])
                    [] z.how = "double" -> TLCEval([c \in 1..Len(v) |-> (2 * v[c]) % o.p])
                    [] z.how = "shape" -> o.sh
                    [] z.how = "kind" -> << Len(o.sh) >>
                    [] z.how = "length" -> IF o.sh = <<>> THEN <<>> ELSE << o.sh[1] >>
                    [] OTHER -> v
         IN IF z.vals = w THEN {} ELSE {"single basis function: " \o z.how}
         : i \in 1..Len(o.lazy)}

(* a lazily obtained function refines the entry of the full basis: every operation that the entry answers *)
(* has the same answer                                                                                  *)
PairFails(o) ==
  UNION {LET q == o.pairs[i]
         IN IF q.b.t = "refused" \/ (q.a.t = q.b.t /\ q.a.v = q.b.v) THEN {} ELSE {"lazily obtained function: " \o q.how}
         : i \in 1..Len(o.pairs)}

(* the tensor product of the recorded factors, last factor fastest, placed by the permutation *)
RECURSIVE Prods(_, _, _, _)
Prods(fs, i, pt, p) == \* values of all products of factors i, i + 1, ...
  IF i > Len(fs) THEN <<1>>
  ELSE LET tab == PTab(<< pt[i] >>, MaxPow, p)
           rest == Prods(fs, i + 1, pt, p)
           here == TLCEval([j \in 1..Len(fs[i]) |-> EvC(fs[i][j], tab, p)])
       IN Flat(TLCEval([j \in 1..Len(here) |-> VScale(here[j], rest, p)]))
FacFails(o, vals) ==
  IF o.fac = <<>> THEN {}
  ELSE LET n == Len(vals[1])
           perm == Flat(TLCEval([i \in 1..Len(o.fac) |-> o.fac[i].perm]))
           pv == TLCEval([k \in 1..Len(o.pts) |-> Flat(TLCEval([i \in 1..Len(o.fac) |-> Prods(o.fac[i].factors, 1, o.pts[k].x, o.p)]))])
       IN IF Len(perm) # n \/ {perm[i] : i \in 1..Len(perm)} # 0..(n - 1) THEN {"numbering of the factorisation is not a permutation"}
          ELSE IF \A k \in 1..Len(o.pts) : Len(pv[k]) = n /\ \A i \in 1..n : vals[k][perm[i] + 1] = << pv[k][i] >>
               THEN {} ELSE {"tensor factorisation"}
TensFails(o, vals) ==
  IF o.tens = <<>> THEN (IF o.fac = <<>> THEN {} ELSE {"basis by tensor factorisation refused"})
  ELSE IF \A k \in 1..Len(o.pts) : Len(o.tens[k]) = Len(vals[k]) /\ \A j \in 1..Len(vals[k]) : o.tens[k][j] = vals[k][j]
       THEN {} ELSE {"basis computed by tensor factorisation"}

Verdict(o) ==
  LET vals == TLCEval([k \in 1..Len(o.pts) |-> Values(o, o.pts[k])])
  IN TabFails(o, vals) \cup FloatFails(o) \cup LazyFails(o, vals) \cup PairFails(o) \cup FacFails(o, vals) \cup TensFails(o, vals)
     \cup (IF Len(vals[1]) = o.n THEN {} ELSE {"number of basis functions"})
     \cup (IF o.n = Len(o.seq) /\ \A i \in 1..o.n : o.seq[i] THEN {} ELSE {"basis functions change between readings"})

VARIABLES lane, pos, failed
INSTANCE Runner WITH Judge <- Verdict, Obs <- ObsAll, Lanes <- 16
===============================================================================
