---------------------------------- MODULE GF ----------------------------------
(* Arithmetic in the prime field GF(p).  p is a parameter of every operator, so that each recorded    *)
(* observation can carry the prime it was projected with.  p < 46341 keeps products in 32 bits.       *)
EXTENDS Integers, Sequences, SequencesExt, TLC

FAdd(a, b, p) == (a + b) % p
FSub(a, b, p) == (a - b) % p
FMul(a, b, p) == (a * b) % p
FNeg(a, p)    == (0 - a) % p

RECURSIVE FPow(_, _, _)
FPow(a, e, p) == IF e = 0 THEN 1 % p
                 ELSE LET h == FPow(a, e \div 2, p)
                          s == (h * h) % p
                      IN IF e % 2 = 0 THEN s ELSE (s * a) % p
FInv(a, p) == FPow(a % p, p - 2, p)
FDiv(a, b, p) == FMul(a % p, FInv(b, p), p)
FRat(r, p) == FDiv(r[1] % p, r[2] % p, p)           \* image of the rational <<num, den>>

FSum(s, p) == FoldLeft(LAMBDA a, b : (a + b) % p, 0, s)
FProd(s, p) == FoldLeft(LAMBDA a, b : (a * b) % p, 1, s)
FDot(s, t, p) == FSum(TLCEval([i \in 1..Len(s) |-> (s[i] * t[i]) % p]), p)

(* vectors and matrices (sequences of rows) *)
VAdd(u, v, p) == [i \in 1..Len(u) |-> (u[i] + v[i]) % p]
VSub(u, v, p) == [i \in 1..Len(u) |-> (u[i] - v[i]) % p]
VScale(a, v, p) == [i \in 1..Len(v) |-> (a * v[i]) % p]
MatVec(m, v, p) == [i \in 1..Len(m) |-> FDot(m[i], v, p)]
Col(m, j) == [i \in 1..Len(m) |-> m[i][j]]
Transp(m) == [j \in 1..Len(m[1]) |-> Col(m, j)]
MatMul(a, b, p) == [i \in 1..Len(a) |-> [j \in 1..Len(b[1]) |-> FDot(a[i], Col(b, j), p)]]
Ident(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]

M2(a, b, c, d, p) == (((a * d) % p) - ((b * c) % p)) % p           \* 2 x 2 determinant
Cross3(u, v, p) == << M2(u[2], u[3], v[2], v[3], p), M2(u[3], u[1], v[3], v[1], p),
                      M2(u[1], u[2], v[1], v[2], p) >>

(* determinant of a matrix of size 0..3 *)
Det(m, p) ==
  CASE Len(m) = 0 -> 1
    [] Len(m) = 1 -> m[1][1] % p
    [] Len(m) = 2 -> M2(m[1][1], m[1][2], m[2][1], m[2][2], p)
    [] OTHER      -> FDot(m[1], Cross3(m[2], m[3], p), p)

Drop2(m, i, j) == [r \in 1..(Len(m) - 1) |->
                     LET rr == IF r < i THEN r ELSE r + 1
                     IN [c \in 1..(Len(m) - 1) |-> m[rr][IF c < j THEN c ELSE c + 1]]]
(* inverse of a square matrix of size 1..3 by cofactors *)
MatInv(m, p) ==
  LET n == Len(m)
      d == FInv(Det(m, p), p)
  IN IF n = 1 THEN << <<d>> >>
     ELSE [i \in 1..n |-> [j \in 1..n |->
            (d * ((IF (i + j) % 2 = 0 THEN 1 ELSE -1) * Det(Drop2(m, j, i), p))) % p]]

(* Rank of a matrix given as a sequence of rows, by Gaussian elimination. *)
RECURSIVE RankFrom(_, _, _)
RankFrom(rows, c, p) ==
  IF rows = <<>> THEN 0
  ELSE IF c > Len(rows[1]) THEN 0
  ELSE LET piv == {i \in 1..Len(rows) : rows[i][c] % p # 0}
       IN IF piv = {} THEN RankFrom(rows, c + 1, p)
          ELSE LET k == CHOOSE i \in piv : \A j \in piv : i <= j
                   inv == FInv(rows[k][c], p)
                   pr == TLCEval([j \in 1..Len(rows[k]) |-> (rows[k][j] * inv) % p])
                   rest == TLCEval([i \in 1..(Len(rows) - 1) |->
                             LET r == rows[IF i < k THEN i ELSE i + 1]
                                 a == r[c] % p
                             IN IF a = 0 THEN r
                                ELSE TLCEval([j \in 1..Len(r) |-> (r[j] - ((a * pr[j]) % p)) % p])])
               IN 1 + RankFrom(rest, c + 1, p)
Rank(rows, p) == RankFrom(rows, 1, p)

(* Row echelon form: a sequence of <<pivot column, row with 1 in that column and 0 in earlier pivots>> *)
Reduce(ech, row, p) ==
  FoldLeft(LAMBDA r, e : LET a == r[e[1]]
                         IN IF a = 0 THEN r
                            ELSE TLCEval([j \in 1..Len(r) |-> (r[j] - ((a * e[2][j]) % p)) % p]), row, ech)
IsZeroV(v) == \A j \in 1..Len(v) : v[j] = 0
Echelon(rows, p) ==
  FoldLeft(LAMBDA ech, row :
     LET r == Reduce(ech, row, p)
     IN IF IsZeroV(r) THEN ech
        ELSE LET k == CHOOSE j \in 1..Len(r) : r[j] # 0 /\ \A i \in 1..(j - 1) : r[i] = 0
                 inv == FInv(r[k], p)
             IN Append(ech, << k, TLCEval([j \in 1..Len(r) |-> (r[j] * inv) % p]) >>), <<>>, rows)
InSpan(ech, row, p) == IsZeroV(Reduce(ech, row, p))
===============================================================================
