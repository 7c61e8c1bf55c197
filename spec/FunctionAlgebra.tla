--------------------------- MODULE FunctionAlgebra ---------------------------
(* Operations of the algebra of scalar, vector and matrix valued functions: which shapes an operation   *)
(* accepts, which combinations of operand kinds have to be answered, and what its value is.             *)
(* Shapes: <<>> scalar, <<n>> vector, <<r, c>> matrix; values are row major sequences of residues.      *)
EXTENDS Poly

RawScalars == {"int", "num", "expr"}
RawVectors == {"tup", "list"}
RawMatrices == {"tt", "sm"}
Functions == {"S", "V", "M", "B", "C", "P"}  \* plain functions, lazy basis functions, substituted ones, piecewise ones
IsFun(k) == k \in Functions
NoShape == <<0>>
KindOf(s) == CASE s = <<>> -> "S" [] Len(s) = 1 -> "V" [] OTHER -> "M"
Size(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)

Binary == {"add", "sub", "mul", "div", "matmul", "dot", "cross", "eq"}
Unary == {"neg", "pow", "powp", "item", "item2", "slice", "row", "col", "iter", "iter2", "len", "shape", "transpose", "det", "subs"}

(* arg is a sequence of integers: exponent, indices, bounds *)
InRange(i, n) == i >= (0 - n) /\ i < n
Norm(i, n) == IF i < 0 THEN i + n ELSE i
SliceLo(a, n) == LET b == IF a < 0 THEN a + n ELSE a IN IF b < 0 THEN 0 ELSE IF b > n THEN n ELSE b
SliceLen(a, n) == LET l == SliceLo(a[1], n)
                      h == SliceLo(a[2], n)
                  IN IF h > l THEN h - l ELSE 0
Shape(op, arg, a, b) ==
  CASE op \in {"add", "sub"} -> IF a = b THEN a ELSE NoShape
    [] op = "mul" -> IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE NoShape
    [] op = "div" -> IF b = <<>> THEN a ELSE NoShape
    [] op = "matmul" -> IF Len(a) = 2 /\ Len(b) = 2 /\ a[2] = b[1] THEN << a[1], b[2] >>
                        ELSE IF Len(a) = 2 /\ Len(b) = 1 /\ a[2] = b[1] THEN << a[1] >>
                        ELSE IF Len(a) = 1 /\ Len(b) = 2 /\ a[1] = b[1] THEN << b[2] >>
                        ELSE NoShape
    [] op = "dot" -> IF a = b THEN <<>> ELSE NoShape
    [] op = "cross" -> IF a = <<2>> /\ b = <<2>> THEN <<>> ELSE IF a = <<3>> /\ b = <<3>> THEN <<3>> ELSE NoShape
    [] op \in {"neg", "pow", "powp", "subs", "piece", "mapped"} -> a
    [] op = "item" -> IF Len(a) = 1 /\ InRange(arg[1], a[1]) THEN <<>>
                      ELSE IF Len(a) = 2 /\ InRange(arg[1], a[1]) THEN << a[2] >> ELSE NoShape
    [] op = "item2" -> IF Len(a) = 2 /\ InRange(arg[1], a[1]) /\ InRange(arg[2], a[2]) THEN <<>> ELSE NoShape
    [] op = "row" -> IF Len(a) = 2 /\ InRange(arg[1], a[1]) THEN << a[2] >> ELSE NoShape
    [] op = "col" -> IF Len(a) = 2 /\ InRange(arg[1], a[2]) THEN << a[1] >> ELSE NoShape
    [] op = "slice" -> IF Len(a) = 1 THEN << SliceLen(arg, a[1]) >> ELSE NoShape
    [] op = "iter" -> IF Len(a) = 1 THEN a ELSE NoShape
    [] op = "iter2" -> IF Len(a) = 1 THEN << 2 * a[1] * a[1] >> ELSE NoShape
    [] op = "len" -> IF Len(a) = 1 THEN <<>> ELSE NoShape
    [] op = "shape" -> IF a = <<>> THEN NoShape ELSE a
    [] op = "transpose" -> IF Len(a) = 2 THEN << a[2], a[1] >> ELSE NoShape
    [] op = "det" -> IF Len(a) = 2 /\ a[1] = a[2] /\ a[1] <= 3 THEN <<>> ELSE NoShape
    [] OTHER -> NoShape

(* combinations of operand kinds that the library has to answer if the shapes fit: any two functions,  *)
(* a number or expression with a function, and lists, nested lists and matrices where sums and          *)
(* products with them are offered                                                                      *)
MustAnswer(op, ka, kb) ==
  \/ op \in Unary \ {"row", "col"}
  \/ op \in {"row", "col"} /\ ka = "M"
  \/ op = "eq"
  \/ op \in Binary /\ IsFun(ka) /\ IsFun(kb)
  \/ op \in {"add", "sub", "mul", "div"} /\ (ka \in RawScalars \/ kb \in RawScalars)
  \/ op \in {"add", "sub"} /\ (ka \in RawVectors \cup {"tt"} \/ kb \in RawVectors \cup RawMatrices)
  \/ op \in {"dot", "cross"} /\ IsFun(ka)
(* ... and those whose refusal is part of the contract: shapes do not fit *)
MustRefuse(op, arg, a, b) == op \notin {"eq", "len", "iter", "iter2", "shape", "row", "col", "slice"} /\ Shape(op, arg, a, b) = NoShape

M(v, s, i, j) == v[(i - 1) * s[2] + j]
RowsOf(v, s) == TLCEval([i \in 1..s[1] |-> TLCEval([j \in 1..s[2] |-> M(v, s, i, j)])])
MPow(c, n, p) == IF n >= 0 THEN FPow(c, n, p) ELSE FPow(FInv(c, p), 0 - n, p)
(* value of the operation at a point, from the values va, vb of the operands *)
Value(op, arg, a, b, va, vb, p) ==
  LET n == Size(a)
  IN CASE op = "add" -> VAdd(va, vb, p)
    [] op = "sub" -> VSub(va, vb, p)
    [] op = "mul" -> IF a = <<>> THEN VScale(va[1], vb, p) ELSE VScale(vb[1], va, p)
    [] op = "div" -> VScale(FInv(vb[1], p), va, p)
    [] op = "matmul" ->
         LET sa == IF Len(a) = 2 THEN a ELSE << 1, a[1] >>
             sb == IF Len(b) = 2 THEN b ELSE << b[1], 1 >>
         IN Flat(MatMul(RowsOf(va, sa), RowsOf(vb, sb), p))
    [] op = "dot" -> << FDot(va, vb, p) >>
    [] op = "cross" -> IF a = <<2>> THEN << M2(va[1], va[2], vb[1], vb[2], p) >> ELSE Cross3(va, vb, p)
    [] op = "neg" -> VScale(0 - 1, va, p)
    [] op = "pow" -> [i \in 1..n |-> MPow(va[i], arg[1], p)]
    [] op = "item" -> IF Len(a) = 1 THEN << va[Norm(arg[1], a[1]) + 1] >>
                      ELSE RowsOf(va, a)[Norm(arg[1], a[1]) + 1]
    [] op = "item2" -> << M(va, a, Norm(arg[1], a[1]) + 1, Norm(arg[2], a[2]) + 1) >>
    [] op = "row" -> RowsOf(va, a)[Norm(arg[1], a[1]) + 1]
    [] op = "col" -> [i \in 1..a[1] |-> M(va, a, i, Norm(arg[1], a[2]) + 1)]
    [] op = "slice" -> [i \in 1..SliceLen(arg, a[1]) |-> va[SliceLo(arg[1], a[1]) + i]]
    [] op \in {"iter", "subs"} -> va
    [] op = "iter2" -> Flat([k \in 1..(n * n) |-> << va[((k - 1) \div n) + 1], va[((k - 1) % n) + 1] >>])
    [] op = "len" -> << n >>
    [] op = "transpose" -> Flat([j \in 1..a[2] |-> [i \in 1..a[1] |-> M(va, a, i, j)]])
    [] OTHER -> << Det(RowsOf(va, a), p) >>
===============================================================================
