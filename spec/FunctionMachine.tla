--------------------------- MODULE FunctionMachine ---------------------------
(* A register machine over functions.  A state holds the kinds, shapes and degrees of the registers and  *)
(* the program executed so far; TLC generates random behaviours (-simulate) and prints their programs,   *)
(* which are then run by the library.  Operations never change a register that exists.                   *)
EXTENDS FunctionAlgebra, Json, IOUtils
Start == 6                                  \* number of registers that are filled before operations begin
Depth == atoi(IOEnv.DEPTH)                    \* length of the programs
Calculus == IOEnv.CALCULUS = "1"
(* 0: plain functions only; 1, 2, 3: piecewise functions on intervals, polygons, tetrahedra as well *)
Pieces == atoi(IOEnv.PIECES)
MaxDeg == 8
VARIABLES regs, prog
vars == << regs, prog >>

Kinds == IF Pieces > 0 THEN <<"P", "P", "P", "P", "P", "S", "V", "M", "B", "int", "num", "expr", "tup">>
         ELSE <<"S", "S", "V", "V", "M", "M", "B", "B", "C", "int", "num", "expr", "tup", "list", "tt", "sm">>
ShapeFor(k) == CASE k \in {"int", "num", "expr", "S"} -> {<<>>}
                 [] k \in {"tup", "list", "V"} -> {<<2>>, <<3>>}
                 [] k \in {"tt", "sm", "M"} -> {<<2, 2>>, <<3, 3>>, <<2, 3>>, <<3, 2>>}
                 [] k = "P" -> {<<>>, <<2>>, <<3>>, <<2, 2>>, <<3, 3>>}
                 [] OTHER -> {<<>>, <<2>>, <<2, 2>>, <<3>>}
(* n, d: bounds of the degrees of numerator and denominator *)
Reg(k, s) == {[k |-> k, s |-> s, n |-> IF k \in {"int", "num"} THEN 0 ELSE 2, d |-> q] :
               q \in IF k \in {"S", "V"} /\ Pieces = 0 THEN {0, 1} ELSE {0}}
New == \E k \in {Kinds[RandomElement(1..Len(Kinds))]} :
         \E s \in {RandomElement(ShapeFor(k))} :
           \E r \in {RandomElement(Reg(k, s))} :
             /\ regs' = Append(regs, r)
             /\ prog' = Append(prog, [op |-> "new", k |-> r.k, s |-> r.s, q |-> r.d, i |-> 0, j |-> 0,
                                     \* subdivision and order of the pieces of a piecewise function
                                     arg |-> IF k = "P" THEN << RandomElement(1..5), RandomElement(1..6) >> ELSE <<>>, adds |-> TRUE])

MaxN(a, b) == IF a > b THEN a ELSE b
Deg(op, arg, a, b) ==
  CASE op \in {"add", "sub"} -> << MaxN(a.n + b.d, b.n + a.d), a.d + b.d >>
    [] op \in {"mul", "dot", "cross", "matmul"} -> << a.n + b.n + (IF op = "mul" THEN 0 ELSE 2 * (a.d + b.d)),
                                                     (a.d + b.d) * (IF op = "mul" THEN 1 ELSE 3) >>
    [] op = "div" -> << a.n + b.d, a.d + b.n >>
    [] op = "pow" -> LET e == IF arg[1] < 0 THEN 0 - arg[1] ELSE arg[1]
                     IN IF arg[1] < 0 THEN << e * a.d, e * a.n >> ELSE << e * a.n, e * a.d >>
    [] op = "powp" -> << 3 * a.n, 3 * a.d >>
    [] op = "det" -> << 3 * (a.n + 2 * a.d), 9 * a.d >>
    [] op = "subs" -> << 2 * (a.n + a.d), 2 * a.d >>
    [] OTHER -> << a.n, a.d >>
Fits(op, arg, a, b) == LET d == Deg(op, arg, a, b) IN d[1] <= MaxDeg /\ d[2] <= MaxDeg
Entry(op, i, j, arg, adds) == [op |-> op, k |-> "", s |-> <<>>, q |-> 0, i |-> i, j |-> j, arg |-> arg, adds |-> adds]
Apply(op, i, j, arg) ==
  LET a == regs[i]
      b == regs[j]
      s == Shape(op, arg, a.s, b.s)
      d == Deg(op, arg, a, b)
      adds == ~(s = NoShape \/ op \in {"eq", "len", "shape", "iter", "iter2", "piece"} \/ s = <<0>>)
  IN /\ prog' = Append(prog, Entry(op, i, j, arg, adds))
     /\ regs' = IF ~adds THEN regs
                ELSE Append(regs, [k |-> IF a.k = "P" \/ b.k = "P" THEN "P" ELSE IF op = "subs" /\ a.k \in {"B", "C"} THEN "C" ELSE KindOf(s),
                                   s |-> s, n |-> d[1], d |-> d[2]])

Bin == <<"add", "add", "sub", "sub", "mul", "mul", "div", "matmul", "dot", "cross", "eq">>
StepBinary ==
  \E op \in {Bin[RandomElement(1..Len(Bin))]} :
    LET pairs == {q \in (1..Len(regs)) \X (1..Len(regs)) :
                    /\ IsFun(regs[q[1]].k) \/ (IsFun(regs[q[2]].k) /\ op \notin {"dot", "cross"})
                    /\ Pieces > 0 => regs[q[1]].k = "P" \/ regs[q[2]].k = "P"
                    /\ Fits(op, <<>>, regs[q[1]], regs[q[2]])}
        good == {q \in pairs : Shape(op, <<>>, regs[q[1]].s, regs[q[2]].s) # NoShape}
        from == IF good = {} \/ RandomElement(1..6) = 1 THEN pairs ELSE good
    IN IF from = {} THEN UNCHANGED vars
       ELSE \E q \in {RandomElement(from)} : Apply(op, q[1], q[2], <<>>)

Un == IF Pieces > 0 THEN <<"neg", "pow", "powp", "item", "item2", "slice", "len", "shape", "transpose", "det", "subs", "subs", "subs",
                         "piece", "piece", "mapped", "mapped">>
      ELSE <<"neg", "pow", "pow", "item", "item", "item2", "slice", "row", "col", "iter", "iter2", "len", "shape", "transpose", "det",
        "subs", "subs", "subs">>
StepUnary ==
  \E op \in {Un[RandomElement(1..Len(Un))]} :
    \E arg \in {CASE op = "pow" -> << RandomElement(-1..3) >>
                  [] op = "powp" -> [i \in 1..6 |-> RandomElement(0..3)]      \* exponents that differ from piece to piece
                  [] op \in {"item", "row", "col"} -> << RandomElement(-3..2) >>
                  [] op \in {"item2", "slice"} -> << RandomElement(-3..3), RandomElement(-3..3) >>
                  [] op \in {"subs", "piece", "mapped"} -> << RandomElement(1..6) >>      \* form of the substitution
                  [] OTHER -> <<>>} :
      LET idx == {i \in 1..Len(regs) : IsFun(regs[i].k) /\ (Pieces > 0 => regs[i].k = "P") /\ Fits(op, arg, regs[i], regs[i])}
          good == {i \in idx : Shape(op, arg, regs[i].s, <<>>) # NoShape}
          from == IF good = {} \/ RandomElement(1..5) = 1 THEN idx ELSE good
      IN IF from = {} THEN UNCHANGED vars
         ELSE \E i \in {RandomElement(from)} : Apply(op, i, i, arg)

Calc == <<"diff", "ddir", "jaccomp", "jacobian", "grad", "divg", "curl", "norm", "detnorm", "integral", "integral", "integrate">>
CalcFits(op, s) == CASE op \in {"divg", "norm"} -> Len(s) = 1
                      [] op = "curl" -> s = <<3>>
                      [] op \in {"diff", "ddir"} -> TRUE
                      [] op = "detnorm" -> Len(s) = 2
                      [] OTHER -> s = <<>>
StepCalculus ==
  \E op \in {Calc[RandomElement(1..Len(Calc))]} :
    LET idx == {i \in 1..Len(regs) : IsFun(regs[i].k) /\ (Pieces > 0 => regs[i].k = "P") /\ regs[i].n <= 6}
        good == {i \in idx : CalcFits(op, regs[i].s)}
        from == IF good = {} \/ RandomElement(1..5) = 1 THEN idx ELSE good
    IN IF from = {} THEN UNCHANGED vars
       ELSE \E i \in {RandomElement(from)} : Apply(op, i, i, << RandomElement(1..8) >>)

Init == regs = <<>> /\ prog = <<>>
Step == IF Len(regs) < Start THEN New
        ELSE \E c \in {RandomElement(1..6)} : IF Calculus /\ c <= 3 THEN StepCalculus
                                              ELSE IF c <= 2 \/ c = 6 THEN StepUnary ELSE StepBinary
Next == /\ Len(prog) < Depth
        /\ Step
        /\ IF Len(prog') = Depth /\ Len(prog) < Depth THEN PrintT(ToJson(prog')) ELSE TRUE
Spec == Init /\ [][Next]_vars
(* every register is described completely *)
TypeOK == \A i \in 1..Len(regs) : regs[i].k \in Functions \cup RawScalars \cup RawVectors \cup RawMatrices
           /\ (regs[i].s = <<>> \/ Size(regs[i].s) > 0) /\ regs[i].n >= 0
===============================================================================
