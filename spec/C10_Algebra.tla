------------------------------ MODULE C10_Algebra ------------------------------
(* One observation per executed operation of a program of the function machine: p, op, arg, ka, kb     *)
(* (kinds of the operands), a, b (operands [sh, c]), t (how the library answered: "value", "bool",       *)
(* "number", "shape", "singular", "refused"), r (the result), v (truth values or a length), pts, sub       *)
(* (variables and expressions of a substitution), changed (registers whose value changed).               *)
EXTENDS FunctionAlgebra, Json, IOUtils
ObsAll == JsonDeserialize(IOEnv.OBS)

Regular(f, tab, p) == \A i \in 1..Len(f.c) : DenT(f.c[i], tab, p) # 0
PtSub(o, pt) ==
  LET tab == PTab(pt, MaxPow, o.p)
  IN TLCEval([i \in 1..3 |-> IF \E k \in 1..Len(o.sub[1]) : o.sub[1][k] = i
                             THEN EvC(o.sub[2][CHOOSE k \in 1..Len(o.sub[1]) : o.sub[1][k] = i], tab, o.p) ELSE pt[i]])
Tabs(o) == TLCEval([k \in 1..Len(o.pts) |-> << PTab(IF o.op = "subs" THEN PtSub(o, o.pts[k]) ELSE o.pts[k], MaxPow, o.p),
                                               PTab(o.pts[k], MaxPow, o.p) >>])
(* points at which operands, divisors and result are defined *)
Usable(o, T) == Regular(o.a, T[1], o.p) /\ Regular(o.b, T[2], o.p) /\ Regular(o.r, T[2], o.p)
                /\ (o.op = "div" => EvF(o.b, T[2], o.p)[1] # 0)
                /\ ((o.op = "pow" /\ o.arg[1] < 0) => \A i \in 1..Len(o.a.c) : EvC(o.a.c[i], T[1], o.p) # 0)
RightAt(o, T) == ~Usable(o, T)
   \/ EvF(o.r, T[2], o.p) = Value(o.op, o.arg, o.a.sh, o.b.sh, EvF(o.a, T[1], o.p), EvF(o.b, T[2], o.p), o.p)
SameAt(o, T) == Regular(o.a, T[2], o.p) /\ Regular(o.b, T[2], o.p) => EvF(o.a, T[2], o.p) = EvF(o.b, T[2], o.p)
Expected(o) == Shape(o.op, o.arg, o.a.sh, o.b.sh)
(* a quotient without a value anywhere may only come from a divisor that vanishes (somewhere on the     *)
(* substituted set) *)
MaySingular(o) == o.op \in {"div", "pow", "subs"}

Verdict(o) ==
  LET S == TLCEval(Expected(o))
      T == Tabs(o)
  IN (IF o.changed # <<>> THEN {"an operation changed an existing function"} ELSE {}) \cup
     (IF o.t = "refused"
      THEN IF S # NoShape /\ MustAnswer(o.op, o.ka, o.kb) THEN {"a valid combination is refused"} ELSE {}
      ELSE IF o.op = "eq"
      THEN LET same == o.a.sh = o.b.sh /\ \A k \in 1..Len(T) : SameAt(o, T[k])
           IN IF o.v = << IF same THEN 1 ELSE 0, IF same THEN 0 ELSE 1 >> THEN {} ELSE {"equality is not that of the functions"}
      ELSE IF MustRefuse(o.op, o.arg, o.a.sh, o.b.sh) THEN {"an incompatible combination is answered"}
      ELSE IF o.op = "shape" THEN IF S = NoShape \/ o.r.sh = S THEN {} ELSE {"wrong shape is reported"}
      ELSE IF o.op = "len" THEN IF Len(o.a.sh) # 1 \/ o.v = o.a.sh THEN {} ELSE {"wrong length"}
      ELSE IF o.t = "singular" THEN IF MaySingular(o) THEN {} ELSE {"the result has no value"}
      ELSE IF S = NoShape THEN {}
      ELSE IF o.r.sh # S THEN {"the result has the wrong shape"}
      ELSE IF \E k \in 1..Len(T) : ~RightAt(o, T[k]) THEN {"the result has the wrong value"}
      ELSE {})

VARIABLES lane, pos, failed
INSTANCE Runner WITH Judge <- Verdict, Obs <- ObsAll, Lanes <- 16
===============================================================================
