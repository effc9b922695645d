------------------------------ MODULE Account ------------------------------
(* Complexity accounting as a service called again and again: a call counts a
   program (a sequence of operations with the size of their results) under its
   own options; the registry of default counters never changes, so the answer
   depends on the call's arguments only.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Ops, MaxLen, MaxN, MaxCalls
VARIABLES prog, est, over, calls, last
Single == {"abs", "add", "div", "mul", "neg", "rsub", "sign", "sub"}
Estimated == {"erfc", "exp", "log", "log10", "log2", "pow", "reciprocal", "rsqrt", "sigmoid", "softplus", "sqrt", "tanh", "uniform"}
Ignored == {"relu", "view", "reshape", "permute", "clamp", "empty_like", "numel"}
Products == {"linear", "conv", "matmul", "addmm", "bmm"}
(* o: [name, base (name without in-place mark), n]; ov: <<name, value>> pairs  *)
Overridden(o, ov) == \E p \in ov : p[1] = o.name
Counted(o, es, ov) == Overridden(o, ov) \/ o.base \in Single \cup Products \/ (es /\ o.base \in Estimated)
Cost(o, es, ov) == IF Overridden(o, ov) THEN (CHOOSE p \in ov : p[1] = o.name)[2] ELSE IF Counted(o, es, ov) THEN o.n ELSE 0
Missing(o, es, ov) == ~Counted(o, es, ov) /\ o.base \notin Ignored
RECURSIVE Total(_, _, _), OfName(_, _, _, _), Missed(_, _, _, _)
Total(p, es, ov) == IF p = <<>> THEN 0 ELSE Cost(p[1], es, ov) + Total(Tail(p), es, ov)
OfName(p, nm, es, ov) == IF p = <<>> THEN 0 ELSE (IF p[1].name = nm THEN Cost(p[1], es, ov) ELSE 0) + OfName(Tail(p), nm, es, ov)
Missed(p, nm, es, ov) == IF p = <<>> THEN 0 ELSE (IF p[1].name = nm /\ Missing(p[1], es, ov) THEN 1 ELSE 0) + Missed(Tail(p), nm, es, ov)

Op == [name : Ops, base : Ops, n : 1..MaxN]
Init == prog = <<>> /\ est = FALSE /\ over = {} /\ calls = 0 /\ last = 0
AddOp == /\ calls = 0 /\ Len(prog) < MaxLen
         /\ \E nm \in Ops, n \in 1..MaxN : prog' = Append(prog, [name |-> nm, base |-> nm, n |-> n])
         /\ UNCHANGED <<est, over, calls, last>>
Call == /\ calls < MaxCalls /\ calls' = calls + 1
        /\ \E es \in BOOLEAN, ov \in {{}} \cup {{<<nm, 7>>} : nm \in Ops} :
              est' = es /\ over' = ov /\ last' = Total(prog, es, ov)
        /\ UNCHANGED prog
Next == AddOp \/ Call
RECURSIVE SumOver(_)
SumOver(ns) == IF ns = {} THEN 0 ELSE LET x == CHOOSE y \in ns : TRUE IN OfName(prog, x, est, over) + SumOver(ns \ {x})
Names == {prog[j].name : j \in DOMAIN prog}
TotalIsSum == calls > 0 => last = SumOver(Names)
EstimatesOnlyAdd == Total(prog, FALSE, {}) <= Total(prog, TRUE, {})
CountedOrReported == \A j \in DOMAIN prog : \/ Counted(prog[j], est, over) \/ prog[j].base \in Ignored
                                            \/ Missed(prog, prog[j].name, est, over) > 0
=============================================================================
