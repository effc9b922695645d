-------------------------- MODULE HificModesTrace --------------------------
EXTENDS TraceKit
VARIABLES l, bad, st
M == INSTANCE HificModes WITH fe <- FALSE, fb <- FALSE, training <- FALSE, dev <- "", tables <- FALSE, last <- <<>>
After(s, e) == CASE e.op = "new" -> [fe |-> e.fe, fb |-> e.fb, training |-> TRUE, dev |-> "forward", tables |-> FALSE]
                 [] e.op = "freeze_encoder" -> [s EXCEPT !.fe = TRUE]
                 [] e.op = "freeze_bottleneck" -> [s EXCEPT !.fb = TRUE]
                 [] e.op = "train" -> [s EXCEPT !.training = TRUE]
                 [] e.op = "eval" -> [s EXCEPT !.training = FALSE]
                 [] e.op = "dev_forward" -> [s EXCEPT !.dev = "forward"]
                 [] e.op = "dev_compress" -> [s EXCEPT !.dev = "compress", !.tables = TRUE]
                 [] OTHER -> s
Outcome(s, e) == CASE e.op = "forward" -> IF M!ForwardAllowed(s) THEN "" ELSE "RuntimeError"
                   [] e.op = "compress" -> IF M!CompressAllowed(s) THEN "" ELSE "ValueError"
                   [] e.op = "dev_bad" -> "ValueError"
                   [] OTHER -> ""
(* observed per part: tr = all/none/mixed submodules in training mode,
   gr = all/none/mixed parameters trainable                                  *)
Want(b) == IF b THEN "all" ELSE "none"
Fails(e) ==
  LET s == After(st, e) IN Failing({
    <<"outcome-of-call", e.err = Outcome(st, e)>>,
    <<"frozen-flags", e.o.fe = s.fe /\ e.o.fb = s.fb>>,
    <<"model-mode", e.o.training = s.training>>,
    <<"device-setting", e.o.dev = s.dev>>,
    <<"part-mode", \A p \in M!Parts : e.o.tr[p] = Want(M!PartTraining(p, s))>>,
    <<"part-trainable", \A p \in M!Parts : e.o.gr[p] = Want(M!Trainable(p, s))>>,
    <<"parameter-groups-disjoint-and-complete",
       /\ SeqSet(e.o.mp) \cap SeqSet(e.o.qp) = {} /\ Len(e.o.mp) = Cardinality(SeqSet(e.o.mp))
       /\ Len(e.o.qp) = Cardinality(SeqSet(e.o.qp))
       /\ SeqSet(e.o.mp) \cup SeqSet(e.o.qp) = SeqSet(e.o.trainable)>>,
    <<"quantile-group-is-quantiles",
       SeqSet(e.o.qp) = (IF s.fb THEN {} ELSE SeqSet(e.o.quantiles))>>,
    <<"update-moves-only-trainable-parts",
       e.op = "optimise" => \A p \in M!Parts : e.moved[p] = Want(M!Trainable(p, s))>> })
Init == l = 1 /\ bad = {} /\ st = [fe |-> FALSE, fb |-> FALSE, training |-> TRUE, dev |-> "forward", tables |-> FALSE]
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l]  f == Fails(e) IN
             Report(l, e, f) /\ bad' = bad \cup f /\ st' = After(st, e)
Conforms == l > Len(Trace) => bad = {}
=============================================================================
