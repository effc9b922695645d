------------------------------ MODULE TraceKit ------------------------------
(* Shared vocabulary of every trace-validation specification.

   A trace is an ndjson file written by a recorder in /verif/harness while it
   drives the real code; its path arrives in the environment variable VTRACE.
   Every event has a field `case` (a short name of the concrete input) and a
   field `op` (the action).  A property's trace module defines

       Fails(e)  -- the set of names of the clauses event e violates

   (for stateful properties Fails also reads the specification's variables)
   and consumes the trace one event per step.  The verdict is total: no event
   blocks the trace, every failing clause is printed and collected in `bad`,
   and the invariant Conforms judges the whole trace at its end.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.VTRACE)

Has(e, f) == f \in DOMAIN e
Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b
Near(a, b, tol) == Abs(a - b) <= tol
(* the set of names whose clause is FALSE *)
Failing(clauses) == {c[1] : c \in {d \in clauses : ~d[2]}}
SeqSet(s) == {s[i] : i \in DOMAIN s}
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))
Report(l, e, f) ==
    IF f = {} THEN TRUE
    ELSE PrintT("@@BAD@@" \o ToJson([l |-> l, case |-> e.case, clauses |-> f]))
=============================================================================
