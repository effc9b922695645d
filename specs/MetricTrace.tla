---------------------------- MODULE MetricTrace ----------------------------
(* Conformance of the metrics.  The trace module keeps its own state: the set
   of batches accumulated per side since the last reset, taken only from the
   calls; readings carry the value and the reference for the recorder's state
   together with that state, which must be this one.                          *)
EXTENDS TraceKit
VARIABLES l, bad, acc
D == INSTANCE DistTrace WITH l <- l, bad <- bad
Empty == [r |-> {}, f |-> {}]
Start(e) == IF e.op = "new" THEN Empty ELSE acc
After(e) == CASE e.op = "new" -> Empty [] e.op = "reset" -> Empty
              [] e.op = "real" -> [acc EXCEPT !.r = @ \cup {e.b}]
              [] e.op = "fake" -> [acc EXCEPT !.f = @ \cup {e.b}]
              [] OTHER -> acc
CallFails(e) == IF e.err # "" THEN {"call-raised-" \o e.kind} ELSE {}
ReadFails(e) == IF e.err # "" THEN {"compute-raised-" \o e.kind} ELSE Failing({
    <<"recorder-in-step", SeqSet(e.r) = acc.r /\ SeqSet(e.f) = acc.f>>,
    <<"value-of-accumulated-" \o e.kind, \A i \in DOMAIN e.v : Near(e.v[i][1], e.v[i][2], e.tol)>> })
(* patches: e.got = corners <<image, y, x>> of the patches received            *)
Grid(n, h, w, p, off) == {<<k, off + p * i, off + p * j>> :
    k \in 0..(n - 1), i \in 0..(((h - off) \div p) - 1), j \in 0..(((w - off) \div p) - 1)}
Expected(e) == Grid(e.n, e.h, e.w, e.p, 0) \cup
    (IF 2 * e.h >= 3 * e.p /\ 2 * e.w >= 3 * e.p THEN Grid(e.n, e.h, e.w, e.p, e.p \div 2) ELSE {})
PatchFails(e) == IF e.err # "" THEN {"patch-raised"} ELSE Failing({
    <<"patch-grid", SeqSet(e.got) = Expected(e)>>,
    <<"patch-each-once", Len(e.got) = Cardinality(Expected(e))>>,
    <<"patch-contents", e.exact>>,
    <<"patch-count-returned", e.count = Cardinality(Expected(e))>>,
    <<"patch-every-metric-both-sides", e.same>> })
Fails(e) == CASE e.op \in {"new", "real", "fake", "reset"} -> CallFails(e)
              [] e.op = "compute" -> ReadFails(e) [] e.op = "patch" -> PatchFails(e) [] OTHER -> D!Fails(e)
Init == l = 1 /\ bad = {} /\ acc = Empty
Next == /\ l <= Len(Trace) /\ l' = l + 1 /\ acc' = After(Trace[l])
        /\ LET f == Fails(Trace[l]) IN Report(l, Trace[l], f) /\ bad' = bad \cup f
Conforms == l > Len(Trace) => bad = {}
=============================================================================
