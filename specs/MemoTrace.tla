------------------------------ MODULE MemoTrace ------------------------------
EXTENDS TraceKit
VARIABLES l, bad, mem, hits
(* calls: e.f, e.key (name of the arguments), e.c (0 = none), e.ran, e.res = e.want *)
K(e) == <<e.f, e.key, e.c>>
Bump(h, k) == [x \in DOMAIN h \cup {k} |-> IF x = k THEN (IF k \in DOMAIN h THEN h[k] ELSE 0) + 1 ELSE h[x]]
CallFails(e) == Failing({
    <<"returns-function-value", e.ok /\ e.res = e.want>>,
    <<"runs-once-per-cache-and-arguments", e.c # 0 => (e.ran = (K(e) \notin mem))>>,
    <<"no-cache-always-runs", e.c = 0 => e.ran>>,
    <<"hit-counter", e.c # 0 => e.hits = (IF <<e.f, e.c>> \in DOMAIN hits THEN hits[<<e.f, e.c>>] ELSE 0)
                                         + (IF K(e) \in mem THEN 1 ELSE 0)>> })
ExpectFails(e) == Failing({<<"expectation-enforced", e.raised = (e.expect # e.hit)>>})
Fails(e) == CASE e.op = "reset" -> {} [] e.op = "call" -> CallFails(e) [] e.op = "expect" -> ExpectFails(e)
              [] e.op = "fresh" -> Failing({<<"recycled-identity-never-hits", e.res = e.want>>})
              [] e.op = "odd" -> Failing({<<"returns-function-value", e.same>>, <<"runs-once-per-cache-and-arguments", e.runs = e.want>>,
                                          <<"hit-counter", e.hits = e.wanthits>>})
              [] OTHER -> {"unknown-op"}
None == [x \in {} |-> 0]
Init == l = 1 /\ bad = {} /\ mem = {} /\ hits = None
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l]  f == Fails(e) IN
             /\ Report(l, e, f) /\ bad' = bad \cup f
             /\ mem' = (IF e.op = "reset" THEN {} ELSE IF e.op = "call" /\ e.c # 0 THEN mem \cup {K(e)} ELSE mem)
             /\ hits' = (IF e.op = "reset" THEN None
                         ELSE IF e.op = "call" /\ e.c # 0 /\ K(e) \in mem THEN Bump(hits, <<e.f, e.c>>) ELSE hits)
Conforms == l > Len(Trace) => bad = {}
=============================================================================
