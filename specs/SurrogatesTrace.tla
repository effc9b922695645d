-------------------------- MODULE SurrogatesTrace --------------------------
EXTENDS TraceKit
VARIABLES l, bad
D == INSTANCE DistTrace WITH l <- l, bad <- bad
S == INSTANCE Surrogates WITH G <- 2, R <- 1, B <- 0, f <- <<>>, x <- 0, mode <- "", g <- 0, phase <- 0
(* exact integers: e.x, e.b (already broadcast), upstream e.u                  *)
BoundFails(e) == IF ~e.ok THEN {"lower-bound-raised"} ELSE Failing({
    <<"lower-bound-value", \A i \in DOMAIN e.x : e.y[i] = S!Bound(e.x[i], e.b[i])>>,
    <<"lower-bound-gradient-" \o e.mode, \A i \in DOMAIN e.x : e.dx[i] = S!Grad(e.mode, e.x[i], e.b[i], e.u[i])>>,
    <<"lower-bound-keeps-dtype", e.dtype>>,
    <<"lower-bound-no-gradient-for-bound", e.bgrad>> })
Fails(e) == CASE e.op = "bound" -> BoundFails(e) [] OTHER -> D!Fails(e)
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET f == Fails(Trace[l]) IN Report(l, Trace[l], f) /\ bad' = bad \cup f
Conforms == l > Len(Trace) => bad = {}
=============================================================================
