----------------------------- MODULE DistTrace -----------------------------
(* Conformance of the probability functions.  Numbers arrive as pairs
   <<value, reference>> brought to the reference's own decimal exponent (nine
   significant digits), so tolerances are relative down to the event's floor. *)
EXTENDS TraceKit
VARIABLES l, bad
ApproxFails(e) == IF ~e.ok THEN {"raised-" \o e.fn} ELSE
    Failing({<<"accurate-" \o e.fn, \A i \in DOMAIN e.v : Near(e.v[i][1], e.v[i][2], e.tol)>>})
OrderFails(e) == Failing({<<"monotone-" \o e.fn,
    \A i \in 1..(Len(e.rank) - 1) : IF e.dir > 0 THEN e.rank[i] <= e.rank[i + 1] ELSE e.rank[i] >= e.rank[i + 1]>>})
(* a probability mass on a unit grid: non-negative, at most one, total one     *)
MassFails(e) == Failing({<<"mass-nonnegative", \A i \in DOMAIN e.p : e.p[i] >= 0>>,
    <<"mass-total-one", Near(SumSeq(e.p), 1000000, e.tol + Len(e.p))>>})
ShapeFails(e) == Failing({<<"shape-" \o e.fn, e.got = e.want>>})
FactFails(e) == Failing({<<e.fn, e.holds>>})
BetweenFails(e) == Failing({<<"range-" \o e.fn, \A i \in DOMAIN e.v : e.lo <= e.v[i] /\ e.v[i] <= e.hi>>})
RefuseFails(e) == Failing({<<"refused-" \o e.fn, e.err = e.want>>})
Fails(e) == CASE e.op = "approx" -> ApproxFails(e) [] e.op = "order" -> OrderFails(e)
              [] e.op = "mass" -> MassFails(e) [] e.op = "shape" -> ShapeFails(e)
              [] e.op = "between" -> BetweenFails(e) [] e.op = "refuse" -> RefuseFails(e)
              [] e.op = "fact" -> FactFails(e) [] OTHER -> {"unknown-op"}
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET f == Fails(Trace[l]) IN Report(l, Trace[l], f) /\ bad' = bad \cup f
Conforms == l > Len(Trace) => bad = {}
=============================================================================
