------------------------- MODULE EntropyLayerTrace -------------------------
EXTENDS TraceKit
VARIABLES l, bad
D == INSTANCE DistTrace WITH l <- l, bad <- bad
CallFails(e) == Failing({
    <<"outcome-" \o e.act, e.err = e.want>>,
    <<"tables-as-given", e.act = "tables" /\ e.src = "given" /\ e.err = "" => e.same>>,
    <<"tables-outlive-prior", e.act = "drop" => e.same>>,
    <<"prior-as-given", e.act = "prior" /\ e.err = "" => e.same>> })
(* one coding table of a layer built from a prior: e.cdf is the row up to its
   size, e.rest the sum of what follows, e.ref the bin masses times 2^precision *)
RowFails(e) == Failing({
    <<"row-starts-at-zero", e.cdf[1] = 0>>,
    <<"row-ends-at-full-mass", e.cdf[Len(e.cdf)] = e.full>>,
    <<"row-strictly-increasing", \A i \in 1..(Len(e.cdf) - 1) : e.cdf[i] < e.cdf[i + 1]>>,
    <<"row-nothing-after-size", e.rest = 0>>,
    <<"row-size-covers-range", Len(e.cdf) = e.hi - e.off + 3>>,
    <<"row-upper-end", e.hi = Max2(e.up, 0)>>,
    <<"row-lower-end", e.off \in {e.lo, Max2(e.lo, 0)}>>,
    <<"row-overflow-mass", Near(e.cdf[Len(e.cdf)] - e.cdf[Len(e.cdf) - 1], e.outside, Len(e.cdf) + 3 + e.outside \div 32)>>,
    <<"row-covers-lower-tail", e.off <= e.lo>>,
    <<"row-matches-prior", Len(e.cdf) # Len(e.ref) + 2 \/ \A i \in DOMAIN e.ref : Near(e.cdf[i + 1] - e.cdf[i], e.ref[i], e.tol + e.ref[i] \div 32)>> })
TableFails(e) == Failing({
    <<"one-row-per-scalar-prior", e.rows = e.n /\ e.nsizes = e.n /\ e.noffs = e.n>>,
    <<"integer-tables", e.ints>>,
    <<"tables-restored-by-state", e.restored>>,
    <<"tables-reproducible", e.again>> })
QuantFails(e) == IF ~e.ok THEN {"quantize-raised"} ELSE Failing({
    <<"quantize-is-nearest-integer", \A i \in DOMAIN e.x :
         LET d == e.x[i] - e.o[i] IN 2 * Abs(e.u * e.q[i] - d) <= e.u>>,
    <<"quantize-gives-integers", e.isint>>,
    <<"quantize-keeps-input", e.kept>> })
Fails(e) == CASE e.op = "call" -> CallFails(e) [] e.op = "row" -> RowFails(e) [] e.op = "table" -> TableFails(e)
              [] e.op = "quant" -> QuantFails(e) [] OTHER -> D!Fails(e)
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET f == Fails(Trace[l]) IN Report(l, Trace[l], f) /\ bad' = bad \cup f
Conforms == l > Len(Trace) => bad = {}
=============================================================================
