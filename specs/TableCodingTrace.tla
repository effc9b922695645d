-------------------------- MODULE TableCodingTrace --------------------------
EXTENDS TraceKit
VARIABLES l, bad
T == INSTANCE TableCoding WITH V <- 1, M <- 1, W <- 1, phase <- "", x <- 0, m <- 0, wire <- <<>>, y <- 0
Q(e, i) == LET rm == T!RoundU(e.m[i], e.u) IN T!RoundU(e.x[i] - e.u * rm, e.u) + rm
RoundTripFails(e) ==
    IF ~e.ok THEN {"coding-raised"} ELSE Failing({
      <<"one-string-per-item", e.nstr = e.B>>,
      <<"decoded-is-quantised-input", Len(e.dec) = Len(e.x) /\ \A i \in DOMAIN e.x : e.dec[i] = Q(e, i)>>,
      <<"reported-quantised-input", Len(e.rep) = Len(e.x) /\ \A i \in DOMAIN e.x : e.rep[i] = Q(e, i)>>,
      <<"exact-integers", e.dev = 0>>,
      <<"same-strings-from-second-coder", e.s1 = e.s2>>,
      <<"second-coder-decodes-same", e.d1 = e.d2>>,
      <<"item-strings-independent", e.solo>>,
      <<"coded-size-tracks-likelihood", e.intable => /\ e.bits <= e.ideal + (e.ideal \div 3) + 64 * e.B
                                                    /\ e.bits >= e.ideal - (e.ideal \div 3) - 64 * e.B>> })
EvalFails(e) ==
    IF ~e.ok THEN {"forward-raised"} ELSE Failing({
      <<"eval-forward-is-quantised-input", \A i \in DOMAIN e.x : e.out[i] = Q(e, i)>>,
      <<"train-forward-is-quantised-input", \A i \in DOMAIN e.x : e.tout[i] = Q(e, i)>>,
      <<"train-gradient-straight-through", e.grad = 0>>,
      <<"train-likelihood-valid", e.tlo > 0 /\ e.thi <= 1000001>> })
(* likelihood over a run of consecutive integers, 1e-6 units: a unimodal,
   normalised bin mass equal to the Gaussian reference                       *)
PmfFails(e) == Failing({
      <<"pmf-matches-gaussian-bins", \A i \in DOMAIN e.p : Near(e.p[i], e.ref[i], 20 + e.ref[i] \div 20000)>>,
      (* information content in 1e-4 bits: also small probabilities are right, down to 2^-26 *)
      <<"likelihood-of-unlikely-values", \A i \in DOMAIN e.lp : e.lref[i] <= 260000 => Near(e.lp[i], e.lref[i], 500)>>,
      <<"pmf-normalised", e.covers => Near(SumSeq(e.p), 1000000, 3000)>>,
      <<"pmf-unimodal", \A i \in 1..(Len(e.p) - 2) :
             ~(e.p[i + 1] < e.p[i] - 40 /\ e.p[i + 1] < e.p[i + 2] - 40)>> })
TableFails(e) == Failing({
      <<"table-starts-at-zero", e.cdf[1] = 0>>,
      <<"table-ends-at-full-mass", e.cdf[Len(e.cdf)] = 65536>>,
      <<"table-strictly-increasing", \A i \in 1..(Len(e.cdf) - 1) : e.cdf[i] < e.cdf[i + 1]>>,
      <<"table-covers-its-mean", e.off <= 0 /\ e.off + Len(e.cdf) - 3 >= 0>>,
      <<"table-matches-bins", \A i \in DOMAIN e.ref : Near(e.cdf[i + 1] - e.cdf[i], e.ref[i], 6 + e.ref[i] \div 64)>>,
      (* the escape symbol gets the tail mass, plus what rounding leaves over *)
      <<"escape-mass", e.cdf[Len(e.cdf)] - e.cdf[Len(e.cdf) - 1] <= e.over + (e.over \div 4) + Len(e.cdf) + 8>> })
UpdateFails(e) == Failing({
      <<"first-update-builds-tables", e.first>>,
      <<"second-update-keeps-tables", ~e.second /\ e.same>>,
      <<"forced-update-rebuilds-identically", e.forced /\ e.same2>> })
Fails(e) == CASE e.op = "roundtrip" -> RoundTripFails(e) [] e.op = "forward" -> EvalFails(e)
              [] e.op = "pmf" -> PmfFails(e) [] e.op = "table" -> TableFails(e)
              [] e.op = "update" -> UpdateFails(e) [] OTHER -> {"unknown-op"}
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET f == Fails(Trace[l]) IN Report(l, Trace[l], f) /\ bad' = bad \cup f
Conforms == l > Len(Trace) => bad = {}
=============================================================================
