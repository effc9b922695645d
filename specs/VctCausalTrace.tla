--------------------------- MODULE VctCausalTrace ---------------------------
EXTENDS TraceKit
VARIABLES l, bad
C == INSTANCE VctCausal WITH S <- 1, Vals <- {0}, Ctx <- {0}, phase <- "", k <- 1, ctx <- 0, tok <- <<>>,
        sbuf <- <<>>, rbuf <- <<>>, wire <- <<>>, preds <- <<>>, rpreds <- <<>>
Reflect(i, n) == IF i < 0 THEN -i ELSE IF i >= n THEN 2 * (n - 1) - i ELSE i
(* windows of size we cut with stride wd whose pixels show source pixel (y, x) *)
Covers(e, r, c) == \E i \in 0..(e.we - 1), j \in 0..(e.we - 1) :
     /\ Reflect(r * e.wd + i - (e.we - e.wd) \div 2, e.h) = e.y
     /\ Reflect(c * e.wd + j - (e.we - e.wd) \div 2, e.w) = e.x
NH(e) == CeilDiv(e.h, e.wd)
NW(e) == CeilDiv(e.w, e.wd)
TokenFails(e) ==
  LET n == e.wd * e.wd IN Failing({
    <<"prediction-uses-earlier-tokens-only", SeqSet(e.feat) \subseteq C!MayChangePrediction(e.win, e.pos, n)>>,
    <<"likelihood-of-earlier-tokens-fixed",
       SeqSet(e.lik) \subseteq C!MayChangePrediction(e.win, e.pos, n) \cup {<<e.win, e.pos>>}>>,
    <<"prediction-uses-previous-token", C!MustChangePrediction(e.win, e.pos, n) \subseteq SeqSet(e.feat)>> })
ContextFails(e) == Failing({
    <<"context-window-limits-influence", \A r \in 0..(NH(e) - 1), c \in 0..(NW(e) - 1) :
        (r * NW(e) + c) \in SeqSet(e.wins) => Covers(e, r, c)>>,
    <<"context-is-used", \A r \in 0..(NH(e) - 1), c \in 0..(NW(e) - 1) :
        Covers(e, r, c) => (r * NW(e) + c) \in SeqSet(e.wins)>> })
FillFails(e) ==
  (* e.given: names of previous frames; e.full: names of the explicit context it was compared with *)
  IF ~e.ok THEN {"context-raised"} ELSE Failing({
    <<"short-context-repeats-oldest", (e.full = C!Fill(e.given, e.n)) = e.same>> })
CompressFails(e) ==
  IF ~e.ok THEN {"compress-raised"} ELSE Failing({
    <<"reports-coded-size", e.bits = 8 * e.nbytes>>,
    <<"reported-latent-is-quantised", e.tie \/ e.rep = e.want>>,
    <<"latent-within-half", e.far = 0>>,
    <<"decode-now-or-later-same-latent", e.lazy = e.rep>>,
    <<"receiver-recovers-latent", Has(e, "recv") => e.recv = e.rep>>,
    <<"same-features-decoded-or-not", e.f1 = e.f2>>,
    <<"coding-matches-one-pass-prediction", e.tie \/ e.ferr <= 5000>>,
    <<"one-pass-latent-is-same", e.tie \/ e.fwd = e.rep>>,
    <<"coded-size-tracks-likelihood", e.bits <= e.ideal + (e.ideal \div 2) + 64 * e.nstr + 200>>,
    <<"second-model-codes-identically", e.other = e.bytes>> })
RejectFails(e) == Failing({<<"bad-call-rejected", e.err \in SeqSet(e.want)>>})
Fails(e) == CASE e.op = "token" -> TokenFails(e) [] e.op = "context" -> ContextFails(e)
              [] e.op = "fill" -> FillFails(e) [] e.op = "compress" -> CompressFails(e)
              [] e.op = "reject" -> RejectFails(e) [] OTHER -> {"unknown-op"}
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET f == Fails(Trace[l]) IN Report(l, Trace[l], f) /\ bad' = bad \cup f
Conforms == l > Len(Trace) => bad = {}
=============================================================================
