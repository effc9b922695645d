--------------------------- MODULE VctStreamTrace ---------------------------
(* One event per processed video.  Latents are named by fingerprint.         *)
EXTENDS TraceKit
VARIABLES l, bad
S == INSTANCE VctStream WITH T <- 1, N <- 1, Vals <- {0}, frames <- <<>>, est <- <<>>, eidx <- 1, queue <- <<>>,
          dst <- <<>>, didx <- 1, out <- <<>>, ectx <- <<>>, dctx <- <<>>
(* e.ctxs[i]: fingerprints of the quantised latents given for frame i; frame 1 gets the pad token *)
StreamFails(e) ==
  IF ~e.ok THEN {"stream-raised"} ELSE Failing({
    <<"frame-count", e.nrec = e.T>>,
    <<"context-is-last-coded-frames",
      /\ Len(e.ctxs) = e.T /\ Len(e.ctxs[1]) = 1 /\ e.ctxs[1][1] = e.pad
      /\ \A i \in 2..e.T : e.ctxs[i] = S!ContextN(i, e.lat, e.n)>>,
    <<"coded-latent-is-rounded-analysis", e.lat = e.want>>,
    <<"cache-is-transparent", e.cached = e.uncached>>,
    <<"decoder-alone-agrees", e.rec = e.redecoded>>,
    <<"rates-cached-or-not", e.lik1 = e.lik2>> })
ForwardFails(e) ==
  IF ~e.ok THEN {"forward-raised"} ELSE Failing({
    <<"video-shape-preserved", e.shape = e.inshape>>,
    <<"one-likelihood-per-frame", e.nlik = e.inshape[2]>>,
    <<"batch-items-independent", e.solo <= 20000>>,
    <<"likelihood-valid", e.llo > 0 /\ e.lhi <= 1000001>>,
    <<"input-untouched", e.same>> })
(* changing frame s may change the output of frames s..s+N only *)
ReachFails(e) == Failing({
    <<"future-frames-have-no-influence", \A t \in SeqSet(e.changed) : t >= e.s>>,
    <<"influence-ends-after-context", \A t \in SeqSet(e.changed) : t <= e.s + e.n>>,
    <<"own-frame-reacts", e.s \in SeqSet(e.changed)>>,
    <<"context-is-used", e.s + 1 <= e.T => (e.s + 1) \in SeqSet(e.changed)>> })
CompressFails(e) ==
  IF ~e.ok THEN {"compress-raised"} ELSE Failing({
    <<"bits-per-frame", Len(e.bits) = e.T /\ \A i \in DOMAIN e.bits : e.bits[i] >= 0>>,
    <<"bits-track-likelihood", \A i \in 2..Len(e.bits) : e.bits[i] <= 2 * e.ideal[i] + 64 * e.nstr + 200>>,
    <<"first-frame-rate-is-information-content", Near(e.bits[1], e.ideal[1], 1 + e.ideal[1] \div 1000)>>,
    <<"whole-bytes-after-first-frame", \A i \in 2..Len(e.bits) : e.bits[i] % 8 = 0>>,
    <<"compressed-equals-forward", e.err <= 2000>>,
    <<"decompressed-shape", e.shape = e.inshape>>,
    <<"second-run-identical", e.again>> })
TransformFails(e) ==
  IF ~e.ok THEN {"transform-raised"} ELSE Failing({
    <<"reports-its-channels", e.ach = e.ch /\ e.sch = e.ch>>,
    <<"latent-shape", e.lshape = <<e.B, e.T, e.ch, CeilDiv(e.h, 16), CeilDiv(e.w, 16)>>>>,
    <<"output-shape", e.oshape = <<e.B, e.T, 3, e.h, e.w>>>>,
    <<"frames-independent", e.solo <= 2000 /\ e.solo2 <= 2000>>,
    <<"chunking-transparent", e.chunk <= 2000>> })
AfterFails(e) == IF ~e.ok THEN {"forward-after-coding-raised"} ELSE Failing({<<"coding-leaves-no-trace", e.same>>})
RejectFails(e) == Failing({<<"bad-call-rejected", e.err \in SeqSet(e.want)>>})
Fails(e) == CASE e.op = "stream" -> StreamFails(e) [] e.op = "forward" -> ForwardFails(e)
              [] e.op = "reach" -> ReachFails(e) [] e.op = "compress" -> CompressFails(e)
              [] e.op = "transform" -> TransformFails(e) [] e.op = "after" -> AfterFails(e) [] e.op = "reject" -> RejectFails(e) [] OTHER -> {"unknown-op"}
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET f == Fails(Trace[l]) IN Report(l, Trace[l], f) /\ bad' = bad \cup f
Conforms == l > Len(Trace) => bad = {}
=============================================================================
