---------------------------- MODULE DvcTrainTrace ----------------------------
EXTENDS TraceKit
VARIABLES l, bad
D == INSTANCE DistTrace WITH l <- l, bad <- bad
T == INSTANCE DvcTrain WITH MaxP <- 1, stage <- 1, n <- 1, i <- 0, ref <- <<>>, ver <- <<>>, bits <- {}, pc <- ""
Pair(a, b, tol) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Near(a[k], b[k], tol)
GopFails(e) == IF e.err # "" THEN {"step-raised"} ELSE Failing({
    <<"parts-moved", SeqSet(e.moved) = IF e.train THEN T!Own(e.stage) ELSE {}>>,
    <<"quantiles-moved", SeqSet(e.qmoved) = IF e.train THEN T!Quantiles(e.stage) ELSE {}>>,
    <<"one-update-per-p-frame", e.updates = IF e.train THEN e.n ELSE 0>>,
    <<"one-quantile-update", e.qupdates = IF e.train /\ e.stage > 1 THEN 1 ELSE 0>>,
    <<"schedule-once-per-batch", e.sched = IF e.train /\ e.hassched THEN 1 ELSE 0>>,
    <<"references-are-estimates", Pair(e.refs, e.wantrefs, 20)>>,
    <<"loss-of-each-frame", e.train => Pair(e.losses, e.wantlosses, 20)>>,
    <<"gradient-of-each-update", \A k \in DOMAIN e.grads : e.grads[k] <= 20>>,
    <<"callers-batch-untouched", e.untouched>>,
    <<"logged-names", SeqSet(e.names) = {"gop_loss", "gop_distortion_loss", "gop_bpp", "psnr"}
        \cup (IF "flow" \in T!Terms(e.stage) THEN {"gop_flow_bpp"} ELSE {})
        \cup (IF "residual" \in T!Terms(e.stage) THEN {"gop_residual_bpp"} ELSE {})
        \cup (IF e.train /\ e.stage > 1 THEN {"quantile_loss"} ELSE {})>>,
    <<"logged-prefix", e.prefix>>,
    <<"logged-total-loss", Pair(<<e.log.loss>>, <<SumSeq(e.wantlosses) \div (e.n + 1)>>, 40)>>,
    <<"logged-distortion", Near(e.log.dist, SumSeq(e.dist) \div (e.n + 1), 40)>>,
    <<"logged-bpp-of-all-frames", Near(e.log.bpp, (e.ibpp + (IF e.stage >= 2 THEN SumSeq(e.flow) ELSE 0) + (IF e.stage >= 4 THEN SumSeq(e.resid) ELSE 0)) \div (e.n + 1), 40)>>,
    <<"logged-flow-bpp", e.stage >= 2 => Near(e.log.flow, SumSeq(e.flow) \div (e.n + 1), 40)>>,
    <<"logged-residual-bpp", e.stage >= 4 => Near(e.log.resid, SumSeq(e.resid) \div (e.n + 1), 40)>>,
    <<"logged-psnr", Near(e.log.psnr, e.wantpsnr, 60)>>,
    <<"val-loss-is-last-frame", ~e.train => Near(e.log.val, e.wantlosses[e.n], 20)>> })
Fails(e) == CASE e.op = "gop" -> GopFails(e) [] OTHER -> D!Fails(e)
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET f == Fails(Trace[l]) IN Report(l, Trace[l], f) /\ bad' = bad \cup f
Conforms == l > Len(Trace) => bad = {}
=============================================================================
