---------------------------- MODULE VctEvalTrace ----------------------------
(* bits per frame and distortions arrive as integers (bits * 10^3, mse * 10^8);
   logged values likewise, multiplied up so that only integers are compared.   *)
EXTENDS TraceKit
VARIABLES l, bad
D == INSTANCE DistTrace WITH l <- l, bad <- bad
V == INSTANCE VctEval WITH MaxT <- 1, MaxBits <- 1, bits <- <<>>
StepFails(e) == IF e.err # "" THEN {"step-raised"} ELSE
  LET n == Len(e.bits)
      comb == [t \in 1..n |-> e.dist[t] + e.bits[t]] IN Failing({
    <<"logged-names", SeqSet(e.names) = {e.pre \o x : x \in {"distortion_loss", "rate_loss", "combined_loss", "combined_loss_weighted", "PSNR", "PSNR_int"}}>>,
    <<"distortion-loss", Near(e.log.mse, SumSeq(e.mse), n + 5)>>,
    <<"rate-loss", Near(e.log.rate, V!All(e.bits), n * 3 + 5)>>,
    <<"combined-loss", Near(e.log.comb, V!All(comb), n * 5 + 20)>>,
    <<"weighted-loss", Near(e.log.weighted, V!Weighted(comb), n * 30 + 100)>>,
    <<"returned-loss", e.pre = "" => Near(e.ret, V!Weighted(comb), n * 30 + 100)>>,
    <<"psnr", Near(e.log.psnr, e.psnr, 30)>>,
    <<"psnr-8-bit", Near(e.log.psnr8, e.psnr8, 30)>>,
    <<"gradient-of-the-weighted-loss", e.pre = "" => \A t \in 1..n : Near(e.grad[t], V!Weight(t) * e.gunit, e.gtol)>>,
    <<"moves-nothing", e.still>> })
TestFails(e) == IF e.err # "" THEN {"test-raised"} ELSE
  LET T == Len(e.bits) IN Failing({
    <<"logged-names-test", SeqSet(e.names) = {"psnt_int", "bpp", "bpp_xfirst"} \cup (IF e.fwd THEN {"cts_psnr", "cts_rate", "cts_rate_x1"} ELSE {})>>,
    <<"bits-per-pixel", Near(e.log.bpp * T, V!All(e.bits), e.tol)>>,
    <<"bits-per-pixel-without-first", Near(e.log.bppx * (T - 1), V!WithoutFirst(e.bits), e.tol)>>,
    <<"estimated-rate", e.fwd => Near(e.log.crate * T, V!All(e.cbits), e.tol)>>,
    <<"estimated-rate-without-first", e.fwd => Near(e.log.cratex * (T - 1), V!WithoutFirst(e.cbits), e.tol)>>,
    <<"psnr-of-the-decoded-video", Near(e.log.psnr, e.psnr, 30)>>,
    <<"psnr-of-the-forward-video", e.fwd => Near(e.log.cpsnr, e.cpsnr, 30)>>,
    <<"returned-values", e.ret>>,
    <<"forward-without-strings", e.fwd => ~e.strings>>,
    <<"decoded-from-the-coded", e.fed>>,
    <<"no-gradient", e.nograd>> })
Fails(e) == CASE e.op = "step" -> StepFails(e) [] e.op = "test" -> TestFails(e) [] OTHER -> D!Fails(e)
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET f == Fails(Trace[l]) IN Report(l, Trace[l], f) /\ bad' = bad \cup f
Conforms == l > Len(Trace) => bad = {}
=============================================================================
