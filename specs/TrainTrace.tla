----------------------------- MODULE TrainTrace -----------------------------
EXTENDS TraceKit
VARIABLES l, bad
D == INSTANCE DistTrace WITH l <- l, bad <- bad
R == INSTANCE RateTarget WITH MaxSteps <- 0, MaxG <- 0, MaxBits <- 0, steps <- <<>>, g <- 0, bits <- 0, target <- 0, lam <- <<1, 2>>
G == INSTANCE GanTrain WITH MaxStep <- 0, adv <- FALSE, mc <- FALSE, quant <- TRUE, pc <- "", ver <- <<>>, grad <- {}, fakeFrom <- 0, realFrom <- 0, last <- ""
(* value / base, in thousandths, is the factor of the current stage            *)
SchedFails(e) == IF e.err # "" THEN {"schedule-raised"} ELSE Failing({
    <<"target-of-stage", Near(e.target, e.tf[R!Stage(e.ts, e.g)], 1)>>,
    <<"penalty-of-stage", Near(e.lam2, e.lf[R!Stage(e.ls, e.g)], 1)>> })
SumF(f, n) == SumSeq([i \in 1..n |-> f[i]])
Tot(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
RateFails(e) == IF e.err # "" THEN {"rate-raised"} ELSE
  LET q == Tot(e.ql, e.qh)  n == Tot(e.nl, e.nh)  N == Len(e.ql)
      lam(i) == R!Lam(q[i], e.px, e.target, e.tscale, e.lam1, e.lam2) IN Failing({
    <<"rate-loss", Near(e.loss, SumF([i \in 1..N |-> lam(i) * n[i]], N), e.tol)>>,
    <<"reported-noisy-bits", Near(e.got.total, SumSeq(n), e.tol) /\ Near(e.got.latent, SumSeq(e.nl), e.tol) /\ Near(e.got.hyper, SumSeq(e.nh), e.tol)>>,
    <<"reported-quantised-bits", Near(e.got.qtotal, SumSeq(q), e.tol) /\ Near(e.got.qlatent, SumSeq(e.ql), e.tol) /\ Near(e.got.qhyper, SumSeq(e.qh), e.tol)>>,
    <<"gradient-per-image", \A i \in 1..N : Near(e.grad[i], lam(i), 1)>>,
    <<"gradient-only-through-noisy-rate", e.qgradzero>> })
ConfigFails(e) == Failing({
    <<"config-refused", (e.err = "ValueError") <=> (e.nts + 1 # e.ntf \/ e.nls + 1 # e.nlf)>>,
    <<"config-kept", e.err = "" => e.kept>> })
StepFails(e) == IF e.err # "" THEN {"training-step-raised"} ELSE
  LET want == G!Moves(e.adv, e.quant) IN Failing({
    <<"parts-moved", SeqSet(e.moved) = want>>,
    <<"parts-untouched", \A p \in SeqSet(e.touched) : p \in want>>,
    <<"model-images", SeqSet(e.modelimgs) = G!ModelImages(e.mc, e.n)>>,
    <<"discriminator-images", e.adv => SeqSet(e.discimgs) = G!DiscImages(e.mc, e.n)>>,
    <<"schedules-stepped-once", \A i \in DOMAIN e.sched : e.sched[i] = e.k>>,
    <<"clipped", SeqSet(e.clipped) = IF e.clip THEN want \ {"quantiles"} ELSE {}>> })
Fails(e) == CASE e.op = "sched" -> SchedFails(e) [] e.op = "rate" -> RateFails(e) [] e.op = "config" -> ConfigFails(e)
              [] e.op = "step" -> StepFails(e) [] OTHER -> D!Fails(e)
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET f == Fails(Trace[l]) IN Report(l, Trace[l], f) /\ bad' = bad \cup f
Conforms == l > Len(Trace) => bad = {}
=============================================================================
