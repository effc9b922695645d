--------------------------- MODULE CodecRunTrace ---------------------------
(* Recorded starts of the bits-back scripts: what a directory holds after each
   start follows from what it held and from where the run died; and recorded
   calls of the helpers.                                                      *)
EXTENDS TraceKit
VARIABLES l, bad, cfg, enc, dec, files, last
M == INSTANCE CodecRun WITH Cfgs <- {}
(* ---- starts ---- *)
StepsOf(e) == M!Steps(cfg, enc, dec)
Reached(e) == IF e.died THEN e.n ELSE Len(StepsOf(e))
RunFails(e) == LET ss == StepsOf(e)
                   n == Reached(e) IN Failing({
      <<"run-ends-as-it-should", e.raised = e.died>>,
      <<"encoder-states-saved", SeqSet(e.enc) = M!AfterE(ss, n, enc)>>,
      <<"decoder-states-saved", SeqSet(e.dec) = M!AfterD(ss, n, dec)>>,
      <<"batches-written", SeqSet(e.files) = M!AfterF(ss, n, files)>>,
      <<"batches-are-the-data", e.right>>,
      <<"nothing-encoded-again", e.encodes <= Cardinality({i \in 1..n : ss[i].op = "encode"})>>,
      <<"nothing-decoded-again", e.decodes <= Cardinality({i \in 1..n : ss[i].op = "decode"})>>,
      <<"message-follows-history", e.digests>> })
LogFails(e) == Failing({<<"one-row-per-batch-encoded", e.rows = e.want>>, <<"samples-logged", e.samples = e.wantsamples>>,
      <<"step-rates-summarised", e.track => e.rates>>, <<"no-step-rates-untracked", e.track \/ ~e.ratefiles>>})
TamperFails(e) == Failing({<<"wrong-batch-noticed", e.raised>>})
NoCheckFails(e) == Failing({<<"runs-without-check", e.ok>>, <<"nothing-decoded-without-check", e.files = <<>> >>, <<"all-encoded", e.enc = e.want>>})
(* ---- time steps ---- *)
(* `steps` ascending.  sections: <<size, count>> from start to end; the i-th of count steps lies at i (size-1)/(count-1) *)
RECURSIVE Places(_, _)
Places(secs, start) == IF secs = <<>> THEN <<>> ELSE [i \in 1..secs[1][2] |-> [start |-> start, size |-> secs[1][1], count |-> secs[1][2], i |-> i - 1]] \o Places(Tail(secs), start + secs[1][1])
At(p, v) == IF p.count <= 1 THEN v = p.start ELSE Abs(2 * ((v - p.start) * (p.count - 1) - p.i * (p.size - 1))) <= p.count - 1
Sections(n, counts) == [i \in 1..Len(counts) |-> <<(n \div Len(counts)) + (IF i <= n % Len(counts) THEN 1 ELSE 0), counts[i]>>]
Possible(secs) == \A i \in DOMAIN secs : secs[i][1] >= secs[i][2]
Covers(steps, ps) == /\ \A i \in DOMAIN ps : \E j \in DOMAIN steps : At(ps[i], steps[j])
                     /\ \A j \in DOMAIN steps : \E i \in DOMAIN ps : At(ps[i], steps[j])
Dense(k) == [i \in 1..k |-> [start |-> i - 1, size |-> 1, count |-> 1, i |-> 0]]
SpaceFails(e) ==
    CASE e.kind = "sections" ->
          LET secs == Sections(e.n, e.counts) IN
          IF ~Possible(secs) THEN Failing({<<"too-many-steps-refused", e.err = "ValueError">>})
          ELSE Failing({<<"sections-strided-evenly", e.err = "" /\ Covers(e.steps, Places(secs, 0))>>,
                        <<"number-of-steps", e.err = "" /\ Len(e.steps) = SumSeq(e.counts)>>})
      [] e.kind = "ddim" ->
          LET strides == {i \in 1..(e.n - 1) : CeilDiv(e.n, i) = e.want} IN
          IF strides = {} THEN Failing({<<"no-stride-refused", e.err = "ValueError">>})
          ELSE LET i == M!SetMin(strides) IN Failing({<<"fixed-stride", e.err = "" /\ e.steps = [j \in 1..e.want |-> (j - 1) * i]>>})
      [] e.kind = "vlb" ->
          LET k == e.n \div e.want IN
          IF k >= e.want \/ e.want > e.n THEN Failing({<<"too-few-or-many-refused", e.err = "ValueError">>})
          ELSE Failing({<<"vlb-has-asked-number", e.err = "" /\ Len(e.steps) = e.want>>,
                        <<"vlb-dense-then-even", e.err = "" /\ Covers(e.steps, Dense(k) \o Places(<<<<e.n, e.want - k + 1>>>>, 0))>>,
                        <<"vlb-first-and-last", e.err = "" /\ e.steps[1] = 0 /\ e.steps[Len(e.steps)] = e.n - 1>>})
DiffFails(e) == IF ~e.ok THEN {"diffusion-raised"} ELSE Failing({
      <<"loss", e.loss = (IF e.kl THEN "RESCALED_KL" ELSE IF e.rls THEN "RESCALED_MSE" ELSE "MSE")>>,
      <<"prediction", e.mean = (IF e.xstart THEN "START_X" ELSE "EPSILON")>>,
      <<"variance", e.var = (IF e.learn THEN "LEARNED_RANGE" ELSE IF e.small THEN "FIXED_SMALL" ELSE "FIXED_LARGE")>>,
      <<"schedule-and-steps", e.betas /\ e.kept>>, <<"rescaling", e.rescale = e.wantrescale>>})
(* ---- checkpoints: names <<prefix, step, suffix>>; chosen: index or 0 for left alone, -1 something else ---- *)
Best(e) == LET fit == {i \in DOMAIN e.names : e.names[i][1] = e.prefix /\ e.names[i][3] = e.suffix} IN
           IF fit = {} THEN {0} ELSE {i \in fit : \A j \in fit : e.names[j][2] <= e.names[i][2]}
PickFails(e) == IF ~e.ok THEN {"picking-raised"} ELSE Failing({<<"furthest-checkpoint", e.chosen \in (IF e.how = "file" THEN {e.file} ELSE Best(e))>>})
SetupFails(e) == IF ~e.ok THEN {"setup-raised"} ELSE Failing({
      <<"weights", e.weights = e.wantweights>>, <<"mode", e.training = e.train>>, <<"data", e.data = e.wantdata>>, <<"log-directory", e.dir = e.wantdir>>,
      <<"who-reports", e.writers = e.wantwriters>>, <<"diffusion", e.steps = e.wantsteps>>})
TrainFails(e) == IF ~e.ok THEN {"training-raised"} ELSE Failing({
      <<"resumed-weights", e.weights = e.wantweights>>, <<"resumed-step", e.step = e.wantstep>>, <<"averages", e.ema = e.wantema>>, <<"averages-own-memory", e.own>>,
      <<"loop-runs-once", e.ran = 1>>, <<"wiring", e.wired>>, <<"train-mode", e.training>>})
DivideFails(e) == IF e.x % e.w = 0 THEN Failing({<<"quotient", e.err = "" /\ e.out = e.x \div e.w>>}) ELSE Failing({<<"remainder-refused", e.err = "ValueError">>})
ParseFails(e) == Failing({<<"step-of-name", e.out = e.want>>})
VlbFails(e) == IF ~e.ok THEN {"vlb-raised"} ELSE Failing({
      <<"samples-counted", e.samples = e.wantsamples>>, <<"running-mean-bound", Near(e.bpd, e.wantbpd, 20)>>,
      <<"terms-by-step-prior-last", e.terms>>, <<"clip-flag", e.clip>>, <<"plots", e.plots>>})
WriterFails(e) == IF ~e.ok THEN {"writer-raised"} ELSE Failing({
      <<"keys-grouped", e.keys = e.wantkeys>>, <<"same-directory-same-run", e.sameid>>, <<"other-directory-other-run", e.otherid>>, <<"closed-once", e.closed = 1>>,
      <<"closed-refuses", e.after = "RuntimeError">>})
PlotFails(e) == IF ~e.ok THEN {"plot-raised"} ELSE Failing({<<"mean-band-range", e.right>>})
CifarFails(e) == IF ~e.ok THEN {"dump-raised"} ELSE Failing({<<"pictures-under-their-class", e.names = e.want>>, <<"pixels", e.pixels>>, <<"existing-kept-unless-told", e.kept>>})
Fails(e) == CASE e.op = "begin" -> {} [] e.op = "run" -> RunFails(e) [] e.op = "log" -> LogFails(e) [] e.op = "tamper" -> TamperFails(e) [] e.op = "nocheck" -> NoCheckFails(e)
              [] e.op = "space" -> SpaceFails(e) [] e.op = "diffusion" -> DiffFails(e) [] e.op = "pick" -> PickFails(e) [] e.op = "setup" -> SetupFails(e)
              [] e.op = "train" -> TrainFails(e) [] e.op = "divide" -> DivideFails(e) [] e.op = "parse" -> ParseFails(e) [] e.op = "vlb" -> VlbFails(e)
              [] e.op = "writer" -> WriterFails(e) [] e.op = "plot" -> PlotFails(e) [] e.op = "cifar" -> CifarFails(e) [] OTHER -> {"unknown-op"}
Init == l = 1 /\ bad = {} /\ cfg = <<1, 1, 1>> /\ enc = {} /\ dec = {} /\ files = {} /\ last = 0
Next == /\ l <= Len(Trace) /\ l' = l + 1 /\ UNCHANGED last
        /\ LET e == Trace[l]
               f == TLCEval(Fails(e))
               ss == IF e.op = "run" THEN StepsOf(e) ELSE <<>>
               n == IF e.op = "run" THEN Reached(e) ELSE 0
           IN /\ Report(l, e, f) /\ bad' = bad \cup f
              /\ cfg' = IF e.op = "begin" THEN e.cfg ELSE cfg
              /\ enc' = IF e.op = "begin" THEN {} ELSE IF e.op = "run" THEN M!AfterE(ss, n, enc) ELSE enc
              /\ dec' = IF e.op = "begin" THEN {} ELSE IF e.op = "run" THEN M!AfterD(ss, n, dec) ELSE dec
              /\ files' = IF e.op = "begin" THEN {} ELSE IF e.op = "run" THEN M!AfterF(ss, n, files) ELSE files
Conforms == l > Len(Trace) => bad = {}
=============================================================================
