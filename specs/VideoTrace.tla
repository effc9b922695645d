----------------------------- MODULE VideoTrace -----------------------------
EXTENDS TraceKit
VARIABLES l, bad
D == INSTANCE DistTrace WITH l <- l, bad <- bad
P == INSTANCE VideoLoad WITH V <- 1, MaxClips <- 1, MaxWorkers <- 1, clips <- <<>>, W <- 1, order <- <<>>, at <- <<>>, played <- {}
(* an epoch: what each worker played, in order, as <<video, clip, augmentation>>
   with the frames it showed                                                   *)
ClipCount(e, v) == IF e.fixed > 0 THEN e.fixed ELSE P!Clips(e.frames[v], e.m)
Counts(e) == [v \in DOMAIN e.frames |-> ClipCount(e, v)]
Keys(s) == [i \in DOMAIN s |-> <<s[i].v, s[i].k, s[i].a>>]
Increasing(s) == \A i, j \in DOMAIN s : i < j => s[i] < s[j]
ShowsOk(e, x) == IF e.fixed = 0 THEN P!Spread(x.f, P!Frames(x.k, e.frames[x.v], e.m), e.F)
                 ELSE LET n == e.frames[x.v]  len == IF n < e.m THEN n ELSE e.m IN  \* any m consecutive frames
                      \E s \in 0..(n - len) : P!Spread(x.f, [i \in 1..len |-> s + i - 1], e.F)
SameOverAugs(s) == \A i, j \in DOMAIN s : s[i].v = s[j].v /\ s[i].k = s[j].k => s[i].f = s[j].f
ClipsForward(s) == \A i, j \in DOMAIN s : (s[i].v = s[j].v /\ s[i].k < s[j].k) => s[i].f[1] <= s[j].f[1]
EpochFails(e) == IF e.err # "" THEN {"epoch-raised"} ELSE
  LET vs == [w \in DOMAIN e.play |-> P!Heads(Keys(e.play[w]))]
      all == UNION {SeqSet(vs[w]) : w \in DOMAIN vs}
      n == LET RECURSIVE S(_)  S(w) == IF w = 0 THEN 0 ELSE Len(vs[w]) + S(w - 1) IN S(Len(vs)) IN Failing({
    <<"each-video-once", Cardinality(all) = n /\ all \subseteq DOMAIN e.frames>>,
    <<"every-video-played", e.whole => all = DOMAIN e.frames>>,
    <<"every-clip-in-order", \A w \in DOMAIN e.play : IF e.whole THEN Keys(e.play[w]) = P!Play(vs[w], Counts(e), e.augs)
                                                      ELSE P!IsPrefix(Keys(e.play[w]), P!Play(vs[w], Counts(e), e.augs))>>,
    <<"sequential-order", e.seq => \A w \in DOMAIN vs : Increasing(vs[w])>>,
    <<"workers-share", e.whole => \A w \in DOMAIN vs : Len(vs[w]) <= (Len(e.frames) + Len(e.play) - 1) \div Len(e.play)>>,
    <<"clip-shows-its-frames", \A w \in DOMAIN e.play : \A i \in DOMAIN e.play[w] : ShowsOk(e, e.play[w][i])>>,
    <<"augmentations-share-the-clip", \A w \in DOMAIN e.play : SameOverAugs(e.play[w])>>,
    <<"clips-go-forward", e.forward => \A w \in DOMAIN e.play : ClipsForward(e.play[w])>>,
    <<"item-form", e.form>> })
(* batches of T consecutive frames of a directory of videos                     *)
UvgFails(e) == IF e.err # "" THEN {"uvg-raised"} ELSE Failing({
    <<"batches-cover-the-videos", e.got = [b \in 1..(SumSeq(e.frames) \div e.T) |-> [i \in 1..e.T |-> ((b - 1) * e.T) + i - 1]]>>,
    <<"uvg-shape", e.form>>, <<"uvg-values", e.values>> })
(* loaders: all items once, in order when not shuffled, in batches of b          *)
LoadFails(e) == IF e.err # "" THEN {"loader-raised"} ELSE LET flat == e.got IN Failing({
    <<"every-item-once", Len(flat) = e.n /\ SeqSet(flat) = 0..(e.n - 1)>>,
    <<"validation-in-order", e.ordered => \A i \in DOMAIN flat : flat[i] = i - 1>>,
    <<"batch-sizes", e.sizes = [i \in 1..CeilDiv(e.n, e.b) |-> IF i * e.b <= e.n THEN e.b ELSE e.n - ((i - 1) * e.b)]>>,
    <<"item-shape", e.form>>, <<"same-crop-for-all-frames", e.rigid>>, <<"centre-crop", e.centred>>, <<"frames-in-order", e.framesok>> })
Fails(e) == CASE e.op = "epoch" -> EpochFails(e) [] e.op = "uvg" -> UvgFails(e) [] e.op = "load" -> LoadFails(e) [] OTHER -> D!Fails(e)
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET f == Fails(Trace[l]) IN Report(l, Trace[l], f) /\ bad' = bad \cup f
Conforms == l > Len(Trace) => bad = {}
=============================================================================
