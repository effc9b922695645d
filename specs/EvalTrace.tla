----------------------------- MODULE EvalTrace -----------------------------
EXTENDS TraceKit
VARIABLES l, bad, acc, name
D == INSTANCE DistTrace WITH l <- l, bad <- bad
F == INSTANCE EvalFlow WITH Max <- 0, acc <- <<>>, name <- "", last <- ""
Empty == [q \in F!Groups |-> <<>>]
(* means over images, from per-batch means                                     *)
RECURSIVE Weighted(_, _)
Weighted(bs, f) == IF bs = <<>> THEN 0 ELSE bs[1].n * bs[1][f] + Weighted(Tail(bs), f)
RECURSIVE Count(_)
Count(bs) == IF bs = <<>> THEN 0 ELSE bs[1].n + Count(Tail(bs))
Mean(bs, f) == Weighted(bs, f) \div Count(bs)
MeanOk(got, bs, f, tol) == Near(got, Mean(bs, f), tol)
Resets == {"train_start", "val_start", "test_start", "load"}
NextAcc(e) == CASE e.op \in Resets \cup {"new"} -> Empty
  [] e.op = "train" -> [acc EXCEPT !["train"] = Append(@, e.batch)]
  [] e.op = "val" -> [acc EXCEPT !["val"] = Append(@, e.batch), !["vfid"] = Append(@, e.batch)]
  [] e.op = "test" -> [acc EXCEPT !["test"] = Append(@, e.batch)]
  [] e.op = "val_end" -> [acc EXCEPT !["vfid"] = <<>>]
  [] OTHER -> acc
NextName(e) == IF e.op = "new" THEN "" ELSE IF e.op = "set_name" THEN e.name ELSE name
Key(n, k) == "test/" \o n \o "_" \o k
Hific(b) == ((b.mse \div 64) * 15) \div 100 + b.lp \div 1000   \* thousandths; 0.075 / 32 = 15 / 6400
QualityFails(e) == IF e.err # "" THEN {"quality-raised-" \o e.op} ELSE
  LET a == NextAcc(e)[e.op] IN Failing({
    <<"mse-over-all-images", MeanOk(e.mse, a, "mse", 60)>>,
    <<"ms-ssim-over-all-images", MeanOk(e.ms, a, "ms", 40)>>,
    <<"psnr-over-images", IF e.op = "test" THEN Near(e.psnrmse, e.batch.mse, 60 + e.batch.mse \div 5000) ELSE MeanOk(e.psnrmse, a, "mse", 60 + e.psnrmse \div 5000)>>,
    <<"lpips-over-all-images", e.op # "train" => MeanOk(e.lp, a, "lp", 40)>>,
    <<"dists-over-all-images", e.op = "test" => MeanOk(e.ds, a, "lp", 40)>>,
    <<"hific-distortion-of-batch", e.op # "train" => Near(e.hific, Hific(e.batch), 3)>>,
    <<"inputs-untouched", e.same>> })
(* what each sided metric holds now: number of pictures per side and whether
   they are the inputs (real) and the clamped outputs (fake)                   *)
RECURSIVE Pics(_)
Pics(bs) == IF bs = <<>> THEN 0 ELSE bs[1].pics + Pics(Tail(bs))
SidedFails(e) == LET a == NextAcc(e) IN Failing({
    <<"val-fid-images", e.vfid.real = Count(a["vfid"]) /\ e.vfid.fake = Count(a["vfid"]) /\ e.vfid.pure>>,
    <<"test-fid-images", \A i \in DOMAIN e.tfid : /\ e.tfid[i].real = Pics(a["test"]) /\ e.tfid[i].fake = Pics(a["test"]) /\ e.tfid[i].pure>>,
    <<"counts", \A i \in DOMAIN e.counts : e.counts[i][2] = Count(a[e.counts[i][1]])>> })
EndFails(e) == IF e.err # "" THEN {"epoch-end-raised"} ELSE
  IF e.op = "val_end" THEN Failing({<<"val-fid-logged", (acc["vfid"] # <<>>) <=> e.logged>>, <<"val-fid-value", acc["vfid"] # <<>> => e.right>>})
  ELSE Failing({<<"test-fid-logged", SeqSet(e.keys) = {Key(name, "fid"), Key(name, "fid_swav"), Key(name, "kid")}>>,
                <<"test-fid-value", IF name = "kodak" THEN e.zero ELSE e.right>>})
BppFails(e) == IF e.err # "" THEN {"test-step-raised"} ELSE Failing({
    <<"bits-per-pixel", Near(e.bits, 8 * e.bytes, 2)>>,
    <<"test-loss", e.lossok>>, <<"prepared-to-compress", e.prep>>, <<"decoded-from-payload", e.decoded>> })
Own(e) == CASE e.op \in {"train", "val", "test"} -> QualityFails(e)
   [] e.op \in {"val_end", "test_end"} -> EndFails(e)
   [] e.op \in {"test_unnamed", "bad_prefix", "no_dataset"} -> Failing({<<"refused-" \o e.op, e.err \in SeqSet(e.want)>>})
   [] e.op \in Resets \cup {"new", "set_name"} -> IF e.err # "" THEN {"raised-" \o e.op} ELSE {}
   [] e.op = "teststep" -> BppFails(e)
   [] OTHER -> D!Fails(e)
Fails(e) == Own(e) \cup (IF Has(e, "vfid") THEN SidedFails(e) ELSE {})
Init == l = 1 /\ bad = {} /\ acc = Empty /\ name = ""
Next == /\ l <= Len(Trace) /\ l' = l + 1 /\ acc' = NextAcc(Trace[l]) /\ name' = NextName(Trace[l])
        /\ LET f == Fails(Trace[l]) IN Report(l, Trace[l], f) /\ bad' = bad \cup f
Conforms == l > Len(Trace) => bad = {}
=============================================================================
