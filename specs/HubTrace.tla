------------------------------ MODULE HubTrace ------------------------------
EXTENDS TraceKit
VARIABLES l, bad, kept
D == INSTANCE DistTrace WITH l <- l, bad <- bad
H == INSTANCE Hub WITH Names <- {}, kept <- <<>>, last <- ""
OnDisk(f) == IF f \in DOMAIN kept THEN kept[f] ELSE "none"
Base == "https://dl.fbaipublicfiles.com/NeuralCompression/2023-muckley-msillm/"
(* the published files: quality names the target rate                          *)
Rates == [vlo1 |-> "0.00218", vlo2 |-> "0.00438", q1 |-> "0.035", q2 |-> "0.07", q3 |-> "0.14", q4 |-> "0.3", q5 |-> "0.45", q6 |-> "0.9"]
File(e) == IF e.family = "vqvae" THEN "vqvae_xcit_p8_ch64_cb1024_h8.ckpt" ELSE e.family \o "_target_" \o Rates[e.quality] \o "bpp.ckpt"
(* weights: the file whose weights the model has; "new": an initial model      *)
LoadFails(e) == LET k == OnDisk(File(e)) out == H!Out(k, e.via, e.ask, e.fault) n == H!Fetches(k, e.via, e.ask) IN
  Failing({<<"asks-for-its-own-file", \A i \in DOMAIN e.asked : e.asked[i] = Base \o File(e)>>,
           <<"fetched-once", Len(e.asked) <= n>>,
           <<"own-weights-or-none", out = "own" => e.err = "" /\ e.weights = File(e)>>,
           <<"new-model-without", out = "new" => e.err = "" /\ e.weights = "new">>,
           <<"no-model-without-its-weights", out = "raised" => e.err # "">>,
           <<"architecture", e.err = "" => e.arch>>})
Fails(e) == CASE e.op = "load" -> LoadFails(e) [] e.op = "reset" -> {} [] OTHER -> D!Fails(e)
NextKept(e) == CASE e.op = "reset" -> <<>>
                 [] e.op = "load" -> IF H!WithWeights(e.via, e.ask) THEN (File(e) :> H!After(OnDisk(File(e)), e.fault)) @@ kept ELSE kept
                 [] OTHER -> kept
Init == l = 1 /\ bad = {} /\ kept = <<>>
Next == /\ l <= Len(Trace) /\ l' = l + 1 /\ kept' = NextKept(Trace[l])
        /\ LET f == Fails(Trace[l]) IN Report(l, Trace[l], f) /\ bad' = bad \cup f
Conforms == l > Len(Trace) => bad = {}
=============================================================================
