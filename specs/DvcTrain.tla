------------------------------ MODULE DvcTrain ------------------------------
(* Staged training of the P-frame codec on one group of pictures: the first frame
   is replaced by its I-frame coding, then each following frame is predicted from
   the previous estimate, with one update of the stage's own parts per frame, and
   one update of the quantiles at the end (not in stage 1).                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxP
VARIABLES stage, n, i, ref, ver, bits, pc
vars == <<stage, n, i, ref, ver, bits, pc>>
Parts == {"estimator", "mencoder", "mbottleneck", "mdecoder", "compensation", "rencoder", "rbottleneck", "rdecoder", "iframe"}
(* what the stage trains *)
Own(s) == {"estimator"} \cup (IF s >= 2 THEN {"mencoder", "mbottleneck", "mdecoder"} ELSE {})
          \cup (IF s >= 3 THEN {"compensation"} ELSE {}) \cup (IF s >= 4 THEN {"rencoder", "rbottleneck", "rdecoder"} ELSE {})
Quantiles(s) == Own(s) \cap {"mbottleneck", "rbottleneck"}
(* what the loss of a frame contains, and the bits it adds *)
Terms(s) == {"distortion"} \cup (IF s >= 2 THEN {"flow"} ELSE {}) \cup (IF s >= 4 THEN {"residual"} ELSE {})
Init == /\ stage \in 1..5 /\ n \in 1..MaxP /\ i = 0 /\ ref = <<"original", 0>> /\ ver = [p \in Parts |-> 0] /\ bits = {} /\ pc = "iframe"
IFrame == /\ pc = "iframe" /\ ref' = <<"coded", 0>> /\ bits' = {<<"iframe", 0>>} /\ pc' = "pframe" /\ UNCHANGED <<stage, n, i, ver>>
PFrame == /\ pc = "pframe" /\ i < n /\ i' = i + 1 /\ ref' = <<"estimate", i + 1>>
          /\ ver' = [p \in Parts |-> IF p \in Own(stage) THEN ver[p] + 1 ELSE ver[p]]
          /\ bits' = bits \cup {<<t, i + 1>> : t \in Terms(stage) \ {"distortion"}}
          /\ pc' = IF i + 1 = n THEN (IF stage = 1 THEN "done" ELSE "quantiles") ELSE "pframe"
          /\ UNCHANGED <<stage, n>>
Quant == /\ pc = "quantiles" /\ pc' = "done" /\ UNCHANGED <<stage, n, i, ref, ver, bits>>
Next == IFrame \/ PFrame \/ Quant
OnlyOwn == \A p \in Parts : ver[p] # 0 => p \in Own(stage)
OncePerFrame == \A p \in Own(stage) : ver[p] = i
Closed == (pc # "iframe") => ref = (IF i = 0 THEN <<"coded", 0>> ELSE <<"estimate", i>>)
EveryBitCounted == pc = "done" => Cardinality(bits) = 1 + n * (Cardinality(Terms(stage)) - 1)
Grows == \A s \in 1..4 : Own(s) \subseteq Own(s + 1)
=============================================================================
