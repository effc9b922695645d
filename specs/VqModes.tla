------------------------------ MODULE VqModes ------------------------------
(* Freezing protocol of the VQ autoencoder: a frozen part is brought back to
   evaluation mode and out of training before it is used, whatever happened
   since; the projector built from it is frozen for good.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES fe, fb, training, clean, last
vars == <<fe, fb, training, clean, last>>
Init == fe \in BOOLEAN /\ fb \in BOOLEAN /\ training = TRUE /\ clean = TRUE /\ last = [name |-> "new"]
Act(n) == last' = [name |-> n] /\ UNCHANGED <<fe, fb>>
Train == Act("train") /\ training' = TRUE /\ clean' = FALSE
Eval == Act("eval") /\ training' = FALSE /\ clean' = FALSE
Thaw == Act("thaw") /\ UNCHANGED training /\ clean' = FALSE      \* requires_grad_(True) on the whole model
Forward == Act("forward") /\ UNCHANGED training /\ clean' = TRUE
Learn == Act("learn") /\ UNCHANGED training /\ clean' = TRUE      \* forward, backward, optimiser step on what wants gradients
Next == Train \/ Eval \/ Thaw \/ Forward \/ Learn
FreezeIsPermanent == [][fe' = fe /\ fb' = fb]_vars
UseRestoresFreeze == [][last'.name \in {"forward", "learn"} => clean']_vars
St == [fe |-> fe, fb |-> fb, training |-> training, clean |-> clean]
View == St
Emit == PrintT("@@EDGE@@" \o ToJson([src |-> St, act |-> last', dst |-> [fe |-> fe', fb |-> fb', training |-> training', clean |-> clean']]))
=============================================================================
