----------------------------- MODULE HificModes -----------------------------
(* Mode protocol of the learned image codec: which parts are trainable, which
   parts are in training mode, which operation the model is prepared for.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES fe, fb,     \* encoder / bottleneck frozen (permanent once set)
          training,   \* the model's own mode
          dev,        \* prepared for "forward" or "compress"
          tables,     \* entropy tables built
          last
vars == <<fe, fb, training, dev, tables, last>>
Parts == {"encoder", "decoder", "bottleneck"}
Init == /\ fe \in BOOLEAN /\ fb \in BOOLEAN /\ training = TRUE /\ dev = "forward" /\ tables = FALSE
        /\ last = [name |-> "new", fe |-> fe, fb |-> fb]
Step(n) == last' = [name |-> n]
FreezeEnc == fe' = TRUE /\ Step("freeze_encoder") /\ UNCHANGED <<fb, training, dev, tables>>
FreezeBot == fb' = TRUE /\ Step("freeze_bottleneck") /\ UNCHANGED <<fe, training, dev, tables>>
Train == training' = TRUE /\ Step("train") /\ UNCHANGED <<fe, fb, dev, tables>>
Eval == training' = FALSE /\ Step("eval") /\ UNCHANGED <<fe, fb, dev, tables>>
DevForward == dev' = "forward" /\ Step("dev_forward") /\ UNCHANGED <<fe, fb, training, tables>>
DevCompress == dev' = "compress" /\ tables' = TRUE /\ Step("dev_compress") /\ UNCHANGED <<fe, fb, training>>
DevBad == Step("dev_bad") /\ UNCHANGED <<fe, fb, training, dev, tables>>
Forward == Step("forward") /\ UNCHANGED <<fe, fb, training, dev, tables>>
Compress == Step("compress") /\ UNCHANGED <<fe, fb, training, dev, tables>>
Optimise == dev = "forward" /\ Step("optimise") /\ UNCHANGED <<fe, fb, training, dev, tables>>
Next == FreezeEnc \/ FreezeBot \/ Train \/ Eval \/ DevForward \/ DevCompress \/ DevBad \/ Forward
        \/ Compress \/ Optimise

(* what each state promises *)
PartTraining(p, s) == CASE p = "encoder" -> s.training /\ ~s.fe
                        [] p = "bottleneck" -> s.training /\ ~s.fb
                        [] OTHER -> s.training
Trainable(p, s) == CASE p = "encoder" -> ~s.fe [] p = "bottleneck" -> ~s.fb [] OTHER -> TRUE
ForwardAllowed(s) == s.dev = "forward"
CompressAllowed(s) == s.tables
St == [fe |-> fe, fb |-> fb, training |-> training, dev |-> dev, tables |-> tables]

FrozenIsPermanent == [][(fe => fe') /\ (fb => fb')]_vars
FrozenNeverTrains == /\ fe => ~PartTraining("encoder", St) /\ ~Trainable("encoder", St)
                     /\ fb => ~PartTraining("bottleneck", St) /\ ~Trainable("bottleneck", St)
CompressImpliesTables == dev = "compress" => tables
View == <<fe, fb, training, dev, tables>>
Emit == PrintT("@@EDGE@@" \o ToJson([src |-> St, act |-> last', dst |->
          [fe |-> fe', fb |-> fb', training |-> training', dev |-> dev', tables |-> tables']]))
=============================================================================
