---------------------------- MODULE BlocksTrace ----------------------------
EXTENDS TraceKit
VARIABLES l, bad
D == INSTANCE DistTrace WITH l <- l, bad <- bad
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
IsPow2(f) == f > 0 /\ \E k \in 0..30 : Pow2(k) = f
Log2(f) == CHOOSE k \in 0..30 : Pow2(k) = f
(* UnetShape!Accepts *)
Accepts(e) == IsPow2(e.factor) /\ Log2(e.factor) < e.levels
UnetFails(e) == IF ~Accepts(e) THEN Failing({<<"unusable-factor-refused", e.err = "ValueError" /\ e.where = "build">>})
  ELSE IF e.err # "" THEN {"discriminator-raised"} ELSE Failing({
    <<"logits-shape", e.shape = <<e.b, e.out, e.h \div e.factor, e.w \div e.factor>> >>,
    <<"image-on-its-own", e.alone>>,
    <<"input-kept", e.kept>>,
    <<"conditional-flag", e.flag = e.cond>>,
    <<"conditional-input-is-image-and-upsampled-context", e.joined>>,
    <<"gradient-to-image", e.grad>>,
    <<"spectral-norm-bounded", e.specmax <= 1050>>,
    <<"norm-layers-as-configured", e.norms>> })
Fails(e) == CASE e.op = "unet" -> UnetFails(e) [] OTHER -> D!Fails(e)
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET f == Fails(Trace[l]) IN Report(l, Trace[l], f) /\ bad' = bad \cup f
Conforms == l > Len(Trace) => bad = {}
=============================================================================
