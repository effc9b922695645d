----------------------------- MODULE HificTrace -----------------------------
(* Recorded sessions of the real codec judged against the protocol of
   HificSession.  The specification state is what the protocol remembers:
   per image the payload fingerprint and the reconstruction fingerprint.  The
   reference reconstruction (err) is computed from the model's transforms with
   the quantisation rule of HificSession (round to nearest after subtracting
   the predicted mean).                                                      *)
EXTENDS TraceKit
VARIABLES l, bad, pay, rec
PadTo(n) == CeilDiv(n, 64) * 64
Known(m, k) == k \in DOMAIN m
Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]

CompressFails(e) ==
    IF ~e.ok THEN {"compress-raised"} ELSE Failing({
      <<"payload-image-size", e.image_size = <<e.h, e.w>>>>,
      <<"payload-padded-size", e.padded_size = <<PadTo(e.h), PadTo(e.w)>>>>,
      <<"one-string-per-image", e.nlat = e.B /\ e.nhyp = e.B>>,
      <<"input-untouched", e.input_same>>,
      <<"weights-untouched", e.weights_same>>,
      <<"payload-depends-on-image-only", Known(pay, e.img) => pay[e.img] = e.payload>>,
      <<"payload-size-tracks-model-rate", e.bits <= e.ideal_bits + (e.ideal_bits \div 4) + 160 * e.B>> })
DecompressFails(e) ==
    IF ~e.ok THEN {"decompress-raised"} ELSE Failing({
      <<"output-shape", e.shape = <<e.B, e.C, e.h, e.w>>>>,
      <<"output-in-unit-range", e.lo >= 0 /\ e.hi <= 1000000>>,
      <<"output-is-clamped-reference", e.err <= 2000>>,
      <<"payload-untouched", e.payload_same>>,
      <<"weights-untouched", e.weights_same>>,
      <<"reconstruction-depends-on-payload-only", Known(rec, e.img) => rec[e.img] = e.rec>> })
ForwardFails(e) ==
    IF ~e.ok THEN {"forward-raised"} ELSE Failing({
      <<"forward-latent-quantised", ~e.train => e.laterr <= 2000>>,
      <<"forward-agrees-with-codec", ~e.train => e.err <= 2000>>,
      <<"forward-training-latent-straight-through", e.train => e.laterr <= 2000>>,
      <<"forward-likelihoods-valid", e.likmin >= 0 /\ e.likmax <= 1000001>> })
Fails(e) == CASE e.op = "compress" -> CompressFails(e)
              [] e.op = "decompress" -> DecompressFails(e)
              [] e.op = "forward" -> ForwardFails(e)
              [] OTHER -> {"unknown-op"}
Empty == [x \in {} |-> ""]
Init == l = 1 /\ bad = {} /\ pay = Empty /\ rec = Empty
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l]  f == Fails(e) IN
             /\ Report(l, e, f) /\ bad' = bad \cup f
             /\ pay' = IF e.op = "compress" /\ e.ok /\ ~Known(pay, e.img) THEN Put(pay, e.img, e.payload) ELSE pay
             /\ rec' = IF e.op = "decompress" /\ e.ok /\ ~Known(rec, e.img) THEN Put(rec, e.img, e.rec) ELSE rec
Conforms == l > Len(Trace) => bad = {}
=============================================================================
