--------------------------- MODULE BitsBackTrace ---------------------------
(* Recorded histories of the bits-back codec.  What a codec is, is its message
   (a digest), the number of batches on it, the size of the random message it
   was given and the bytes the first batch borrowed.  Coding relates messages:
   every encode and every decode seen is one fact <<before, data, after>>, and
   the facts must be those of a bijection -- decoding is the inverse of
   encoding, from whatever codec and after whatever saving and loading.       *)
EXTENDS TraceKit
VARIABLES l, bad, cod, disk, fwd, bwd
Codec(e) == cod[e.id]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
With(f, k, v) == (k :> v) @@ f
Known(f, k) == k \in DOMAIN f
Key(e) == e.from \o "|" \o e.data
(* rates are logged per dimension of all data so far; here they come multiplied out, in hundredths of bits *)
StatFails(e, c) ==
    IF e.stats = <<>> THEN {} ELSE Failing({
      <<"samples-are-batches-times-size", e.stats[1] = c.count * e.batch>>,
      <<"total-rate-is-message-size", Near(e.stats[2], 800 * e.bytes, 8)>>,
      <<"used-rate-adds-borrowed-bytes", Near(e.stats[3], 800 * (e.bytes - c.init + c.extra), 8)>>,
      <<"effective-rate-is-growth", Near(e.stats[4], 800 * (e.bytes - c.init), 8)>>,
      <<"tracked-rates-sum-to-effective", e.track => Near(e.stats[5] - e.stats[6], 800 * (e.bytes - c.init), 16)>>,
      <<"rates-tracked-when-asked", e.track = e.tracked>> })
After(e) == CASE e.op = "new" -> [count |-> 0, init |-> e.bytes, extra |-> 0, msg |-> e.to]
              [] e.op = "encode" -> LET c == Codec(e) IN
                    [count |-> c.count + 1, init |-> c.init, msg |-> e.to,
                     extra |-> IF c.count = 0 THEN c.init - e.low ELSE c.extra]
              [] e.op = "decode" -> LET c == Codec(e) IN [c EXCEPT !.count = @ - 1, !.msg = e.to]
              [] e.op = "load" -> disk[e.slot]
              [] OTHER -> Codec(e)
CodecOps == {"new", "encode", "decode", "load", "refused"}
StepFails(e) ==
    IF ~e.ok THEN {"raised-on-valid-data"} ELSE
    StatFails(e, After(e)) \cup Failing({
      <<"count-kept", e.count = After(e).count>>,
      <<"message-is-returned", e.returned>>,
      <<"data-untouched", e.same>> })
EncodeFails(e) == StepFails(e) \cup Failing({
      <<"same-data-same-message", Known(fwd, Key(e)) => fwd[Key(e)] = e.to>>,
      <<"different-histories-different-messages", Known(bwd, e.to) => bwd[e.to] = <<e.from, e.data>> >>,
      <<"model-sees-the-data", e.seen>>,
      <<"rate-is-evidence-bound", e.smooth => Near(e.net, e.ideal, 250 * e.lanes + 1500)>> })
DecodeFails(e) == StepFails(e) \cup Failing({
      <<"decoded-is-what-was-encoded", Known(bwd, e.from) => bwd[e.from][2] = e.data>>,
      <<"message-restored", Known(bwd, e.from) => bwd[e.from][1] = e.to>>,
      <<"sample-encodes-back", Known(fwd, e.to \o "|" \o e.data) => fwd[e.to \o "|" \o e.data] = e.from>>,
      <<"decoded-in-range", e.inrange>> })
LoadFails(e) == (IF ~e.ok THEN {"loading-raised"} ELSE Failing({
      <<"loaded-message-is-saved-message", e.to = disk[e.slot].msg>>,
      <<"loaded-count-is-saved-count", e.count = disk[e.slot].count>> }) \cup StatFails(e, disk[e.slot]))
SaveFails(e) == Failing({<<"saving-raised", e.ok>>, <<"saving-changes-nothing", e.to = Codec(e).msg>>})
RefusedFails(e) == Failing({<<"bad-data-refused", e.err = "ValueError">>, <<"refusal-changes-nothing", e.to = Codec(e).msg /\ e.count = Codec(e).count>>})
ConstructFails(e) == Failing({<<"shape-refused", e.err = e.want>>})
QuantFails(e) == IF ~e.ok THEN {"quantize-raised"} ELSE Failing({
      <<"levels-quantize-to-themselves", e.levels>>, <<"nearest-level", e.nearest>>, <<"integers", e.int>>, <<"input-untouched", e.same>>})
(* freq[i][s]: frequencies of the cells; mass[i][s]: thousandths of what the normal law gives them; slack for the cell that absorbs rounding *)
BinFails(e) == IF ~e.ok THEN {"bins-raised"} ELSE Failing({
      <<"cells-partition-the-range", \A i \in DOMAIN e.freq : SumSeq(e.freq[i]) = e.total /\ e.consecutive>>,
      <<"every-level-codeable", \A i \in DOMAIN e.freq : \A s \in DOMAIN e.freq[i] : e.freq[i][s] >= 1>>,
      <<"cell-mass-is-normal-mass", \A i \in DOMAIN e.freq : \A s \in DOMAIN e.freq[i] :
            (s \notin SeqSet(e.top[i])) => Near(1000 * e.freq[i][s], e.mass[i][s], 1001)>>,
      <<"roundtrip", e.back>>, <<"precision", e.prec = e.wantprec>> })
ModelFails(e) == IF ~e.ok THEN {"model-raised"} ELSE Failing({
      <<"right-distribution-asked", e.called = e.want>>, <<"time-step", e.t = e.wantt>>, <<"arguments", e.args>>,
      <<"mean-passed-on", e.mean>>, <<"deviation-from-variance", e.stdd>>, <<"steps", e.steps = e.wantsteps>>, <<"clip-flag", e.clip = e.wantclip>>})
Fails(e) == CASE e.op = "new" -> StepFails(e) [] e.op = "encode" -> EncodeFails(e) [] e.op = "decode" -> DecodeFails(e)
              [] e.op = "save" -> SaveFails(e) [] e.op = "load" -> LoadFails(e) [] e.op = "refused" -> RefusedFails(e)
              [] e.op = "construct" -> ConstructFails(e) [] e.op = "quantize" -> QuantFails(e) [] e.op = "bins" -> BinFails(e)
              [] e.op = "model" -> ModelFails(e) [] OTHER -> {"unknown-op"}
Init == l = 1 /\ bad = {} /\ cod = <<>> /\ disk = <<>> /\ fwd = <<>> /\ bwd = <<>>
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l]
               f == TLCEval(Fails(e))
               fresh == e.op = "new" /\ e.first
               fact == e.op \in {"encode", "decode"} /\ e.ok
               key == IF e.op = "encode" THEN Key(e) ELSE e.to \o "|" \o e.data
               hi == IF e.op = "encode" THEN e.to ELSE e.from
               lo == IF e.op = "encode" THEN e.from ELSE e.to
           IN /\ Report(l, e, f) /\ bad' = bad \cup f
              /\ cod' = IF e.op \in CodecOps /\ e.ok THEN With(IF fresh THEN <<>> ELSE Drop(cod, e.id), e.id, TLCEval(After(e))) ELSE cod
              /\ disk' = IF fresh THEN <<>> ELSE IF e.op = "save" /\ e.ok THEN With(Drop(disk, e.slot), e.slot, Codec(e)) ELSE disk
              /\ fwd' = IF fresh THEN <<>> ELSE IF fact THEN With(Drop(fwd, key), key, hi) ELSE fwd
              /\ bwd' = IF fresh THEN <<>> ELSE IF fact THEN With(Drop(bwd, hi), hi, <<lo, e.data>>) ELSE bwd
Conforms == l > Len(Trace) => bad = {}
=============================================================================
