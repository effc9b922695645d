----------------------------- MODULE RangeTrace -----------------------------
(* Recorded calls of the batched arithmetic coder.  e.need: bytes of each item
   coded alone with room to spare (the byte of the last bits included), e.cap:
   bytes of the buffer, e.ideal: -log2 of the probability of each message, in
   thousandths of a bit.                                                      *)
EXTENDS TraceKit
VARIABLES l, bad
Refuse(e) == \E i \in DOMAIN e.need : e.need[i] > e.cap
EncodeFails(e) ==
    IF Refuse(e) THEN Failing({<<"too-small-buffer-refused", ~e.ok /\ e.err = "RuntimeError">>})
    ELSE IF ~e.ok THEN {"coding-raised"} ELSE Failing({
      <<"one-string-per-item", Len(e.bytes) = Len(e.msg)>>,
      <<"items-coded-independently", e.bytes = e.alone>>,
      <<"decoded-is-message", e.dok /\ e.dec = e.msg>>,
      <<"size-is-information-content", \A i \in DOMAIN e.need : 8000 * (e.need[i] - 1) <= e.ideal[i] + 2050 + 2 * Len(e.msg[i])>> })
MixedFails(e) ==
    IF ~e.ok THEN {"decoding-raised"} ELSE Failing({
      <<"lengths-decoded-together", e.dec = e.msg>>,
      <<"list-only-for-different-lengths", e.islist = (\E i \in DOMAIN e.msg : Len(e.msg[i]) # Len(e.msg[1]))>> })
Fails(e) == CASE e.op = "encode" -> EncodeFails(e) [] e.op = "mixed" -> MixedFails(e) [] OTHER -> {"unknown-op"}
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET f == Fails(Trace[l]) IN Report(l, Trace[l], f) /\ bad' = bad \cup f
Conforms == l > Len(Trace) => bad = {}
=============================================================================
