----------------------------- MODULE RansTrace -----------------------------
(* Recorded histories of the stack coder.  A level is one encode appended to the
   buffers of the level before; levels are decoded from the top down.          *)
EXTENDS TraceKit
VARIABLES l, bad
LevelFails(e) ==
    IF ~e.ok THEN {"coding-raised"} ELSE IF ~e.dok THEN {"decoding-raised"} ELSE Failing({
      <<"one-buffer-per-item", e.nbuf = e.items>>,
      <<"decoded-is-message", e.dec = e.msg>>,
      <<"message-type", e.dtype = e.want>>,
      <<"remainder-is-what-was-there", e.rest = e.before>>,
      <<"items-coded-independently", e.alone = e.coded>>,
      <<"inputs-untouched", e.same>>,
      <<"codec-state-returned", e.st = e.stwant>>,
      (* bits: size of each item's buffer, ideal: information coded so far, thousandths of a bit *)
      <<"size-is-information-content", \A i \in DOMAIN e.bits : 1000 * e.bits[i] <= e.ideal[i] + 1000 * (32 * e.lanes + 48) + 30 * e.symbols>>,
      <<"no-smaller-than-its-information", \A i \in DOMAIN e.bits : 1000 * (e.bits[i] + 16) >= e.ideal[i]>> })
BitsBackFails(e) ==
    IF ~e.ok THEN {"bits-back-coding-raised"} ELSE IF ~e.dok THEN {"bits-back-decoding-raised"} ELSE Failing({
      <<"bits-back-decoded-is-message", e.dec = e.msg>>,
      <<"bits-back-type", e.dtype = e.want>>,
      <<"what-lies-beneath-survives", e.undec = e.under>>,
      <<"bits-given-back", e.ample => e.rest = e.before>>,
      <<"rate-is-evidence-bound", e.ample => \A i \in DOMAIN e.net : Near(1000 * e.net[i], e.elbo[i], 12000 + 8000 * e.lanes + 90 * e.symbols)>>,
      <<"inputs-untouched", e.same>> })
RejectFails(e) == Failing({<<"too-small-capacity-refused", e.err \in SeqSet(e.want)>>})
Fails(e) == CASE e.op = "level" -> LevelFails(e) [] e.op = "bitsback" -> BitsBackFails(e) [] e.op = "reject" -> RejectFails(e) [] OTHER -> {"unknown-op"}
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET f == Fails(Trace[l]) IN Report(l, Trace[l], f) /\ bad' = bad \cup f
Conforms == l > Len(Trace) => bad = {}
=============================================================================
