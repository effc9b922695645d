------------------------------ MODULE CodecRun ------------------------------
(* The compression script over many starts in one directory.  A run goes on
   from the last saved state of the encoder, encodes up to N batches, saving
   every now and then and at the end, then decodes all of them again from the
   last saved state of the decoder, writing each batch and saving every now
   and then.  A run may die before any of its steps.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Cfgs          \* <<N, B, I>>: batches, samples per batch, save interval in samples
Runs == {<<1, 2, 2>>, <<2, 1, 3>>, <<3, 2, 4>>, <<3, 2, 3>>, <<4, 1, 2>>}
VARIABLES cfg, enc, dec, files, last
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : y >= x
SaveE(c, k) == k >= c[1] \/ (k * c[2]) % c[3] < c[2]
SaveD(c, r) == (r * c[2]) % c[3] < c[2]
EncFrom(E) == IF E = {} THEN 0 ELSE SetMax(E)
DecFrom(c, D) == IF D = {} THEN c[1] ELSE SetMin(D)
S(op, k) == [op |-> op, k |-> k]
RECURSIVE EncSteps(_, _), DecSteps(_, _)
EncSteps(c, k) == IF k > c[1] THEN <<>>
                  ELSE <<S("encode", k)>> \o (IF SaveE(c, k) THEN <<S("save", k)>> ELSE <<>>) \o EncSteps(c, k + 1)
DecSteps(c, r) == IF r < 0 THEN <<>>
                  ELSE <<S("decode", r), S("write", r)>> \o (IF SaveD(c, r) THEN <<S("mark", r)>> ELSE <<>>) \o DecSteps(c, r - 1)
(* the steps a run takes from what it finds *)
Steps(c, E, D) == EncSteps(c, EncFrom(E) + 1) \o DecSteps(c, DecFrom(c, D) - 1)
Done(ss, n, op) == {ss[i].k : i \in {j \in 1..n : ss[j].op = op}}
AfterE(ss, n, E) == E \cup Done(ss, n, "save")
AfterD(ss, n, D) == D \cup Done(ss, n, "mark")
AfterF(ss, n, F) == F \cup Done(ss, n, "write")
Init == cfg \in Cfgs /\ enc = {} /\ dec = {} /\ files = {} /\ last = [n |-> -1, of |-> 0, at |-> S("none", 0)]
Run(n) == LET ss == Steps(cfg, enc, dec) IN
          /\ n <= Len(ss)
          /\ enc' = AfterE(ss, n, enc) /\ dec' = AfterD(ss, n, dec) /\ files' = AfterF(ss, n, files) /\ UNCHANGED cfg
          /\ last' = [n |-> n, of |-> Len(ss), at |-> IF n < Len(ss) THEN ss[n + 1] ELSE S("none", 0)]
Next == \E n \in 0..40 : Run(n)
Completed == [][last'.n = last'.of => files' = 0..(cfg[1] - 1)]_<<cfg, enc, dec, files, last>>
NothingSkipped == dec # {} => (DecFrom(cfg, dec)..(cfg[1] - 1)) \subseteq files
DecodingNeedsAll == dec # {} => EncFrom(enc) = cfg[1]
ProgressKept == [][enc \subseteq enc' /\ dec \subseteq dec' /\ files \subseteq files']_<<cfg, enc, dec, files, last>>
View == <<cfg, enc, dec, files>>
St(c, e, d, f) == [cfg |-> c, enc |-> e, dec |-> d, files |-> f]
Emit == PrintT("@@EDGE@@" \o ToJson([src |-> St(cfg, enc, dec, files), act |-> last', dst |-> St(cfg', enc', dec', files')]))
=============================================================================
