----------------------------- MODULE MetricAcc -----------------------------
(* Accumulating image metrics.  Two-sample metrics (FID, KID) keep a bag of
   features per side; score metrics (MS-SSIM, DISTS) keep a sum and a count.
   The value is a function of what was accumulated since the last reset, never
   of how it was cut into batches, of the order, or of earlier readings.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NB              \* batches available per side; batch b holds b images
VARIABLES real, fake,     \* set of batches accumulated per side
          sum, total, hist, last
vars == <<real, fake, sum, total, hist, last>>
Batches == 1..NB
Score(b, i) == (7 * b + 3 * i * i) % 11            \* score of image i of batch b
RECURSIVE SumB(_, _)
SumB(b, i) == IF i = 0 THEN 0 ELSE Score(b, i) + SumB(b, i - 1)
RECURSIVE SumS(_)
SumS(S) == IF S = {} THEN 0 ELSE LET b == CHOOSE x \in S : TRUE IN SumB(b, b) + SumS(S \ {b})
RECURSIVE CntS(_)
CntS(S) == IF S = {} THEN 0 ELSE LET b == CHOOSE x \in S : TRUE IN b + CntS(S \ {b})
Init == real = {} /\ fake = {} /\ sum = 0 /\ total = 0 /\ hist = {} /\ last = [name |-> "new"]
Real(b) == b \notin real /\ real' = real \cup {b} /\ UNCHANGED <<fake, sum, total, hist>> /\ last' = [name |-> "real", b |-> b]
Fake(b) == b \notin fake /\ fake' = fake \cup {b} /\ sum' = sum + SumB(b, b) /\ total' = total + b /\ hist' = hist \cup {b}
           /\ UNCHANGED real /\ last' = [name |-> "fake", b |-> b]
Compute == CntS(real) > 4 /\ CntS(fake) > 4 /\ UNCHANGED <<real, fake, sum, total, hist>> /\ last' = [name |-> "compute"]
Reset == real' = {} /\ fake' = {} /\ sum' = 0 /\ total' = 0 /\ hist' = {} /\ last' = [name |-> "reset"]
Next == (\E b \in Batches : Real(b) \/ Fake(b)) \/ Compute \/ Reset
(* the running pair is the mean over the flattened history                     *)
MeanOfHistory == sum = SumS(hist) /\ total = CntS(hist)
OrderFree == hist = fake
ReadingIsPure == [][last'.name = "compute" => UNCHANGED <<real, fake, sum, total>>]_vars
View == <<real, fake>>
Emit == PrintT("@@EDGE@@" \o ToJson([src |-> [r |-> real, f |-> fake], act |-> last', dst |-> [r |-> real', f |-> fake']]))
=============================================================================
