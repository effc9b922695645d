------------------------------ MODULE VqUsage ------------------------------
(* Usage bookkeeping of a quantisation bottleneck (hits per codeword, metrics)
   and the freezing protocol of the autoencoder that holds it.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS K, MaxHits
VARIABLES hits, saved, metrics, seen, last
vars == <<hits, saved, metrics, seen, last>>
Zero == [k \in 1..K |-> 0]
RECURSIVE SumTo(_, _)
SumTo(h, n) == IF n = 0 THEN 0 ELSE h[n] + SumTo(h, n - 1)
Total(h) == SumTo(h, K)
Used(h) == Cardinality({k \in 1..K : h[k] > 0})
Most(h) == CHOOSE m \in {h[k] : k \in 1..K} : \A k \in 1..K : h[k] <= m
Batches == {b \in [1..K -> 0..2] : Total(b) \in 1..3}
Init == hits = Zero /\ saved = Zero /\ metrics = [used |-> 0, most |-> 0] /\ seen = 0 /\ last = [name |-> "new"]
Forward(b) == /\ \A k \in 1..K : hits[k] + b[k] <= MaxHits
              /\ hits' = [k \in 1..K |-> hits[k] + b[k]] /\ seen' = seen + Total(b)
              /\ UNCHANGED <<saved, metrics>> /\ last' = [name |-> "forward", b |-> b]
Reset == hits' = Zero /\ seen' = 0 /\ UNCHANGED <<saved, metrics>> /\ last' = [name |-> "reset"]
Measure == Total(hits) > 0 /\ metrics' = [used |-> Used(hits), most |-> Most(hits)] /\ UNCHANGED <<hits, saved, seen>> /\ last' = [name |-> "measure"]
Next == (\E b \in Batches : Forward(b)) \/ Reset \/ Measure
EveryVectorCounted == Total(hits) = seen
MetricsInRange == metrics.used \in 0..K /\ metrics.most <= MaxHits
ResetForgets == [][last'.name = "reset" => hits' = Zero]_vars
MeasureIsPure == [][last'.name = "measure" => hits' = hits]_vars
View == <<hits, metrics, seen>>
Emit == PrintT("@@EDGE@@" \o ToJson([src |-> [h |-> hits, m |-> metrics], act |-> last', dst |-> [h |-> hits', m |-> metrics']]))
=============================================================================
