-------------------------------- MODULE Hub --------------------------------
(* Models by name, with weights fetched once and kept on disk.  Whatever was asked
   for before, and however connections failed, a model asked for with weights
   either has exactly the weights published under its name or is not returned;
   one asked for without them never touches the network.                       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Names          \* published models
VARIABLES kept, last     \* what is on disk for each name
Kept == {"none", "whole", "broken"}
Faults == {"none", "refused", "cut", "short"}
Vias == {"zoo", "hub"}
Asks == {"default", "yes", "no"}
WithWeights(via, ask) == ask = "yes" \/ (ask = "default" /\ via = "hub")
(* what is on disk after a request                                             *)
After(k, f) == IF k # "none" THEN k ELSE CASE f = "none" -> "whole" [] f = "short" -> "broken" [] OTHER -> "none"
Out(k, via, ask, f) == IF ~WithWeights(via, ask) THEN "new" ELSE IF After(k, f) = "whole" THEN "own" ELSE "raised"
Fetches(k, via, ask) == IF WithWeights(via, ask) /\ k = "none" THEN 1 ELSE 0
Init == kept = [n \in Names |-> "none"] /\ last = [name |-> "init"]
Load(n, via, ask, f) ==
  /\ f # "none" => Fetches(kept[n], via, ask) = 1
  /\ kept' = IF WithWeights(via, ask) THEN [kept EXCEPT ![n] = After(@, f)] ELSE kept
  /\ last' = [name |-> "load", n |-> n, via |-> via, ask |-> ask, fault |-> f, out |-> Out(kept[n], via, ask, f), fetches |-> Fetches(kept[n], via, ask)]
Next == \E n \in Names, via \in Vias, ask \in Asks, f \in Faults : Load(n, via, ask, f)
NeverForeign == last.name = "load" => last.out \in {"own", "new", "raised"} /\ (last.out = "new") = ~WithWeights(last.via, last.ask)
QuietWithout == last.name = "load" /\ ~WithWeights(last.via, last.ask) => last.fetches = 0
OthersKept == [][\A n \in Names : kept'[n] # kept[n] => last'.n = n]_<<kept, last>>
View == kept
St(k) == [x \in Names |-> k[x]]
Emit == PrintT("@@EDGE@@" \o ToJson([src |-> St(kept), act |-> last', dst |-> St(kept')]))
=============================================================================
