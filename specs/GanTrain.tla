------------------------------ MODULE GanTrain ------------------------------
(* One training step of the rate-targeted (optionally adversarial) codec:
   the batch is split (or shared), the model moves on its own loss, the
   discriminator on its own, the quantiles on theirs, and nothing else.  A
   version number per part counts its updates; Read remembers which version of
   the model produced what the discriminator is shown.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxStep
VARIABLES adv, mc, quant, pc, ver, grad, fakeFrom, realFrom, last
vars == <<adv, mc, quant, pc, ver, grad, fakeFrom, realFrom, last>>
Parts == {"model", "disc", "quantiles", "frozen", "projector"}
Init == /\ adv \in BOOLEAN /\ mc \in BOOLEAN /\ quant \in BOOLEAN /\ (~adv => ~mc /\ quant)
        /\ pc = "start" /\ ver = [p \in Parts |-> 0] /\ grad = {"model", "disc"}
        /\ fakeFrom = 0 /\ realFrom = 0 /\ last = "new"
Move(p) == ver' = [ver EXCEPT ![p] = @ + 1]
Generator == /\ pc = "start" /\ ver["model"] < MaxStep /\ grad' = {"model"} /\ fakeFrom' = ver["model"]
             /\ Move("model") /\ pc' = (IF adv THEN "disc" ELSE "quant") /\ last' = "generator" /\ UNCHANGED <<adv, mc, quant, realFrom>>
Discriminator == /\ pc = "disc" /\ grad' = {"disc"} /\ realFrom' = (IF mc THEN ver["model"] ELSE fakeFrom)
                 /\ Move("disc") /\ pc' = (IF quant THEN "quant" ELSE "start") /\ last' = "discriminator" /\ UNCHANGED <<adv, mc, quant, fakeFrom>>
Quantiles == /\ pc = "quant" /\ Move("quantiles") /\ pc' = "start" /\ last' = "quantiles" /\ UNCHANGED <<adv, mc, quant, grad, fakeFrom, realFrom>>
Next == Generator \/ Discriminator \/ Quantiles
NothingElseMoves == ver["frozen"] = 0 /\ ver["projector"] = 0 /\ (~adv => ver["disc"] = 0) /\ (~quant => ver["quantiles"] = 0)
InStep == pc = "start" => /\ (adv => ver["disc"] = ver["model"]) /\ (quant => ver["quantiles"] = ver["model"])
OneAtATime == [][\A p, q \in Parts : ver'[p] # ver[p] /\ ver'[q] # ver[q] => p = q]_vars
OnlyItsOwnGradient == [][\A p \in {"model", "disc"} : ver'[p] # ver[p] => grad' = {p}]_vars
FakesAreFresh == last = "discriminator" => fakeFrom = ver["model"] - 1
(* parts that one whole training step moves, exactly once each *)
Moves(a, q) == {"model"} \cup (IF a THEN {"disc"} ELSE {}) \cup (IF q THEN {"quantiles"} ELSE {})
(* images of a batch of n handed to the model and to the discriminator *)
ModelImages(m, n) == IF m THEN 1..(n \div 2) ELSE 1..n
DiscImages(m, n) == IF m THEN ((n \div 2) + 1)..(2 * (n \div 2)) ELSE 1..n
SplitDisjoint == \A n \in 2..9 : /\ ModelImages(TRUE, n) \cap DiscImages(TRUE, n) = {}
                                 /\ Cardinality(ModelImages(TRUE, n)) = Cardinality(DiscImages(TRUE, n))
=============================================================================
