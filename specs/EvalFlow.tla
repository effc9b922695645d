------------------------------ MODULE EvalFlow ------------------------------
(* Which images the training module's quality metrics have seen: three groups
   (train, val, test) plus the validation FID, which is also emptied at the end
   of a validation epoch.  The start of any epoch and loading a checkpoint empty
   all of them; naming a test set creates the test metrics once.  Counts stand
   for the batches (the trace specification tracks the batches themselves).   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Max
VARIABLES acc, name, last
vars == <<acc, name, last>>
Groups == {"train", "val", "vfid", "test"}
Empty == [q \in Groups |-> 0]
Init == acc = Empty /\ name = "" /\ last = [name |-> "new"]
Add(qs) == /\ \A q \in qs : acc[q] < Max
           /\ acc' = [q \in Groups |-> IF q \in qs THEN acc[q] + 1 ELSE acc[q]]
Train == Add({"train"}) /\ UNCHANGED name /\ last' = [name |-> "train"]
Val == Add({"val", "vfid"}) /\ UNCHANGED name /\ last' = [name |-> "val"]
Test == name # "" /\ Add({"test"}) /\ UNCHANGED name /\ last' = [name |-> "test"]
TestUnnamed == name = "" /\ UNCHANGED <<acc, name>> /\ last' = [name |-> "test_unnamed"]
BadPrefix == UNCHANGED <<acc, name>> /\ last' = [name |-> "bad_prefix"]
NoDataset == name # "" /\ UNCHANGED <<acc, name>> /\ last' = [name |-> "no_dataset"]
SetName(n) == name' = n /\ UNCHANGED acc /\ last' = [name |-> "set_name", n |-> n]
Start(k) == acc' = Empty /\ UNCHANGED name /\ last' = [name |-> k]
ValEnd == acc' = [acc EXCEPT !["vfid"] = 0] /\ UNCHANGED name /\ last' = [name |-> "val_end"]
TestEnd == name # "" /\ acc["test"] > 0 /\ UNCHANGED <<acc, name>> /\ last' = [name |-> "test_end"]
Names == {"kodak", "clic2020", "photos"}
Next == Train \/ Val \/ Test \/ TestUnnamed \/ BadPrefix \/ NoDataset \/ ValEnd \/ TestEnd
        \/ (\E n \in Names : SetName(n)) \/ (\E k \in {"train_start", "val_start", "test_start", "load"} : Start(k))
NoTestBeforeNaming == name = "" => acc["test"] = 0
FidWithinVal == acc["vfid"] <= acc["val"]
GroupsSeparate == [][last'.name = "train" => \A q \in Groups \ {"train"} : acc'[q] = acc[q]]_vars
RefusalsChangeNothing == [][last'.name \in {"bad_prefix", "test_unnamed", "no_dataset"} => acc' = acc]_vars
View == <<acc, name>>
Patchwise(n) == n = "clic2020" \/ n = "div2k"
Emit == PrintT("@@EDGE@@" \o ToJson([src |-> [acc |-> acc, name |-> name], act |-> last', dst |-> [acc |-> acc', name |-> name']]))
=============================================================================
