------------------------------- MODULE ExpRun -------------------------------
(* An experiment directory over many starts of the training script.  A run that
   finds checkpoints is refused unless told to go on from the last one or to
   begin anew; runs may die before saving, between saving a checkpoint of some
   step and the last one, or end.  What was learned is only given up on request. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxProg, BothGiven   \* BothGiven: may both options be set
VARIABLES dir, prog, last
Dirs == {"absent", "empty", "step", "last"}
Ends == {"early", "step", "saved"}
HasAny(d) == d \in {"step", "last"}
Refused(d, ov, re) == HasAny(d) /\ ~ov /\ ~re
(* the progress a run begins with; 0 is a new model                            *)
From(d, p, ov, re) == IF d = "last" /\ re /\ ~ov THEN p ELSE 0
DirAfter(d, end) == CASE end = "early" -> (IF d = "absent" THEN "empty" ELSE d)
                      [] end = "step" -> (IF d = "last" THEN "last" ELSE "step")
                      [] end = "saved" -> "last"
Init == dir = "absent" /\ prog = 0 /\ last = [name |-> "init"]
Start(ov, re, end) ==
  /\ (ov /\ re) => BothGiven
  /\ IF Refused(dir, ov, re)
     THEN /\ end = "early" /\ UNCHANGED <<dir, prog>> /\ last' = [name |-> "start", ov |-> ov, re |-> re, end |-> end, out |-> "refused", base |-> 0]
     ELSE LET b == From(dir, prog, ov, re) IN
          /\ b < MaxProg
          /\ dir' = DirAfter(dir, end)
          /\ prog' = IF end = "saved" THEN b + 1 ELSE prog
          /\ last' = [name |-> "start", ov |-> ov, re |-> re, end |-> end, out |-> "run", base |-> b]
Next == \E ov, re \in BOOLEAN, end \in Ends : Start(ov, re, end)
OnlyOnRequest == [][prog' < prog => last'.ov]_<<dir, prog, last>>
RefusalKeeps == [][last'.name = "start" /\ last'.out = "refused" => dir' = dir /\ prog' = prog]_<<dir, prog, last>>
ProgressIsSaved == prog > 0 => dir = "last"
View == <<dir, prog>>
St(d, p) == [dir |-> d, prog |-> p]
Emit == PrintT("@@EDGE@@" \o ToJson([src |-> St(dir, prog), act |-> last', dst |-> St(dir', prog')]))
=============================================================================
