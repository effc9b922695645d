----------------------------- MODULE KodakStore -----------------------------
(* A directory of 24 images fetched one by one, in three stretches (the first,
   the last and those between), through a network that may refuse a connection
   or break off, and a disk that may lose or damage files.  A data set object
   that checks integrity exists only over a complete genuine directory.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Disk            \* may files be damaged or lost
VARIABLES root, g, last
Parts == 1..3
First(k) == CASE k = 1 -> 1 [] k = 2 -> 2 [] k = 3 -> 24
(* failure points: 0 none, then for each part: no connection, broken off with
   an error, ended early without one                                           *)
Points == 0..9
Part(f) == (f + 2) \div 3
Kind(f) == IF f = 0 THEN "none" ELSE CASE (f - 1) % 3 = 0 -> "refused" [] (f - 1) % 3 = 1 -> "cut" [] OTHER -> "short"
Starts(r, dl, force) == dl /\ (~r \/ force)
Fetched(s, f) == [k \in Parts |-> IF f = 0 \/ k < Part(f) \/ (k > Part(f) /\ Kind(f) = "short") THEN "good"
                                 ELSE IF k = Part(f) /\ Kind(f) # "refused" THEN "bad" ELSE s[k]]
Breaks(f) == Kind(f) \in {"refused", "cut"}
After(r, s, dl, force, f) == IF Starts(r, dl, force) THEN Fetched(s, f) ELSE s
Whole(s) == \A k \in Parts : s[k] = "good"
Asked(r, dl, force, f) == IF ~Starts(r, dl, force) THEN 0 ELSE IF ~Breaks(f) THEN 24 ELSE First(Part(f))
Outcome(r, s, dl, force, chk, f) ==
  IF dl /\ r /\ ~force THEN "exists"
  ELSE IF ~dl /\ ~r THEN "missing"
  ELSE IF dl /\ Breaks(f) THEN "network"
  ELSE IF chk /\ ~Whole(After(r, s, dl, force, f)) THEN "corrupt"
  ELSE "ok"
Init == root = FALSE /\ g = [k \in Parts |-> "absent"] /\ last = [name |-> "init"]
Make(dl, force, chk, f) ==
  /\ f # 0 => Starts(root, dl, force)
  /\ root' = (root \/ Starts(root, dl, force))
  /\ g' = After(root, g, dl, force, f)
  /\ last' = [name |-> "make", dl |-> dl, force |-> force, chk |-> chk, f |-> f, out |-> Outcome(root, g, dl, force, chk, f)]
Damage(k) == Disk /\ g[k] = "good" /\ g' = [g EXCEPT ![k] = "bad"] /\ UNCHANGED root /\ last' = [name |-> "damage", k |-> k]
Lose(k) == Disk /\ g[k] # "absent" /\ g' = [g EXCEPT ![k] = "absent"] /\ UNCHANGED root /\ last' = [name |-> "lose", k |-> k]
Next == (\E dl, force, chk \in BOOLEAN, f \in Points : Make(dl, force, chk, f)) \/ (\E k \in Parts : Damage(k) \/ Lose(k))
CheckedIsWhole == last.name = "make" /\ last.out = "ok" /\ last.chk => Whole(g)
FreshIsWhole == last.name = "make" /\ last.out = "ok" /\ last.dl /\ last.f = 0 => Whole(g)
NothingWithoutRoot == ~root => \A k \in Parts : g[k] = "absent"
(* an existing directory is touched only by force                              *)
OnlyByForce == [][(last'.name = "make" /\ root /\ ~last'.force) => g' = g]_<<root, g, last>>
View == <<root, g>>
St(r, s) == [root |-> r, g |-> s]
Emit == PrintT("@@EDGE@@" \o ToJson([src |-> St(root, g), act |-> last', dst |-> St(root', g')]))
=============================================================================
