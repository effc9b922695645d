------------------------------ MODULE ClicStore ------------------------------
(* Splits fetched as archives into one directory.  An archive is kept, checked
   and extracted; the validation split is extracted beside its place and moved
   there.  The network may refuse or break off, extraction may be interrupted.
   Asking again always ends with the archive's images, fetched once.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Splits
VARIABLES zip, tree, last
Zips == {"none", "good", "bad"}
Trees == {"none", "part", "full"}
Faults == {"none", "connect", "cut", "extract"}
Present(s, t) == s = "val" /\ t = "full"
Fetch(s, z, t, dl) == dl /\ ~Present(s, t) /\ z # "good"
ZipAfter(s, z, t, dl, f) == IF ~Fetch(s, z, t, dl) THEN z ELSE IF f = "connect" THEN z ELSE IF f = "cut" THEN "bad" ELSE "good"
Extracts(s, z, t, dl, f) == dl /\ ~Present(s, t) /\ ZipAfter(s, z, t, dl, f) = "good"
TreeAfter(s, z, t, dl, f) == IF ~Extracts(s, z, t, dl, f) THEN t ELSE IF f = "extract" THEN (IF t = "full" THEN "full" ELSE "part") ELSE "full"
Fails(s, z, t, dl, f) == \/ Fetch(s, z, t, dl) /\ f \in {"connect", "cut"}
                         \/ Extracts(s, z, t, dl, f) /\ f = "extract"
Init == zip = [s \in Splits |-> "none"] /\ tree = [s \in Splits |-> "none"] /\ last = [name |-> "init"]
Make(s, dl, f) ==
  /\ f \in {"connect", "cut"} => Fetch(s, zip[s], tree[s], dl)
  /\ f = "extract" => Extracts(s, zip[s], tree[s], dl, f)
  /\ zip' = [zip EXCEPT ![s] = ZipAfter(s, @, tree[s], dl, f)]
  /\ tree' = [tree EXCEPT ![s] = TreeAfter(s, zip[s], @, dl, f)]
  /\ last' = [name |-> "make", s |-> s, dl |-> dl, f |-> f, ok |-> ~Fails(s, zip[s], tree[s], dl, f), fetch |-> Fetch(s, zip[s], tree[s], dl)]
Next == \E s \in Splits, dl \in BOOLEAN, f \in Faults : Make(s, dl, f)
AskedIsFull == last.name = "make" /\ last.dl /\ last.ok => tree[last.s] = "full"
FullHasArchive == \A s \in Splits : tree[s] # "none" => zip[s] = "good"
FetchedOnce == [][\A s \in Splits : zip[s] = "good" => zip'[s] = "good"]_<<zip, tree, last>>
Monotone == [][\A s \in Splits : tree[s] = "full" => tree'[s] = "full"]_<<zip, tree, last>>
View == <<zip, tree>>
St(z, t) == [zip |-> z, tree |-> t]
Emit == PrintT("@@EDGE@@" \o ToJson([src |-> St(zip, tree), act |-> last', dst |-> St(zip', tree')]))
=============================================================================
