------------------------------ MODULE DvcStream ------------------------------
(* A P-frame codec between a sender and a receiver.  A frame is coded against the
   sender's reference, which the sender obtains by decoding its own payload; the
   receiver decodes the payloads in order against its own reference.  A reference
   is named by the history that made it: <<I-frame, P-frame, ...>>.  Payloads may
   be in flight.  Before the coding tables are built nothing can be coded.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Frames, MaxGop, MaxFlight
VARIABLES tables, enc, dec, flight, last
vars == <<tables, enc, dec, flight, last>>
Init == tables = 0 /\ enc = <<>> /\ dec = <<>> /\ flight = <<>> /\ last = [name |-> "new"]
Update(f) == /\ tables' = 1 /\ UNCHANGED <<enc, dec, flight>>
             /\ last' = [name |-> "update", force |-> f, built |-> (f \/ tables = 0)]
IFrame(k) == /\ flight = <<>> /\ enc' = <<k>> /\ dec' = <<k>> /\ UNCHANGED <<tables, flight>>
             /\ last' = [name |-> "iframe", k |-> k]
PFrame(k) == /\ enc # <<>> /\ Len(enc) <= MaxGop /\ Len(flight) < MaxFlight
             /\ IF tables = 0 THEN UNCHANGED <<tables, enc, dec, flight>> /\ last' = [name |-> "refused", k |-> k]
                ELSE /\ enc' = Append(enc, k) /\ flight' = Append(flight, [base |-> enc, k |-> k])
                     /\ UNCHANGED <<tables, dec>> /\ last' = [name |-> "pframe", k |-> k]
Deliver == /\ flight # <<>> /\ dec' = Append(dec, Head(flight).k) /\ flight' = Tail(flight)
           /\ UNCHANGED <<tables, enc>> /\ last' = [name |-> "deliver"]
Next == (\E f \in BOOLEAN : Update(f)) \/ (\E k \in Frames : IFrame(k) \/ PFrame(k)) \/ Deliver
NoDrift == flight = <<>> => enc = dec
DecodedAgainstItsBase == flight # <<>> => Head(flight).base = dec
Prefix == Len(dec) <= Len(enc) /\ SubSeq(enc, 1, Len(dec)) = dec
CodedNeedsTables == Len(enc) > 1 => tables = 1
View == <<tables, enc, dec, flight>>
St(t, e, d, f) == [tables |-> t, enc |-> e, dec |-> d, flight |-> Len(f)]
Emit == PrintT("@@EDGE@@" \o ToJson([src |-> St(tables, enc, dec, flight), act |-> last', dst |-> St(tables', enc', dec', flight')]))
-----------------------------------------------------------------------------
(* geometry of the strided coders: each level halves, rounding up; a transposed
   convolution (odd kernel k, padding k \div 2, stride 2) can produce 2n-1 or 2n *)
Half(n) == (n + 1) \div 2
RECURSIVE Level(_, _)
Level(n, i) == IF i = 0 THEN n ELSE Half(Level(n, i - 1))
Reachable(n, out) == out \in {2 * n - 1, 2 * n}
GeometryInverts == \A n \in 1..70 : \A i \in 0..3 : Reachable(Level(n, i + 1), Level(n, i))
=============================================================================
