------------------------------ MODULE VideoLoad ------------------------------
(* Worker processes that play videos clip by clip.  All workers go through the
   same order of videos and take every W-th of them, so that an epoch plays
   every clip once; an epoch may be abandoned and begun again at any time.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS V, MaxClips, MaxWorkers
VARIABLES clips, W, order, at, played
(* ---- one video of n frames in clips of m: whole ones only, but at least one  *)
Clips(n, m) == IF n < m THEN 1 ELSE n \div m
Frames(k, n, m) == [i \in 1..(IF n < m THEN n ELSE m) |-> (k * m) + i - 1]
(* F of them spread evenly from the first to the last; where the even place is
   itself a frame, rounding may give the one before                             *)
Place(i, F, len) == IF F = 1 THEN 0 ELSE ((i - 1) * (len - 1)) \div (F - 1)
Exact(i, F, len) == F > 1 /\ ((i - 1) * (len - 1)) % (F - 1) = 0 /\ i > 1 /\ i < F
Spread(got, all, F) == IF F = 0 THEN got = all ELSE
  /\ Len(got) = F
  /\ \A i \in 1..F : LET p == Place(i, F, Len(all)) IN got[i] = all[p + 1] \/ (Exact(i, F, Len(all)) /\ got[i] = all[p])
(* ---- constant number of clips c, evenly placed                               *)
(* ---- what a worker has to play                                              *)
Units(v, c, augs) == [i \in 1..(c * augs) |-> <<v, (i - 1) \div augs, (i - 1) % augs>>]
RECURSIVE Play(_, _, _)
Play(vs, cs, augs) == IF vs = <<>> THEN <<>> ELSE Units(vs[1], cs[vs[1]], augs) \o Play(Tail(vs), cs, augs)
Share(o, w, n) == [i \in 1..((Len(o) - w + n) \div n) |-> o[((i - 1) * n) + w]]
IsPrefix(a, b) == Len(a) <= Len(b) /\ \A i \in DOMAIN a : a[i] = b[i]
(* the videos of a played sequence, as they come                                *)
RECURSIVE Heads(_)
Heads(s) == IF s = <<>> THEN <<>> ELSE LET r == Heads(SubSeq(s, 1, Len(s) - 1))  x == s[Len(s)] IN
  IF x[2] = 0 /\ x[3] = 0 THEN Append(r, x[1]) ELSE r
(* ---- the machine                                                            *)
Vids == 1..V
Orders == {o \in [1..V -> Vids] : \A i, j \in 1..V : i # j => o[i] # o[j]}
Init == /\ clips \in [Vids -> 1..MaxClips] /\ W \in 1..MaxWorkers /\ order \in Orders
        /\ at = [w \in 1..W |-> 0] /\ played = {}
Todo(w) == Play(Share(order, w, W), clips, 1)
Deliver(w) == /\ at[w] < Len(Todo(w)) /\ at' = [at EXCEPT ![w] = @ + 1]
              /\ played' = played \cup {Todo(w)[at[w] + 1]} /\ UNCHANGED <<clips, W, order>>
Restart == /\ at' = [w \in 1..W |-> 0] /\ played' = {} /\ order' \in Orders /\ UNCHANGED <<clips, W>>
Next == (\E w \in 1..W : Deliver(w)) \/ Restart
Count == LET RECURSIVE S(_)  S(w) == IF w = 0 THEN 0 ELSE at[w] + S(w - 1) IN S(W)
All == UNION {{<<v, k, 0>> : k \in 0..(clips[v] - 1)} : v \in Vids}
NeverTwice == Cardinality(played) = Count
EndIsAll == (\A w \in 1..W : at[w] = Len(Todo(w))) => played = All
(* a share of the videos is any subset, in the common order                     *)
SharesPartition == LET n == W IN \A v \in Vids : Cardinality({w \in 1..n : \E i \in DOMAIN Share(order, w, n) : Share(order, w, n)[i] = v}) = 1
=============================================================================
