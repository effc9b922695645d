----------------------------- MODULE UnetShape -----------------------------
(* The U-Net discriminator as a walk: down through levels 1..L (channels
   ch[1] -> ... -> ch[L+1], halving the side each time), then back up through
   levels L..1; levels 1..d (side factor 2^d) are clipped, the last level that
   still upsamples ends in Tip channels, which the output layer expects.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxL, MaxC, Tip, Extra
VARIABLES ch, d, at, dir, side, chans, ok
L == Len(ch) - 1
Clipped(j) == j <= d
OutCh(j) == IF j = d + 1 THEN Tip ELSE ch[j]
(* sides are counted in units of the deepest level's side                      *)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Accepts(levels, dd) == dd < levels
vars == <<ch, d, at, dir, side, chans, ok>>
Init == \E n \in 1..MaxL : \E c \in [1..(n + 1) -> 1..MaxC] : \E dd \in 0..(n + Extra) :
          /\ ch = c /\ d = dd
          /\ IF Accepts(n, dd) THEN at = 1 /\ dir = "down" /\ ok = TRUE ELSE at = 0 /\ dir = "refused" /\ ok = TRUE
          /\ side = Pow2(n) /\ chans = c[1]
Down == /\ dir = "down"
        /\ ok' = (ok /\ chans = ch[at]) /\ chans' = ch[at + 1] /\ side' = side \div 2
        /\ IF at = L THEN dir' = "up" /\ at' = at ELSE dir' = dir /\ at' = at + 1
        /\ UNCHANGED <<ch, d>>
Up == /\ dir = "up"
      /\ IF Clipped(at) THEN UNCHANGED <<side, chans, ok>>
         ELSE ok' = (ok /\ chans = ch[at + 1]) /\ chans' = OutCh(at) /\ side' = side * 2
      /\ IF at = 1 THEN dir' = "done" /\ at' = 0 ELSE dir' = dir /\ at' = at - 1
      /\ UNCHANGED <<ch, d>>
Next == Down \/ Up
ChannelsMatch == ok
EndsInTip == dir = "done" => chans = Tip
ClippedSide == dir = "done" => side * Pow2(d) = Pow2(L)
RefusedWhenDeep == dir = "refused" <=> d >= L
=============================================================================
