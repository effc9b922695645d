----------------------------- MODULE RateTarget -----------------------------
(* Rate targeting: the stage of training selects the factors on target and
   upper penalty; an image above target pays the upper penalty, at or below it
   the lower one.  Bits, pixels, target (bits per pixel times TScale) and
   penalties are integers, so every comparison is exact.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxSteps, MaxG, MaxBits
VARIABLES steps, g, bits, target, lam
vars == <<steps, g, bits, target, lam>>
Stage(ss, n) == IF \E i \in DOMAIN ss : n < ss[i]
                THEN CHOOSE i \in DOMAIN ss : n < ss[i] /\ \A j \in 1..(i - 1) : n >= ss[j]
                ELSE Len(ss) + 1
Lam(b, px, t, tscale, l1, l2) == IF b * tscale > t * px THEN l2 ELSE l1
Cost(b, px, t, tscale, l1, l2) == Lam(b, px, t, tscale, l1, l2) * b
Sorted(ss) == \A i \in 1..(Len(ss) - 1) : ss[i] < ss[i + 1]
Init == /\ steps \in {ss \in UNION {[1..n -> 1..MaxG] : n \in 0..MaxSteps} : Sorted(ss)}
        /\ g = 0 /\ bits \in 0..MaxBits /\ target \in 0..MaxBits /\ lam \in {<<1, 2>>, <<1, 5>>, <<2, 2>>}
Tick == g < MaxG + 1 /\ g' = g + 1 /\ UNCHANGED <<steps, bits, target, lam>>
More == g = 0 /\ bits < MaxBits /\ bits' = bits + 1 /\ UNCHANGED <<steps, g, target, lam>>
Next == Tick \/ More
InRange == Stage(steps, g) \in 1..(Len(steps) + 1)
FirstAtStart == (\A i \in DOMAIN steps : steps[i] > 0) => (g = 0 => Stage(steps, g) = 1)
LastAtEnd == g > MaxG => Stage(steps, g) = Len(steps) + 1
StagesAdvance == [][g' = g + 1 => Stage(steps, g') \in {Stage(steps, g), Stage(steps, g) + 1}]_vars
ChangesOnlyAtSteps == [][g' = g + 1 => (Stage(steps, g') # Stage(steps, g) <=> \E i \in DOMAIN steps : steps[i] = g')]_vars
(* more bits never cost less *)
CostMonotone == [][bits' = bits + 1 => Cost(bits', 1, target, 1, lam[1], lam[2]) >= Cost(bits, 1, target, 1, lam[1], lam[2])]_vars
=============================================================================
