----------------------------- MODULE LrSchedule -----------------------------
(* Learning-rate schedules as a function of the number of scheduler steps:
   a linear ramp, an optional constant stretch, a decay.  The decay profile is
   any decreasing map; here Decay.  The schedule keeps only the step count, so
   saving and restoring it resumes exactly.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxT
VARIABLES kind, ramp, cosn, total, step, saved
vars == <<kind, ramp, cosn, total, step, saved>>
Phase(k, r, c, t, s) ==
  CASE k = "identity" -> "const"
    [] k = "rampcosine" -> IF s < r THEN "ramp" ELSE "decay"
    [] k = "rampconstcosine" -> IF s < r THEN "ramp" ELSE IF c > 0 /\ s > t - c THEN "decay" ELSE "const"
    [] k = "linearrampcosine" -> IF s < r THEN "ramp1" ELSE "decay"
    [] k = "linearramplinear" -> IF s < r THEN "ramp1" ELSE "const"
    [] k = "linearwarmupcosine" -> IF s < r THEN "const" ELSE "decay"
(* position in the decay, as <<numerator, denominator>> of a fraction of it    *)
Frac(k, r, c, t, s) ==
  CASE k = "rampcosine" -> <<s - r, t>>
    [] k = "rampconstcosine" -> <<IF s - (t - c) > c THEN c ELSE s - (t - c), c>>
    [] OTHER -> <<s - r, IF t - r - 1 > 1 THEN t - r - 1 ELSE 1>>
Decay(f) == 1000 - (1000 * f[1]) \div f[2]
Factor(k, r, c, t, s) ==
  CASE Phase(k, r, c, t, s) = "ramp" -> (1000 * s) \div r
    [] Phase(k, r, c, t, s) = "ramp1" -> (1000 * (s + 1)) \div r
    [] Phase(k, r, c, t, s) = "const" -> 1000
    [] OTHER -> Decay(Frac(k, r, c, t, s))
Kinds == {"identity", "rampcosine", "rampconstcosine", "linearrampcosine", "linearramplinear", "linearwarmupcosine"}
Init == /\ kind \in Kinds /\ total \in 1..MaxT /\ ramp \in 1..MaxT /\ cosn \in 0..MaxT
        /\ ramp + cosn <= total /\ step = 0 /\ saved = 0
Last == IF kind \in {"rampcosine", "rampconstcosine", "identity", "linearramplinear"} THEN total ELSE total - 1
Step == step < Last /\ step' = step + 1 /\ UNCHANGED <<kind, ramp, cosn, total, saved>>
Save == saved' = step /\ UNCHANGED <<kind, ramp, cosn, total, step>>
Restore == step' = saved /\ UNCHANGED <<kind, ramp, cosn, total, saved>>
Next == Step \/ Save \/ Restore
F == Factor(kind, ramp, cosn, total, step)
Bounded == 0 <= F /\ F <= 1000
RisesThenFalls == [][step' = step + 1 =>
   IF step' < ramp THEN F' >= F ELSE step >= ramp => F' <= F]_vars
EndsAtZero == (kind = "rampconstcosine" /\ cosn > 0 /\ step = total) \/ (kind \in {"linearrampcosine", "linearwarmupcosine"} /\ total > ramp + 1 /\ step = total - 1) => F = 0
FullAfterRamp == step = ramp /\ kind # "identity" => F = 1000
=============================================================================
