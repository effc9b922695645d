----------------------------- MODULE Surrogates -----------------------------
(* Differentiable stand-ins for rounding and clamping.

   Soft rounding is ANY increasing map f of the unit cell {0..G} onto itself
   that fixes its ends and is symmetric about the middle, repeated in every
   cell: TLC runs through all of them.  Lower bounding is max(x, b) with one of
   three gradients, and a gradient descent run shows what each one allows.    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS G, R, B
VARIABLES f, x, mode, g, phase
vars == <<f, x, mode, g, phase>>
Maps == {h \in [0..G -> 0..G] : /\ h[0] = 0 /\ h[G] = G
                                /\ \A i \in 0..(G - 1) : h[i] <= h[i + 1]
                                /\ \A i \in 0..G : h[G - i] = G - h[i]}
S(v) == G * (v \div G) + f[v % G]
Pre(y) == {v \in (-R * G)..(R * G) : S(v) = y}
(* lower bound: value and gradient passed to x for upstream gradient u         *)
Bound(v, b) == IF v >= b THEN v ELSE b
Grad(m, v, b, u) == CASE m = "disconnected" -> IF v >= b THEN u ELSE 0
                      [] m = "identity" -> u
                      [] m = "identity_if_towards" -> IF v >= b \/ u < 0 THEN u ELSE 0
Modes == {"disconnected", "identity", "identity_if_towards"}
Init == /\ f \in Maps /\ x \in (-R)..R /\ mode \in Modes /\ g \in {-1, 0, 1} /\ phase = 0
(* one descent step with upstream gradient g' (phase counts steps)             *)
Step == /\ phase < 3 /\ phase' = phase + 1 /\ g' \in {-1, 0, 1}
        /\ x' = x - Grad(mode, x, B, g') /\ UNCHANGED <<f, mode>>
Next == Step
Increasing == \A v \in (-R * G)..(R * G - 1) : S(v) <= S(v + 1)
FixesIntegers == \A k \in (-R)..R : S(k * G) = k * G
Equivariant == \A v \in (-R * G)..(R * G - G) : S(v + G) = S(v) + G
StaysInCell == \A v \in (-R * G)..(R * G) : S(v) - v < G /\ v - S(v) < G
InverseWhenStrict == (\A i \in 0..(G - 1) : f[i] < f[i + 1]) => \A v \in (-R * G)..(R * G) : Pre(S(v)) = {v}
Odd == \A v \in (-R * G)..(R * G) : S(-v) = -S(v)
NeverBelow == Bound(x, B) >= B /\ (x >= B => Bound(x, B) = x)
(* below the bound, "identity_if_towards" only ever moves x up; "disconnected"
   leaves it where it is                                                       *)
OnlyTowards == [][x < B => CASE mode = "identity_if_towards" -> x' >= x
                             [] mode = "disconnected" -> x' = x [] OTHER -> TRUE]_vars
AboveAlwaysFollows == [][x >= B => x' = x - g']_vars
=============================================================================
