------------------------------- MODULE Color -------------------------------
(* HSV to RGB in integers: hue in degrees, saturation and value in percent,
   colours in 1/600000 (= 100 * 100 * 60).                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS StepH, StepP
VARIABLES h, s, v
Min3(a, b, c) == LET m == IF a < b THEN a ELSE b IN IF m < c THEN m ELSE c
Ramp(n, hue) == LET k == ((60 * n) + hue) % 360
                    m == Min3(k, 240 - k, 60) IN IF m > 0 THEN m ELSE 0
Chan(n, hue, sat, val) == (val * 6000) - (val * sat * Ramp(n, hue))
Rgb(hue, sat, val) == <<Chan(5, hue, sat, val), Chan(3, hue, sat, val), Chan(1, hue, sat, val)>>
Init == h = 0 /\ s = 0 /\ v = 0
Next == \/ h + StepH <= 360 /\ h' = h + StepH /\ UNCHANGED <<s, v>>
        \/ s + StepP <= 100 /\ s' = s + StepP /\ UNCHANGED <<h, v>>
        \/ v + StepP <= 100 /\ v' = v + StepP /\ UNCHANGED <<h, s>>
Set3(c) == {c[1], c[2], c[3]}
Hi(c) == CHOOSE x \in Set3(c) : \A y \in Set3(c) : y <= x
Lo(c) == CHOOSE x \in Set3(c) : \A y \in Set3(c) : y >= x
C == Rgb(h, s, v)
ValueIsMax == Hi(C) = v * 6000
ChromaIsRange == Hi(C) - Lo(C) = v * s * 60
GreyWithoutSaturation == s = 0 => Cardinality(Set3(C)) = 1
Circle == Rgb(0, s, v) = Rgb(360, s, v)
Primaries == Rgb(0, 100, 100) = <<600000, 0, 0>> /\ Rgb(120, 100, 100) = <<0, 600000, 0>> /\ Rgb(240, 100, 100) = <<0, 0, 600000>>
=============================================================================
