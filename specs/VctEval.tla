------------------------------ MODULE VctEval ------------------------------
(* Accounting of a coded video: bits per frame -> bits per pixel of the whole
   video and without its first frame; the training loss weighs every frame but
   the first by ten.  Bits are integers, rates compared as cross products.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxT, MaxBits
VARIABLES bits
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
Weight(t) == IF t = 1 THEN 1 ELSE 10
(* numerators; denominators are px * T and px * (T - 1) *)
All(b) == Sum(b)
WithoutFirst(b) == Sum(Tail(b))
Weighted(b) == Sum([t \in DOMAIN b |-> Weight(t) * b[t]])
Init == bits = <<>>
Next == Len(bits) < MaxT /\ \E v \in 0..MaxBits : bits' = Append(bits, v)
FirstPlusRest == bits # <<>> => All(bits) = bits[1] + WithoutFirst(bits)
WeightedSplit == bits # <<>> => Weighted(bits) = bits[1] + 10 * WithoutFirst(bits)
FirstFrameFree == Len(bits) > 1 => \A v \in 0..MaxBits : WithoutFirst([bits EXCEPT ![1] = v]) = WithoutFirst(bits)
=============================================================================
