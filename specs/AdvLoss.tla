------------------------------ MODULE AdvLoss ------------------------------
(* Which cell of the cost table of every pixel an adversarial loss counts.
   cost[i][c] is what pixel i costs when it is scored against class c; class 1
   is "fake", class k + 1 the k-th real label (labels run from 0).  Losses are
   kept as sums: discriminator sums are 2 * N times the loss, generator sums N
   times.  The two-class (binary) losses mix the two columns by the target in
   percent.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxN, K, MaxCost
VARIABLES real, fake, lab
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
Picked(cost, labels) == Sum([i \in DOMAIN labels |-> cost[i][labels[i] + 2]])
AsFake(cost) == Sum([i \in DOMAIN cost |-> cost[i][1]])
Disc(r, f, labels) == Picked(r, labels) + AsFake(f)
Gen(f, labels) == Picked(f, labels)
(* binary: column 1 the cost of saying fake, column 2 of saying real          *)
Mix(cost, target) == Sum([i \in DOMAIN cost |-> target[i] * cost[i][2] + (100 - target[i]) * cost[i][1]])
BinDisc(r, f, target) == Mix(r, target) + Mix(f, [i \in DOMAIN f |-> 0])

Row == [1..K -> 0..MaxCost]
Init == real = <<>> /\ fake = <<>> /\ lab = <<>>
Next == /\ Len(lab) < MaxN
        /\ \E r \in Row, f \in Row, c \in 0..(K - 2) :
              real' = Append(real, r) /\ fake' = Append(fake, f) /\ lab' = Append(lab, c)
(* a perfect discriminator pays nothing, and then the generator's cost is only its own *)
Perfect == (\A i \in DOMAIN lab : real[i][lab[i] + 2] = 0 /\ fake[i][1] = 0) <=> Disc(real, fake, lab) = 0
NeverRealAsFake == \A i \in DOMAIN lab : \A v \in 0..MaxCost : Picked([real EXCEPT ![i][1] = v], lab) = Picked(real, lab)
OnePerPixel == \A i \in DOMAIN lab : \A v \in 0..MaxCost :
    Disc([real EXCEPT ![i][lab[i] + 2] = v], fake, lab) - v = Disc(real, fake, lab) - real[i][lab[i] + 2]
GeneratorSeesFakesOnly == Gen(fake, lab) = Picked(fake, lab)
Binary == K = 2 => BinDisc(real, fake, [i \in DOMAIN real |-> 100]) = 100 * Disc(real, fake, lab)
=============================================================================
