----------------------------- MODULE PatchGrid -----------------------------
(* The two patch grids of FID/p on every small image: where they lie, what
   they cover, and that the shifted grid exists exactly when it fits.          *)
EXTENDS Integers, FiniteSets, TLC
CONSTANT MaxP
VARIABLES p, h, w
Init == p \in 2..MaxP /\ h \in p..(3 * p + 1) /\ w \in p..(3 * p + 1)
Next == UNCHANGED <<p, h, w>>
Grid(off) == {<<off + p * i, off + p * j>> : i \in 0..(((h - off) \div p) - 1), j \in 0..(((w - off) \div p) - 1)}
Shifted == 2 * h >= 3 * p /\ 2 * w >= 3 * p
Inside(g) == \A c \in g : c[1] + p <= h /\ c[2] + p <= w /\ c[1] >= 0 /\ c[2] >= 0
Apart(g) == \A c, d \in g : c # d => (c[1] + p <= d[1] \/ d[1] + p <= c[1] \/ c[2] + p <= d[2] \/ d[2] + p <= c[2])
BothInside == Inside(Grid(0)) /\ (Shifted => Inside(Grid(p \div 2)))
NonOverlapping == Apart(Grid(0)) /\ (Shifted => Apart(Grid(p \div 2)))
ShiftedFits == Shifted => Grid(p \div 2) # {}
NothingMissed == \A y \in 0..((p * (h \div p)) - 1), x \in 0..((p * (w \div p)) - 1) :
   Cardinality({c \in Grid(0) : c[1] <= y /\ y < c[1] + p /\ c[2] <= x /\ x < c[2] + p}) = 1
GridsDisjoint == Shifted => Grid(0) \cap Grid(p \div 2) = {}
=============================================================================
