------------------------------- MODULE Listing -------------------------------
(* From listed files to items: every listed item has exactly one index.  Names
   are numbers whose order is their alphabetical order.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxFolders, MaxFrames
VARIABLES n, f, video
(* septuplets: n folders, the first f frames of each, as clips or frame by frame *)
Length(nn, ff, v) == IF v THEN nn ELSE nn * ff
Item(i, nn, ff, v) == IF v THEN [k \in 1..ff |-> <<i + 1, k>>] ELSE <<<<(i \div ff) + 1, (i % ff) + 1>>>>
(* negative indices count from the end, as everywhere in Python                 *)
Norm(i, len) == IF i < 0 THEN i + len ELSE i
(* sorted names, without those to be left out, each as often as listed          *)
RECURSIVE Sorted(_), Without(_, _)
Least(s) == CHOOSE x \in {s[j] : j \in DOMAIN s} : \A k \in DOMAIN s : x <= s[k]
RECURSIVE Drop1(_, _)
Drop1(s, x) == IF s[1] = x THEN Tail(s) ELSE <<s[1]>> \o Drop1(Tail(s), x)
Sorted(s) == IF s = <<>> THEN <<>> ELSE LET x == Least(s) IN <<x>> \o Sorted(Drop1(s, x))
Without(s, bad) == IF s = <<>> THEN <<>> ELSE (IF s[1] \in bad THEN <<>> ELSE <<s[1]>>) \o Without(Tail(s), bad)
Init == n \in 0..MaxFolders /\ f \in 1..MaxFrames /\ video \in BOOLEAN
Next == UNCHANGED <<n, f, video>>
Indices == 0..(Length(n, f, video) - 1)
Covered == UNION {{Item(i, n, f, video)[k] : k \in DOMAIN Item(i, n, f, video)} : i \in Indices}
EveryFrameOnce == /\ Covered = {<<a, b>> : a \in 1..n, b \in 1..f}
                  /\ \A i, j \in Indices : i # j => Item(i, n, f, video) # Item(j, n, f, video)
InOrder == \A i, j \in Indices : i < j => LET a == Item(i, n, f, video)[1]  b == Item(j, n, f, video)[1] IN a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
=============================================================================
