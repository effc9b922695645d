----------------------------- MODULE VqNearest -----------------------------
(* Vector quantisation on a small integer grid: every codebook of K words,
   every vector.  The trace module reuses Dist and Nearest.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS K, R
VARIABLES cb, v
RECURSIVE SqDist(_, _, _)
SqDist(a, b, n) == IF n = 0 THEN 0 ELSE (a[n] - b[n]) * (a[n] - b[n]) + SqDist(a, b, n - 1)
Dist(a, b) == SqDist(a, b, Len(a))
Nearest(w, book) == {k \in DOMAIN book : \A j \in DOMAIN book : Dist(w, book[k]) <= Dist(w, book[j])}
RECURSIVE DotN(_, _, _)
DotN(a, b, n) == IF n = 0 THEN 0 ELSE a[n] * b[n] + DotN(a, b, n - 1)
Dot(a, b) == DotN(a, b, Len(a))
Grid == (-R..R) \X (-R..R)
Init == v \in Grid /\ cb \in [1..K -> Grid]
Next == UNCHANGED <<cb, v>>
SomeNearest == Nearest(v, cb) # {}
(* the reconstruction of a codeword is that codeword (re-encoding is free)      *)
CodewordsAreFixed == \A k \in DOMAIN cb : \A j \in Nearest(cb[k], cb) : cb[j] = cb[k]
(* quantising again changes nothing                                             *)
Idempotent == \A k \in Nearest(v, cb) : \A j \in Nearest(cb[k], cb) : cb[j] = cb[k]
(* with words of equal length the nearest word has the largest inner product    *)
EqualLengthMeansInnerProduct ==
  (\A k \in DOMAIN cb : Dot(cb[k], cb[k]) = Dot(cb[1], cb[1])) =>
  \A k \in DOMAIN cb : k \in Nearest(v, cb) <=> \A j \in DOMAIN cb : Dot(v, cb[k]) >= Dot(v, cb[j])
(* more words never make a vector worse                                         *)
MoreWordsNeverWorse == \A n \in 1..(K - 1) : \A k \in Nearest(v, cb), j \in Nearest(v, SubSeq(cb, 1, n)) :
  Dist(v, cb[k]) <= Dist(v, cb[j])
=============================================================================
