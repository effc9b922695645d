-------------------------------- MODULE Warp --------------------------------
(* Exact image warping on one axis, positions in sixteenths of a pixel.
   The flow field has n samples over an image of S pixels; sample i sits at
   i/(n-1) of the way from the first to the last pixel centre (aligned) or from
   edge to edge (not aligned), moved by the flow k.  Weights of the two pixels
   around a position are in sixteenths; in two dimensions they multiply.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxS, MaxK
VARIABLES S, n, i, k, align, pad
U == 16
Base(s, nn, ii, al) == IF al THEN (U * ii * (s - 1)) \div (nn - 1) ELSE ((U * ii * s) \div (nn - 1)) - (U \div 2)
Clip(p, lo, hi) == IF p < lo THEN lo ELSE IF p > hi THEN hi ELSE p
(* mirror p into [lo, hi]                                                     *)
Mirror(p, lo, hi) ==
  IF lo = hi THEN lo ELSE
  LET w == hi - lo
      q == IF p >= lo THEN p - lo ELSE lo - p
      m == q % (2 * w) IN lo + (IF m <= w THEN m ELSE (2 * w) - m)
Placed(p, s, al, mode) ==
  CASE mode = "zeros" -> p
    [] mode = "border" -> Clip(p, 0, U * (s - 1))
    [] mode = "reflection" -> Clip(IF al THEN Mirror(p, 0, U * (s - 1)) ELSE Mirror(p, -(U \div 2), (U * s) - (U \div 2)), 0, U * (s - 1))
Pos(s, nn, ii, kk, al, mode) == Placed(Base(s, nn, ii, al) + kk, s, al, mode)
(* <<pixel (0-based), weight>> pairs; pixels outside contribute nothing        *)
Taps(p, s) == LET j == p \div U  f == p % U
                  all == {<<j, U - f>>, <<j + 1, f>>} IN {t \in all : t[1] >= 0 /\ t[1] < s /\ t[2] > 0}
Nearest(p, s) == LET j == (p + (U \div 2)) \div U IN IF j >= 0 /\ j < s THEN {<<j, U>>} ELSE {}
WeightOf(ts) == IF ts = {} THEN 0 ELSE LET RECURSIVE W(_)
                                          W(x) == IF x = {} THEN 0 ELSE LET t == CHOOSE y \in x : TRUE IN t[2] + W(x \ {t}) IN W(ts)
vars == <<S, n, i, k, align, pad>>
Init == /\ S \in 1..MaxS /\ n \in 2..(MaxS + 1) /\ i = 0 /\ k \in -MaxK..MaxK /\ align \in BOOLEAN
        /\ pad \in {"zeros", "border", "reflection"}
        /\ (U * (IF align THEN S - 1 ELSE S)) % (n - 1) = 0
Next == i < n - 1 /\ i' = i + 1 /\ UNCHANGED <<S, n, k, align, pad>>
P == Pos(S, n, i, k, align, pad)
(* without flow an aligned field of the image's size is the identity           *)
Identity == (align /\ k = 0 /\ n = S) => Taps(P, S) = {<<i, U>>}
(* border and reflection never leave the image: full weight                    *)
FullWeight == pad # "zeros" => WeightOf(Taps(P, S)) = U
AtMostFull == WeightOf(Taps(P, S)) <= U
(* one whole pixel of flow moves by one pixel inside                           *)
Shift == (align /\ k = U /\ n = S /\ i + 1 < S) => Taps(P, S) = {<<i + 1, U>>}
Inside == pad # "zeros" => (P >= 0 /\ P <= U * (S - 1))
=============================================================================
