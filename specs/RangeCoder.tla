---------------------------- MODULE RangeCoder ----------------------------
(* Arithmetic coding with a register of R bits: every symbol narrows [lo, hi],
   bits both ends agree on go out, and while the interval straddles the middle
   bits are held back (pend) until its side is known.  Two closing bits name a
   quarter that lies inside the interval whatever follows, so the receiver may
   read anything (fill) behind the end.  The bits are written in bytes of W bits
   into a buffer of a given capacity; a message that does not fit is refused.

   Checked for EVERY cumulative table over K symbols with total 2^P, EVERY
   message up to N symbols, EVERY fill and capacities around the needed one:
   the receiver recovers the message unless it was refused, and only a message
   that does not fit is refused.                                              *)
EXTENDS Integers, Sequences
CONSTANTS R, P, K, N, W
VARIABLES cdf, msg, lo, hi, pend, bits, ph, cap, fill, val, pos, out
vars == <<cdf, msg, lo, hi, pend, bits, ph, cap, fill, val, pos, out>>
Full == 2^R
Half == 2^(R - 1)
Quart == 2^(R - 2)
Tot == 2^P
Rep(b, n) == [i \in 1..n |-> b]
(* ---- sender                                                                *)
RECURSIVE Norm(_)
Norm(s) == IF s.hi < Half
           THEN Norm([lo |-> 2 * s.lo, hi |-> 2 * s.hi + 1, pend |-> 0, bits |-> s.bits \o <<0>> \o Rep(1, s.pend)])
           ELSE IF s.lo >= Half
           THEN Norm([lo |-> 2 * (s.lo - Half), hi |-> 2 * (s.hi - Half) + 1, pend |-> 0, bits |-> s.bits \o <<1>> \o Rep(0, s.pend)])
           ELSE IF s.lo >= Quart /\ s.hi < 3 * Quart
           THEN Norm([lo |-> 2 * (s.lo - Quart), hi |-> 2 * (s.hi - Quart) + 1, pend |-> s.pend + 1, bits |-> s.bits])
           ELSE s
Narrow(l, h, c, s) == [lo |-> l + (((h - l + 1) * c[s]) \div Tot), hi |-> l + (((h - l + 1) * c[s + 1]) \div Tot) - 1]
Close(l, p, b) == IF l < Quart THEN b \o <<0>> \o Rep(1, p + 1) ELSE b \o <<1>> \o Rep(0, p + 1)
(* ---- the buffer: the byte the last bits are in must fit too                 *)
Last(b) == Len(b) \div W
Refused(b, c) == Last(b) >= c
Kept(b, c) == SubSeq(b, 1, IF Len(b) < W * c THEN Len(b) ELSE W * c)
(* ---- receiver                                                              *)
Bit(b, i, f) == IF i <= Len(b) THEN b[i] ELSE f
RECURSIVE ReadN(_, _, _, _)
ReadN(b, i, f, n) == IF n = 0 THEN 0 ELSE 2 * ReadN(b, i, f, n - 1) + Bit(b, i + n - 1, f)
RECURSIVE DNorm(_, _, _)
DNorm(s, b, f) ==
    LET nx == Bit(b, s.pos, f) IN
    IF s.hi < Half THEN DNorm([lo |-> 2 * s.lo, hi |-> 2 * s.hi + 1, val |-> 2 * s.val + nx, pos |-> s.pos + 1], b, f)
    ELSE IF s.lo >= Half
    THEN DNorm([lo |-> 2 * (s.lo - Half), hi |-> 2 * (s.hi - Half) + 1, val |-> 2 * (s.val - Half) + nx, pos |-> s.pos + 1], b, f)
    ELSE IF s.lo >= Quart /\ s.hi < 3 * Quart
    THEN DNorm([lo |-> 2 * (s.lo - Quart), hi |-> 2 * (s.hi - Quart) + 1, val |-> 2 * (s.val - Quart) + nx, pos |-> s.pos + 1], b, f)
    ELSE s
Scaled(v, l, h) == ((v - l + 1) * Tot - 1) \div (h - l + 1)
SymbolAt(c, x) == CHOOSE s \in 1..K : c[s] <= x /\ x < c[s + 1]
Cdfs == {c \in [1..(K + 1) -> 0..Tot] : c[1] = 0 /\ c[K + 1] = Tot /\ \A i \in 1..K : c[i] <= c[i + 1]}
Init == /\ cdf \in Cdfs /\ msg = <<>> /\ lo = 0 /\ hi = Full - 1 /\ pend = 0 /\ bits = <<>> /\ ph = "enc"
        /\ cap = 0 /\ fill = 0 /\ val = 0 /\ pos = 0 /\ out = <<>>
Enq(s) == /\ ph = "enc" /\ Len(msg) < N /\ cdf[s] < cdf[s + 1]
          /\ LET w == Narrow(lo, hi, cdf, s)
                 r == Norm([lo |-> w.lo, hi |-> w.hi, pend |-> pend, bits |-> bits]) IN
             lo' = r.lo /\ hi' = r.hi /\ pend' = r.pend /\ bits' = r.bits
          /\ msg' = Append(msg, s) /\ UNCHANGED <<cdf, ph, cap, fill, val, pos, out>>
End == /\ ph = "enc" /\ msg # <<>>
       /\ LET b == Close(lo, pend, bits) IN
          \E c \in {x \in (Last(b) - 1)..(Last(b) + 1) : x > 0}, f \in {0, 1} :
             /\ cap' = c /\ fill' = f
             /\ bits' = Kept(b, c)
             /\ ph' = IF Refused(b, c) THEN "refused" ELSE "dec"
             /\ val' = ReadN(Kept(b, c), 1, f, R) /\ pos' = R + 1
             /\ pend' = Len(b)                      \* kept for the invariant
       /\ lo' = 0 /\ hi' = Full - 1 /\ UNCHANGED <<cdf, msg, out>>
Deq == /\ ph = "dec" /\ Len(out) < Len(msg)
       /\ LET s == SymbolAt(cdf, Scaled(val, lo, hi))
              w == Narrow(lo, hi, cdf, s)
              r == DNorm([lo |-> w.lo, hi |-> w.hi, val |-> val, pos |-> pos], bits, fill) IN
          out' = Append(out, s) /\ lo' = r.lo /\ hi' = r.hi /\ val' = r.val /\ pos' = r.pos
       /\ UNCHANGED <<cdf, msg, pend, bits, ph, cap, fill>>
Next == (\E s \in 1..K : Enq(s)) \/ End \/ Deq
Spec == Init /\ [][Next]_vars
Lossless == out = SubSeq(msg, 1, Len(out))
RoomLeft == ph = "enc" => hi - lo + 1 > Quart /\ lo < Half /\ hi >= Half
ValueInside == ph = "dec" => lo <= val /\ val <= hi
RefusedOnlyWhenFull == /\ ph = "refused" => pend >= W * cap
                       /\ ph = "dec" => pend < W * cap
=============================================================================
