------------------------------ MODULE DistLaws ------------------------------
(* A continuous-valued prior, discretised: the real line is cut in half-unit
   cells 1..N and the distribution is any assignment of integer masses to the
   cells.  The laws below are what the probability functions, the noise
   convolution and the range coding tables must obey for EVERY distribution:
   TLC runs through all mass assignments.                                    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, K, P          \* cells, largest mass per cell, table precision
VARIABLES mass, tail, phase, row
vars == <<mass, tail, phase, row>>
RECURSIVE SumTo(_, _)
SumTo(m, i) == IF i <= 0 THEN 0 ELSE m[IF i > N THEN N ELSE i] * (IF i > N THEN 0 ELSE 1) + SumTo(m, i - 1)
Cdf(i) == SumTo(mass, i)                 \* mass of cells <= i
Total == Cdf(N)
Surv(i) == Total - Cdf(i)
(* density after adding uniform noise of unit width (two cells) at boundary i *)
Noisy(i) == Cdf(i + 1) - Cdf(i - 1)
RECURSIVE SumNoisy(_, _)
SumNoisy(i, last) == IF i > last THEN 0 ELSE Noisy(i) + SumNoisy(i + 2, last)
SetMin(S) == CHOOSE a \in S : \A b \in S : a <= b
SetMax(S) == CHOOSE a \in S : \A b \in S : a >= b
(* tail points: half the tail mass on each side (2 * mass <= tail)            *)
LowerTail == SetMax({i \in 0..N : 2 * Cdf(i) <= tail})
UpperTail == SetMin({i \in 0..N : 2 * Surv(i) <= tail})
(* a range coding table over the unit bins centred at boundaries lo, lo+2 ..
   hi, with everything else in a final overflow bin; each bin gets at least
   one count and the rest goes by mass                                        *)
Bins(lo, hi) == [k \in 1..((hi - lo) \div 2 + 1) |-> Noisy(lo + 2 * (k - 1))]
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))
Freqs(lo, hi) == LET b == Bins(lo, hi)
                     all == Append(b, Total - SumSeq(b))
                     n == Len(all)
                     f == [k \in 1..n |-> 1 + (all[k] * (P - n)) \div Total]
                     big == CHOOSE k \in 1..n : \A j \in 1..n : f[j] <= f[k]
                 IN [f EXCEPT ![big] = @ + P - SumSeq(f)]
RECURSIVE Cumul(_, _)
Cumul(f, acc) == IF f = <<>> THEN <<acc>> ELSE <<acc>> \o Cumul(Tail(f), acc + f[1])
Init == /\ mass \in [1..N -> 0..K] /\ \E i \in 1..N : mass[i] > 0
        /\ tail \in 0..2 /\ phase = "prior" /\ row = <<>>
Build == /\ phase = "prior" /\ phase' = "table"
         /\ row' = LET lo == 2 * (LowerTail \div 2)  hi == lo + 2 * ((UpperTail - lo + 1) \div 2)
                   IN Cumul(Freqs(lo, IF hi < lo THEN lo ELSE hi), 0)
         /\ UNCHANGED <<mass, tail>>
Next == Build
Monotone == \A i \in 0..(N - 1) : Cdf(i) <= Cdf(i + 1)
Complement == \A i \in 0..N : Cdf(i) + Surv(i) = Total
NoiseNormalised == \A o \in {0, 1} : SumNoisy(o, N + 2) = Total
NoiseNonNegative == \A i \in 0..(N + 1) : Noisy(i) >= 0
TailsOrdered == tail < Total => LowerTail <= UpperTail
TailsSmall == 2 * Cdf(LowerTail) <= tail /\ 2 * Surv(UpperTail) <= tail
(* widening the tail allowance never widens the covered range                *)
TableProper == phase = "table" => /\ row[1] = 0 /\ row[Len(row)] = P
                                  /\ \A i \in 1..(Len(row) - 1) : row[i] < row[i + 1]
=============================================================================
