--------------------------- MODULE BitsBackChain ---------------------------
(* Bits-back coding with a chain of two latents on one stack.  Encoding x takes
   z2 off with q(z2|x), z1 off with q(z1|z2,x), puts x on with p(x|z1), z1 on
   with p(z1|z2) and z2 on with p(z2).  Decoding is the same backwards.  The
   tables are any functions of what they are conditioned on: `fam` picks one
   assignment of tables.  A sampler keeps count and may save the stack and
   continue from what was saved.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS B, P, L, MaxTail, Depth, AnyStart, Fams, SaveAt
VARIABLES st, fam, data, start, saved, extra
vars == <<st, fam, data, start, saved, extra>>
R == INSTANCE RansStack WITH st <- st, hist <- <<>>, start <- st, on <- TRUE
Tot == 2^P
Tabs == << <<0, 1, 2, Tot>>, <<0, 1, Tot - 1, Tot>>, <<0, Tot - 2, Tot - 1, Tot>> >>
T(k) == Tabs[1 + (k % 3)]
Z(v) == v[1]
Q2(x) == T(fam + x)
Q1(z2, x) == T(fam \div 3 + 2 * z2 + x)
P1(z2) == T(fam \div 9 + z2)
PX(z1) == T(fam \div 2 + z1)
P2 == T(fam \div 5)
One(s) == [i \in 1..L |-> s]
Words(x) == Len(x.t)
Enc(m, x) ==
    LET z2 == TLCEval(Z(R!Symbols(m, Q2(x))))
        m1 == TLCEval(R!Pop(m, Q2(x)))
        z1 == TLCEval(Z(R!Symbols(m1, Q1(z2, x))))
        m2 == TLCEval(R!Pop(m1, Q1(z2, x)))
        m3 == TLCEval(R!Push(m2, PX(z1), One(x)))
        m4 == TLCEval(R!Push(m3, P1(z2), One(z1)))
    IN [m |-> TLCEval(R!Push(m4, P2, One(z2))), low |-> Words(m2)]
Dec(m) ==
    LET z2 == TLCEval(Z(R!Symbols(m, P2)))
        m1 == TLCEval(R!Pop(m, P2))
        z1 == TLCEval(Z(R!Symbols(m1, P1(z2))))
        m2 == TLCEval(R!Pop(m1, P1(z2)))
        x == TLCEval(Z(R!Symbols(m2, PX(z1))))
        m3 == TLCEval(R!Pop(m2, PX(z1)))
        m4 == TLCEval(R!Push(m3, Q1(z2, x), One(z1)))
    IN [x |-> x, m |-> TLCEval(R!Push(m4, Q2(x), One(z2)))]
Tails == {[j \in 1..8 |-> (a * j + b + (j \div 3)) % B] : a \in 0..(B - 1), b \in 0..(B - 1)}
None == [m |-> <<>>, d |-> <<>>, e |-> 0]
Init == /\ st \in [h : [1..L -> (B * B * B)..(B * B * B * B - 1)], t : Tails] /\ fam \in Fams
        /\ data = <<>> /\ start = st /\ saved = None /\ extra = 0
Encode(x) == /\ Len(data) < Depth /\ Len(st.t) >= 6
             /\ st' = Enc(st, x).m /\ data' = <<x>> \o data
             /\ extra' = IF data = <<>> THEN Words(st) - Enc(st, x).low ELSE extra
             /\ UNCHANGED <<fam, start, saved>>
Decode == /\ data # <<>> /\ st' = Dec(st).m /\ data' = Tail(data) /\ UNCHANGED <<fam, start, saved, extra>>
Save == /\ saved = None /\ Len(data) = SaveAt /\ saved' = [m |-> st, d |-> data, e |-> extra] /\ UNCHANGED <<st, fam, data, start, extra>>
Load == /\ saved # None /\ st # saved.m /\ st' = saved.m /\ data' = saved.d /\ extra' = saved.e /\ UNCHANGED <<fam, start, saved>>
Next == Decode \/ Save \/ Load \/ \E x \in 1..3 : Encode(x)
RECURSIVE Unwind(_, _)
Unwind(m, k) == IF k > Len(data) THEN m ELSE LET r == Dec(m) IN IF r.x # data[k] THEN [h |-> <<>>, t |-> <<>>] ELSE Unwind(r.m, k + 1)
LastInFirstOut == Unwind(st, 1) = start
ExtraIsWhatWasTaken == extra >= 0 /\ extra <= 6
=============================================================================
