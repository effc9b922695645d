----------------------------- MODULE RansStack -----------------------------
(* Interleaved rANS stack: one head per lane, one common tail (top first).
   A push makes room in up to three steps, in each of which the lanes that are
   still too full hand one digit to the tail, in lane order; a pop takes the
   digits back in the opposite order.  Popping from a used-up tail may be
   allowed: the digits that are there come first, then arbitrary ones.
   Heads have four digits of base B.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS B,            \* size of a tail digit
          P,            \* symbols are coded with frequencies out of 2^P
          L,            \* lanes
          MaxTail, Depth,
          AnyStart      \* from every stack, or from the empty message only
VARIABLES st,           \* [h |-> heads, t |-> tail]
          hist,         \* what was pushed, newest first
          start,        \* the stack before the first push
          on            \* begun
vars == <<st, hist, start, on>>
Tot == 2^P
HMin == B * B * B
HMax == B * HMin
Lanes == 1..L
(* cumulative tables over three symbols, one of which may be impossible *)
Tables == {x \in {<<0, a, b, Tot>> : a \in {1, Tot \div 2, Tot - 1}, b \in 1..(Tot - 1)} : x[2] <= x[3]}
Freq(c, s) == c[s + 1] - c[s]
Live(c) == {s \in 1..3 : Freq(c, s) > 0}
Find(c, v) == CHOOSE s \in 1..3 : c[s] <= v /\ v < c[s + 1]
SeqOf(S) == SelectSeq([i \in 1..L |-> i], LAMBDA i : i \in S)

(* ---- pushing ---- *)
Pow(b, k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN b ELSE b * b
(* a lane gives a digit in step k (of three, numbered 2, 1, 0) when k more will have to follow *)
PushStep(x, c, ss, k) ==
    LET gives == {i \in Lanes : x.h[i] \div Pow(B, k) >= Freq(c, ss[i]) * (HMax \div Tot)}
        order == SeqOf(gives)
    IN TLCEval([h |-> [i \in Lanes |-> IF i \in gives THEN x.h[i] \div B ELSE x.h[i]],
        t |-> [j \in 1..Len(order) |-> x.h[order[j]] % B] \o x.t])
Push(x, c, ss) ==
    LET y == PushStep(PushStep(PushStep(x, c, ss, 2), c, ss, 1), c, ss, 0)
    IN TLCEval([h |-> [i \in Lanes |-> (y.h[i] \div Freq(c, ss[i])) * Tot + (y.h[i] % Freq(c, ss[i])) + c[ss[i]]], t |-> y.t])

(* ---- popping ---- *)
Symbols(x, c) == TLCEval([i \in Lanes |-> Find(c, x.h[i] % Tot)])
PopStep(x) ==
    LET takes == {i \in Lanes : x.h[i] < HMin}
        order == SeqOf(takes)
        n == Len(order)
        digit(j) == IF j <= Len(x.t) THEN x.t[j] ELSE (j * 5 + x.h[1]) % B      \* beyond the end: anything
        place(i) == CHOOSE j \in 1..n : order[j] = i
    IN TLCEval([h |-> [i \in Lanes |-> IF i \in takes THEN x.h[i] * B + digit(place(i)) ELSE x.h[i]],
        t |-> SubSeq(x.t, n + 1, Len(x.t))])
Pop(x, c) ==
    LET ss == Symbols(x, c)
    IN PopStep(PopStep(PopStep(TLCEval([h |-> [i \in Lanes |-> Freq(c, ss[i]) * (x.h[i] \div Tot) + (x.h[i] % Tot) - c[ss[i]]], t |-> x.t]))))
Valid(x) == \A i \in Lanes : HMin <= x.h[i] /\ x.h[i] < HMax
IsTop(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s

(* ---- bits back: a latent is taken off with q, symbol and latent are put on with p ---- *)
Vecs(c) == [Lanes -> Live(c)]
BBPush(x, q, p, ss) == LET z == Symbols(x, q) IN Push(Push(Pop(x, q), p, ss), q, z)     \* prior as wide as q
BBPop(x, q, p) == LET z == Symbols(x, q)
                      y == Pop(x, q)
                  IN [s |-> Symbols(y, p), x |-> Push(Pop(y, p), q, z)]

Tails == UNION {[1..n -> 0..(B - 1)] : n \in 0..1}
Init == /\ st \in IF AnyStart THEN [h : [Lanes -> HMin..(HMax - 1)], t : Tails] ELSE {[h |-> [i \in Lanes |-> HMin], t |-> <<>>]}
        /\ hist = <<>> /\ start = st /\ on = FALSE
Begin == ~on /\ on' = TRUE /\ UNCHANGED <<st, hist, start>>
DoPush(c, ss) == /\ on /\ Len(hist) < Depth /\ st' = Push(st, c, ss) /\ hist' = <<[c |-> c, s |-> ss]>> \o hist /\ UNCHANGED <<start, on>>
DoPop == /\ hist # <<>> /\ st' = Pop(st, hist[1].c) /\ hist' = Tail(hist) /\ UNCHANGED <<start, on>>
Next == Begin \/ DoPop \/ \E c \in Tables : \E ss \in Vecs(c) : DoPush(c, ss)
Room == Len(st.t) <= MaxTail

HeadsStayNormal == Valid(st)
PopUndoesPush == (on /\ Len(hist) < Depth) => \A c \in Tables : \A ss \in Vecs(c) :
    LET y == Push(st, c, ss) IN Valid(y) /\ Symbols(y, c) = ss /\ Pop(y, c) = st
(* taking off and putting back leaves what was there on top, whatever was made up beneath *)
PushUndoesPop == on => \A c \in Tables :
    LET z == Symbols(st, c)
        y == Push(Pop(st, c), c, z)
    IN Valid(Pop(st, c)) /\ y.h = st.h /\ IsTop(st.t, y.t)
BitsBackLossless == (on /\ hist = <<>>) => \A q \in Tables, p \in {<<0, 1, 1, Tot>>, <<0, Tot \div 2, Tot - 1, Tot>>} : \A ss \in Vecs(p) :
    LET r == BBPop(BBPush(st, q, p, ss), q, p) IN r.s = ss /\ r.x.h = st.h /\ IsTop(st.t, r.x.t)
RECURSIVE Unwind(_, _)
Unwind(x, k) == IF k > Len(hist) THEN x ELSE IF Symbols(x, hist[k].c) # hist[k].s THEN [h |-> <<>>, t |-> <<>>] ELSE Unwind(Pop(x, hist[k].c), k + 1)
LastInFirstOut == Unwind(st, 1) = start
=============================================================================
