---------------------------- MODULE AdvLossTrace ----------------------------
EXTENDS TraceKit
VARIABLES l, bad
D == INSTANCE DistTrace WITH l <- l, bad <- bad
A == INSTANCE AdvLoss WITH MaxN <- 1, K <- 2, MaxCost <- 1, real <- <<>>, fake <- <<>>, lab <- <<>>
LossFails(e) == IF e.err # "" THEN {"raised-" \o e.fn} ELSE Failing({
    <<"loss-" \o e.fn, Near(e.got, CASE e.fn = "oasis-discriminator" -> A!Disc(e.real, e.fake, e.lab)
                                     [] e.fn = "oasis-generator" -> A!Gen(e.fake, e.lab)
                                     [] e.fn = "bce-discriminator" -> A!BinDisc(e.real, e.fake, e.lab) \div 100
                                     [] e.fn = "bce-generator" -> A!Mix(e.fake, e.lab) \div 100, e.tol)>>,
    <<"scalar-" \o e.fn, e.scalar>>,
    <<"inputs-kept-" \o e.fn, e.kept>> })
Fails(e) == CASE e.op = "loss" -> LossFails(e) [] OTHER -> D!Fails(e)
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET f == Fails(Trace[l]) IN Report(l, Trace[l], f) /\ bad' = bad \cup f
Conforms == l > Len(Trace) => bad = {}
=============================================================================
