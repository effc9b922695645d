---------------------------- MODULE AccountTrace ----------------------------
EXTENDS TraceKit
VARIABLES l, bad
D == INSTANCE DistTrace WITH l <- l, bad <- bad
A == INSTANCE Account WITH Ops <- {}, MaxLen <- 0, MaxN <- 0, MaxCalls <- 0, prog <- <<>>, est <- FALSE, over <- {}, calls <- 0, last <- 0
Ov(e) == {<<p[1], p[2]>> : p \in SeqSet(e.over)}
ByName(s, nm) == SumSeq([j \in DOMAIN s |-> IF s[j][1] = nm THEN s[j][2] ELSE 0])
FlopFails(e) == IF e.err # "" THEN {"flops-raised"} ELSE
  LET names == {e.prog[j].name : j \in DOMAIN e.prog} \cup {p[1] : p \in SeqSet(e.by)} \cup {p[1] : p \in SeqSet(e.unsup)} IN Failing({
    <<"flops-total", e.total = A!Total(e.prog, e.est, Ov(e))>>,
    <<"flops-by-operator", \A nm \in names : ByName(e.by, nm) = A!OfName(e.prog, nm, e.est, Ov(e))>>,
    <<"flops-unsupported", \A nm \in names : ByName(e.unsup, nm) = A!Missed(e.prog, nm, e.est, Ov(e))>>,
    <<"flops-module-kept", e.kept>> })
(* probabilities are 2^-k; lg = log2 of the base; results times lg * 1000       *)
InfoFails(e) == IF e.err # "" THEN {"information-raised"} ELSE Failing({
    <<"information-shape", e.shape = e.want>>,
    <<"information-value", CASE e.red = "sum" -> Near(e.got[1], 1000 * SumSeq([j \in DOMAIN e.k |-> SumSeq(e.k[j])]), e.tol)
        [] e.red = "batch_el" -> \A j \in DOMAIN e.k : Near(e.got[j], 1000 * SumSeq(e.k[j]), e.tol)
        [] e.red = "none" -> \A j \in DOMAIN e.k : \A q \in DOMAIN e.k[j] : Near(e.got[((j - 1) * Len(e.k[1])) + q], 1000 * e.k[j][q], e.tol)>> })
(* images are integer lists; implied = data_range^2 * 10^(-psnr / 10) * pixels *)
Sq(x) == x * x
PsnrFails(e) == IF e.err # "" THEN {"psnr-raised"} ELSE Failing({
    <<"psnr-value", LET sse == SumSeq([j \in DOMAIN e.a |-> Sq(e.a[j] - e.b[j])]) IN
        IF sse = 0 THEN e.inf ELSE ~e.inf /\ Near(e.implied, sse, 1 + (sse \div 10000))>>,
    <<"psnr-inputs-kept", e.kept>> })
Fails(e) == CASE e.op = "flops" -> FlopFails(e) [] e.op = "info" -> InfoFails(e) [] e.op = "psnr" -> PsnrFails(e) [] OTHER -> D!Fails(e)
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET f == Fails(Trace[l]) IN Report(l, Trace[l], f) /\ bad' = bad \cup f
Conforms == l > Len(Trace) => bad = {}
=============================================================================
