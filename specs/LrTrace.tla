------------------------------ MODULE LrTrace ------------------------------
EXTENDS TraceKit
VARIABLES l, bad
D == INSTANCE DistTrace WITH l <- l, bad <- bad
S == INSTANCE LrSchedule WITH MaxT <- 1, kind <- "", ramp <- 1, cosn <- 0, total <- 1, step <- 0, saved <- 0
(* f = observed factor * 10^6 after `step` scheduler steps; cos = the recorder's
   table of the decay profile at fraction i/n (10^6), n = e.grid               *)
Want(e) ==
  LET p == S!Phase(e.kind, e.ramp, e.cosn, e.total, e.step) IN
  CASE p = "const" -> 1000000
    [] p = "ramp" -> (1000000 \div e.ramp) * e.step
    [] p = "ramp1" -> (1000000 \div e.ramp) * (e.step + 1)
    [] OTHER -> e.decay
LrFails(e) == IF e.err # "" THEN {"schedule-raised-" \o e.kind} ELSE
  LET p == S!Phase(e.kind, e.ramp, e.cosn, e.total, e.step)
      fr == IF p = "decay" THEN S!Frac(e.kind, e.ramp, e.cosn, e.total, e.step) ELSE <<0, 1>>
      tol == IF p \in {"ramp", "ramp1"} THEN e.step + 3 ELSE 2
      floor == e.floor IN Failing({
    <<"decay-position-" \o e.kind, p = "decay" => e.num * fr[2] = fr[1] * e.den>>,
    <<"factor-" \o e.kind, \A i \in DOMAIN e.f : Near(e.f[i], Max2(Want(e), floor), tol)>>,
    <<"resume-" \o e.kind, e.same>> })
Fails(e) == CASE e.op = "lr" -> LrFails(e) [] OTHER -> D!Fails(e)
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET f == Fails(Trace[l]) IN Report(l, Trace[l], f) /\ bad' = bad \cup f
Conforms == l > Len(Trace) => bad = {}
=============================================================================
