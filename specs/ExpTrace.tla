------------------------------ MODULE ExpTrace ------------------------------
EXTENDS TraceKit
VARIABLES l, bad, dir, prog
D == INSTANCE DistTrace WITH l <- l, bad <- bad
X == INSTANCE ExpRun WITH MaxProg <- 9, BothGiven <- TRUE, dir <- "absent", prog <- 0, last <- ""
StartFails(e) == IF X!Refused(dir, e.ov, e.re)
  THEN Failing({<<"refused-over-checkpoints", e.err = "RuntimeError" /\ ~e.ran>>, <<"refusal-touches-nothing", e.kept>>})
  ELSE Failing({<<"run-starts", e.ran /\ e.err = (IF e.end = "saved" THEN "" ELSE "KeyboardInterrupt")>>,
                <<"continues-from-last", e.ran => e.base = X!From(dir, prog, e.ov, e.re)>>,
                <<"saves-where-it-looks", e.dir = X!DirAfter(dir, e.end) /\ (e.end = "saved" => e.prog = X!From(dir, prog, e.ov, e.re) + 1)>>,
                <<"monitor-and-settings", e.ran => e.settings>>})
(* stages of one experiment run one after the other, each on the model the one
   before handed on                                                            *)
StageFails(e) == Failing({<<"stage-order", e.order = e.want>>, <<"stage-model", e.chain>>, <<"stage-directory", e.dirs>>, <<"stage-settings", e.merged>>})
Fails(e) == CASE e.op = "start" -> StartFails(e) [] e.op = "stages" -> StageFails(e) [] e.op = "reset" -> {} [] OTHER -> D!Fails(e)
NextDir(e) == CASE e.op = "reset" -> e.dir [] e.op = "start" -> e.dir [] OTHER -> dir
NextProg(e) == CASE e.op = "reset" -> e.prog [] e.op = "start" -> e.prog [] OTHER -> prog
Init == l = 1 /\ bad = {} /\ dir = "absent" /\ prog = 0
Next == /\ l <= Len(Trace) /\ l' = l + 1 /\ dir' = NextDir(Trace[l]) /\ prog' = NextProg(Trace[l])
        /\ LET f == Fails(Trace[l]) IN Report(l, Trace[l], f) /\ bad' = bad \cup f
Conforms == l > Len(Trace) => bad = {}
=============================================================================
