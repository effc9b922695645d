------------------------------ MODULE DvcTrace ------------------------------
(* Conformance of the DVC P-frame codec.  The recorder gives digests of frames
   (bit-exact) and integer error bounds; references are tracked here by history. *)
EXTENDS TraceKit
VARIABLES l, bad, tables, enc, dec, flight
D == INSTANCE DistTrace WITH l <- l, bad <- bad
G == INSTANCE DvcStream WITH Frames <- {1}, MaxGop <- 1, MaxFlight <- 1, tables <- 0, enc <- <<>>, dec <- <<>>, flight <- <<>>, last <- 0
sv == <<tables, enc, dec, flight>>
(* the session state holds the digests of the frames themselves *)
Step(e) ==
  CASE e.op = "session" -> tables' = 0 /\ enc' = "" /\ dec' = "" /\ flight' = <<>>
    [] e.op = "update" -> tables' = 1 /\ UNCHANGED <<enc, dec, flight>>
    [] e.op = "iframe" -> enc' = e.frame /\ dec' = e.frame /\ flight' = <<>> /\ UNCHANGED tables
    [] e.op = "pframe" -> IF e.err = "" THEN enc' = e.after /\ flight' = Append(flight, e.after) /\ UNCHANGED <<tables, dec>>
                          ELSE UNCHANGED sv
    [] e.op = "deliver" -> /\ dec' = (IF e.err = "" THEN e.after ELSE "?")
                           /\ flight' = (IF flight = <<>> THEN <<>> ELSE Tail(flight)) /\ UNCHANGED <<tables, enc>>
    [] OTHER -> UNCHANGED sv
Fails(e) ==
  CASE e.op \in {"session", "iframe"} -> {}
    [] e.op = "update" -> Failing({<<"update-reports-work", e.built = (e.force \/ tables = 0)>>})
    [] e.op = "pframe" -> IF tables = 0 THEN Failing({<<"coding-needs-tables", e.err = "ValueError">>})
                          ELSE Failing({<<"pframe-codes", e.err = "">>, <<"pframe-coded-against-reference", e.err = "" => e.before = enc>>,
                                        <<"coding-leaves-frames-alone", e.err = "" => e.untouched>>})
    [] e.op = "deliver" -> Failing({<<"pframe-decodes", e.err = "">>,
          <<"receiver-gets-the-senders-frame", e.err = "" /\ flight # <<>> => e.after = Head(flight)>>,
          <<"receiver-decodes-against-its-reference", e.err = "" => e.before = dec>>})
    [] e.op = "coded" -> IF e.err # "" THEN {"codes-every-size"} ELSE Failing({
          <<"level-sizes", \A i \in DOMAIN e.sizes : e.sizes[i] = <<G!Level(e.h, i - 1), G!Level(e.w, i - 1)>>>>,
          <<"level-count", Len(e.sizes) = e.layers>>,
          <<"decoded-shape", e.shape = <<e.b, 3, e.h, e.w>>>>,
          <<"decoded-is-warped-compensated-plus-residual", e.err_ref <= 10>>,
          <<"decoded-is-evaluation-forward", e.err_fwd <= 10>>,
          <<"decoded-in-unit-range", e.lo >= 0 /\ e.hi <= 1000000>>,
          <<"each-image-coded-alone", e.alone>>,
          <<"one-string-per-image", e.strings = <<e.b, e.b>>>> })
    [] e.op = "coder" -> IF e.err # "" THEN {"coder-handles-every-size"} ELSE Failing({
          <<"coder-latent-size", e.latent = <<G!Level(e.h, e.layers), G!Level(e.w, e.layers)>>>>,
          <<"coder-restores-size", e.out = <<e.h, e.w>>>>,
          <<"coder-sizes", \A i \in DOMAIN e.sizes : e.sizes[i] = <<G!Level(e.h, i - 1), G!Level(e.w, i - 1)>>>>,
          <<"coder-size-count", Len(e.sizes) = e.layers>>,
          <<"coder-keeps-the-size-list", e.kept>> })
    [] OTHER -> D!Fails(e)
Init == l = 1 /\ bad = {} /\ tables = 0 /\ enc = "" /\ dec = "" /\ flight = <<>>
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET f == Fails(Trace[l]) IN Report(l, Trace[l], f) /\ bad' = bad \cup f
        /\ Step(Trace[l])
Conforms == l > Len(Trace) => bad = {}
=============================================================================
