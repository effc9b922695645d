---------------------------- MODULE EntropyLayer ----------------------------
(* Life of a continuous entropy layer: which construction options are legal,
   what may be read in which state, and where its coding tables come from.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
VARIABLES st, last
vars == <<st, last>>
Opt == [prior : BOOLEAN, shape : BOOLEAN, dtype : BOOLEAN, cdfs : BOOLEAN, sizes : BOOLEAN, offsets : BOOLEAN,
        max : BOOLEAN, compressible : BOOLEAN, stateless : BOOLEAN]
N(b) == IF b THEN 1 ELSE 0
Legal(o) ==
  /\ o.prior \/ (o.shape /\ o.dtype)
  /\ IF o.compressible
     THEN /\ o.cdfs = o.sizes /\ o.sizes = o.offsets
          /\ N(o.prior) + N(o.cdfs) + N(o.max) = 1           \* one source of tables
          /\ ~(o.max /\ o.stateless)
     ELSE ~(o.cdfs \/ o.sizes \/ o.offsets \/ o.max)
Source(o) == IF ~o.compressible THEN "none" ELSE IF o.prior THEN "prior" ELSE IF o.cdfs THEN "given" ELSE "reserved"
New == [phase |-> "new", src |-> "none", prior |-> FALSE]
Init == st = New /\ last = [name |-> "init"]
Construct(o) ==
  /\ st.phase = "new"
  /\ st' = IF Legal(o) THEN [phase |-> "ok", src |-> Source(o), prior |-> o.prior] ELSE [New EXCEPT !.phase = "refused"]
  /\ last' = [name |-> "construct", o |-> o, res |-> IF Legal(o) THEN "" ELSE "ValueError"]
ReadTables == st.phase = "ok" /\ UNCHANGED st
  /\ last' = [name |-> "tables", res |-> IF st.src = "none" THEN "RuntimeError" ELSE ""]
ReadPrior == st.phase = "ok" /\ UNCHANGED st /\ last' = [name |-> "prior", res |-> IF st.prior THEN "" ELSE "RuntimeError"]
DropPrior == st.phase = "ok" /\ st' = [st EXCEPT !.prior = FALSE] /\ last' = [name |-> "drop", res |-> ""]
Code == st.phase = "ok" /\ UNCHANGED st /\ last' = [name |-> "code", res |-> "NotImplementedError"]
Next == (\E o \in Opt : Construct(o)) \/ ReadTables \/ ReadPrior \/ DropPrior \/ Code
View == st
TablesHaveSource == st.phase = "ok" => st.src \in {"none", "prior", "given", "reserved"}
NothingAfterRefusal == [][st.phase = "refused" => UNCHANGED st]_vars
(* dropping the prior never loses the tables                                  *)
TablesOutlivePrior == [][last'.name = "drop" => st'.src = st.src]_vars
Emit == PrintT("@@EDGE@@" \o ToJson([src |-> st, act |-> last', dst |-> st']))
=============================================================================
