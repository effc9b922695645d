----------------------------- MODULE DataTrace -----------------------------
EXTENDS TraceKit
VARIABLES l, bad, kroot, kg, zip, tree
D == INSTANCE DistTrace WITH l <- l, bad <- bad
K == INSTANCE KodakStore WITH Disk <- TRUE, root <- FALSE, g <- <<>>, last <- ""
C == INSTANCE ClicStore WITH Splits <- {"train", "val", "test"}, zip <- <<>>, tree <- <<>>, last <- ""
L == INSTANCE Listing WITH MaxFolders <- 0, MaxFrames <- 0, n <- 0, f <- 0, video <- FALSE
None == [k \in K!Parts |-> "absent"]
NoSplit == [s \in {"train", "val", "test"} |-> "none"]
(* ---- the image directory.  Where a download breaks off, the file it was at
   may be left in any state; everything else is determined.                    *)
Kept(e) == LET a == K!After(kroot, kg, e.dl, e.force, e.f) IN
  \A k \in K!Parts : e.disk[k] = a[k] \/ (K!Starts(kroot, e.dl, e.force) /\ e.f # 0 /\ k = K!Part(e.f) /\ K!Kind(e.f) # "short")
KOut(e) == LET w == K!Outcome(kroot, kg, e.dl, e.force, e.chk, e.f) IN
  CASE w = "exists" -> e.err = "RuntimeError" [] w = "missing" -> e.err = "FileNotFoundError"
    [] w = "network" -> e.err = e.neterr [] w = "corrupt" -> e.err \in {"RuntimeError", "FileNotFoundError"} [] OTHER -> e.err = ""
KFails(e) == Failing({
  <<"outcome-" \o K!Outcome(kroot, kg, e.dl, e.force, e.chk, e.f), KOut(e)>>,
  <<"requests", e.asked = [i \in 1..K!Asked(kroot, e.dl, e.force, e.f) |-> i]>>,
  <<"request-address", e.base>>,
  <<"directory-contents", Kept(e)>>,
  <<"directory-exists", e.root = (kroot \/ K!Starts(kroot, e.dl, e.force))>>,
  <<"no-other-files", e.extra = 0>>,
  <<"length-24", e.err = "" => e.len = 24>>,
  <<"checked-is-genuine", e.err = "" /\ e.chk => e.genuine>>,
  <<"serves-what-is-stored", e.err = "" => e.serves>> })
(* ---- archives                                                               *)
CFails(e) == LET z == zip[e.s]  t == tree[e.s] IN Failing({
  <<"split-outcome", IF C!Fails(e.s, z, t, e.dl, e.f) THEN e.err # "" ELSE e.err = "">>,
  <<"fetched-only-when-needed", e.bodies = (IF C!Fetch(e.s, z, t, e.dl) /\ e.f # "connect" THEN e.tries ELSE 0)>>,
  <<"fetched-from-official-address", e.address>>,
  <<"archive-kept", e.zip = C!ZipAfter(e.s, z, t, e.dl, e.f) \/ (e.f = "cut" /\ e.zip = "none")>>,
  <<"split-complete", e.err = "" /\ e.dl => e.all /\ e.clean>>,
  <<"lists-what-is-there", e.err = "" => e.listed>>,
  <<"other-splits-untouched", e.others>>,
  <<"nothing-lost", t = "full" => e.intact>> })
(* ---- listings                                                               *)
VFails(e) == LET len == L!Length(e.n, e.ff, e.video) IN
  IF e.what = "len" THEN Failing({<<"number-of-items", e.got = len>>})
  ELSE IF e.i >= len \/ e.i < -len THEN Failing({<<"index-past-end", e.err = "IndexError">>})
  ELSE Failing({<<"item-raised", e.err = "">>,
    <<"item-is-its-frames", e.err = "" => e.got = L!Item(L!Norm(e.i, len), e.n, e.ff, e.video)>>,
    <<"item-form", e.err = "" => e.form>>})
LFails(e) == IF e.err # "" THEN {"listing-raised"} ELSE
  Failing({<<"sorted-listing", e.got = L!Sorted(L!Without(e.names, SeqSet(e.drop)))>>, <<"item-form", e.form>>})
Fails(e) == CASE e.op = "kodak" -> KFails(e) [] e.op = "clic" -> CFails(e) [] e.op = "vimeo" -> VFails(e) [] e.op = "list" -> LFails(e)
   [] e.op \in {"reset", "disk"} -> {} [] OTHER -> D!Fails(e)
NextKRoot(e) == CASE e.op = "reset" -> FALSE [] e.op = "kodak" -> e.root [] OTHER -> kroot
NextKG(e) == CASE e.op = "reset" -> None [] e.op \in {"kodak", "disk"} -> e.disk [] OTHER -> kg
NextZip(e) == CASE e.op = "reset" -> NoSplit [] e.op = "clic" -> [zip EXCEPT ![e.s] = e.zip] [] OTHER -> zip
NextTree(e) == CASE e.op = "reset" -> NoSplit [] e.op = "clic" -> [tree EXCEPT ![e.s] = C!TreeAfter(e.s, zip[e.s], @, e.dl, e.f)] [] OTHER -> tree
Init == l = 1 /\ bad = {} /\ kroot = FALSE /\ kg = None /\ zip = NoSplit /\ tree = NoSplit
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ kroot' = NextKRoot(Trace[l]) /\ kg' = NextKG(Trace[l]) /\ zip' = NextZip(Trace[l]) /\ tree' = NextTree(Trace[l])
        /\ LET f == Fails(Trace[l]) IN Report(l, Trace[l], f) /\ bad' = bad \cup f
Conforms == l > Len(Trace) => bad = {}
=============================================================================
