-------------------------------- MODULE Memo --------------------------------
(* Memoisation.  Several functions, several caches (0 = no cache).  A call
   through a cache runs the function only if this cache has not seen this
   function with these arguments; it always returns the function's value.
   Objects die and new objects may get a dead object's identity: an entry must
   never be found through a recycled identity (Recycle).  An argument modified
   in place (Modify) is a new argument: its version is part of the key.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Fs, As, Cs, Cached, MaxVer
VARIABLES mem,      \* set of <<f, a, c, version of a>> remembered
          ver,      \* identity -> how often it was modified in place
          value,    \* identity -> current argument value (what f reads)
          store,    \* key -> value remembered
          runs, last
vars == <<mem, ver, value, store, runs, last>>
Result(f, v) == 10 * f + v
Init == /\ mem = {} /\ value = [a \in As |-> a] /\ store = [k \in {} |-> 0] /\ runs = 0 /\ ver = [a \in As |-> 0]
        /\ last = [name |-> "init"]
Call(f, a, c) ==
  LET k == <<f, a, c, ver[a]>> IN
  IF c # 0 /\ k \in mem
  THEN /\ last' = [name |-> "call", f |-> f, a |-> a, c |-> c, ran |-> FALSE, res |-> store[k]]
       /\ UNCHANGED <<mem, ver, value, store, runs>>
  ELSE /\ last' = [name |-> "call", f |-> f, a |-> a, c |-> c, ran |-> TRUE, res |-> Result(f, value[a])]
       /\ mem' = (IF c = 0 THEN mem ELSE mem \cup {k})
       /\ store' = (IF c = 0 THEN store ELSE [x \in DOMAIN store \cup {k} |-> IF x = k THEN Result(f, value[a]) ELSE store[x]])
       /\ UNCHANGED <<ver, value, runs>>
(* identity a is recycled by a new object with another value: legal only when
   no entry can still be found through it, i.e. entries keep their arguments
   alive                                                                      *)
Recycle(a) == /\ \A k \in mem : k[2] # a
              /\ value' = [value EXCEPT ![a] = 3 - @] /\ last' = [name |-> "recycle", a |-> a]
              /\ UNCHANGED <<mem, ver, store, runs>>
Modify(a) == /\ ver[a] < MaxVer /\ ver' = [ver EXCEPT ![a] = @ + 1]
             /\ value' = [value EXCEPT ![a] = 3 - @] /\ last' = [name |-> "modify", a |-> a]
             /\ UNCHANGED <<mem, store, runs>>
Next == (\E f \in Fs, a \in As, c \in Cs : Call(f, a, c)) \/ (\E a \in As : Recycle(a) \/ Modify(a))
View == <<mem, ver, value, store>>
Correct == last.name = "call" => last.res = Result(last.f, value[last.a])
OncePerCache == \A k \in mem : k[3] # 0
St(m, v) == [mem |-> m, ver |-> v]
Emit == last'.name # "recycle" => PrintT("@@EDGE@@" \o ToJson([src |-> St(mem, ver), act |-> last', dst |-> St(mem', ver')]))
NoRecycle == last.name # "recycle"
=============================================================================
