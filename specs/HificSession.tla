---------------------------- MODULE HificSession ----------------------------
(* The learned image codec as a protocol.  Several model instances hold the
   same weights.  A sender compresses an image into a self-contained payload;
   payloads may be stored, reordered and decoded any number of times, by any
   instance, after any other calls.  An image is abstracted by the pair of
   its latent and hyper-latent values; quantisation and transport are modelled
   exactly on a small value range, so the protocol's guarantee (the receiver
   reconstructs exactly the sender's quantised latent) is checked for every
   value, every predicted mean and every interleaving.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Images, Instances, MaxLat
VARIABLES latent,   \* image -> value (in quarters), fixed
          store,    \* image -> payload or Null
          decoded,  \* image -> reconstruction or Null
          who,      \* active instance
          mode, dev, last
vars == <<latent, store, decoded, who, mode, dev, last>>
Null == [none |-> TRUE]
(* round-half-to-even of a value given in quarters, as the tensor library does *)
Round4(q) == LET f == q \div 4  r == q % 4 IN
             IF r < 2 THEN f ELSE IF r > 2 THEN f + 1
             ELSE IF f % 2 = 0 THEN f ELSE f + 1
Hyper(v) == v \div 3                       \* hyper analysis (any function)
HyperQ(v) == Round4(Hyper(v))              \* what travels in the hyper string
Mean(hq) == 2 * hq + 1                     \* hyper synthesis (any function), quarters
Sym(v) == Round4(v - Mean(HyperQ(v)))      \* what travels in the latent string
Payload(v) == [hyper |-> HyperQ(v), sym |-> Sym(v)]
Rebuild(p) == 4 * p.sym + Mean(p.hyper)    \* receiver: from the payload only

Init == /\ latent \in [Images -> (-MaxLat)..MaxLat]
        /\ store = [i \in Images |-> Null] /\ decoded = [i \in Images |-> Null]
        /\ who \in {CHOOSE w \in Instances : \A v \in Instances : w <= v}
        /\ mode = "eval" /\ dev = "compress" /\ last = [name |-> "init"]
Compress(i) == /\ store' = [store EXCEPT ![i] = Payload(latent[i])]
               /\ last' = [name |-> "compress", img |-> i] /\ UNCHANGED <<latent, decoded, who, mode, dev>>
Decompress(i) == /\ store[i] # Null
                 /\ decoded' = [decoded EXCEPT ![i] = [none |-> FALSE, v |-> Rebuild(store[i])]]
                 /\ last' = [name |-> "decompress", img |-> i] /\ UNCHANGED <<latent, store, who, mode, dev>>
Forward(i) == /\ dev = "forward" /\ last' = [name |-> "forward", img |-> i]
              /\ UNCHANGED <<latent, store, decoded, who, mode, dev>>
Switch(w) == /\ w # who /\ who' = w /\ last' = [name |-> "switch", to |-> w]
             /\ UNCHANGED <<latent, store, decoded, mode, dev>>
SetMode(m) == /\ m # mode /\ mode' = m /\ last' = [name |-> m]
              /\ UNCHANGED <<latent, store, decoded, who, dev>>
SetDev(d) == /\ dev' = d /\ last' = [name |-> "devices", to |-> d]
             /\ UNCHANGED <<latent, store, decoded, who, mode>>
Next == \/ \E i \in Images : Compress(i) \/ Decompress(i) \/ Forward(i)
        \/ \E w \in Instances : Switch(w)
        \/ \E m \in {"train", "eval"} : SetMode(m)
        \/ \E d \in {"forward", "compress"} : SetDev(d)
View == <<latent, store, decoded, who, mode, dev>>
SpecView == [store |-> [i \in Images |-> store[i] # Null], who |-> who, mode |-> mode, dev |-> dev]
(* lossless transport and nearest-integer quantisation, for every value *)
Lossless == \A i \in Images : ~decoded[i].none =>
              /\ decoded[i].v = Rebuild(Payload(latent[i]))
              /\ LET d == decoded[i].v - latent[i] IN -2 <= d /\ d <= 2
PayloadIsPure == \A i \in Images : store[i] # Null => store[i] = Payload(latent[i])
(* graph emission (cfg HificSession_graph): one fixed latent assignment *)
OneLatent == latent = [i \in Images |-> i]
Proj(st, w, m, d) == [store |-> [i \in Images |-> st[i] # Null], who |-> w, mode |-> m, dev |-> d]
Emit == PrintT("@@EDGE@@" \o ToJson([src |-> Proj(store, who, mode, dev), act |-> last',
                                     dst |-> Proj(store', who', mode', dev')]))
GraphView == Proj(store, who, mode, dev)
=============================================================================
