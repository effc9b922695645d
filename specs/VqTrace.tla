------------------------------ MODULE VqTrace ------------------------------
EXTENDS TraceKit
VARIABLES l, bad
D == INSTANCE DistTrace WITH l <- l, bad <- bad
N == INSTANCE VqNearest WITH K <- 1, R <- 1, cb <- <<>>, v <- <<>>
(* exact integers: vectors e.v in batch-row-column order, codebook e.book,
   chosen words e.idx (1-based), reconstruction e.out                          *)
ExactFails(e) == IF ~e.ok THEN {"quantize-raised"} ELSE Failing({
    <<"one-index-per-vector", Len(e.idx) = Len(e.v)>>,
    <<"nearest-codeword", \A i \in DOMAIN e.idx : e.idx[i] \in N!Nearest(e.v[i], e.book)>>,
    <<"reconstruction-is-the-codeword", \A i \in DOMAIN e.idx : e.out[i] = e.book[e.idx[i]]>>,
    <<"distances-are-squared-euclidean", \A i \in DOMAIN e.d : \A k \in DOMAIN e.book : e.d[i][k] = N!Dist(e.v[i], e.book[k])>> })
(* real numbers: distances (fixed point, computed in double precision)         *)
FloatFails(e) == IF ~e.ok THEN {"quantize-raised"} ELSE Failing({
    <<"one-index-per-vector", Len(e.idx) = Len(e.dist)>>,
    <<"nearest-codeword", \A i \in DOMAIN e.idx : \A k \in DOMAIN e.dist[i] : e.dist[i][e.idx[i]] <= e.dist[i][k] + e.tol>>,
    <<"reconstruction-is-the-codeword", \A i \in DOMAIN e.err : e.err[i] <= e.tol>>,
    <<"rate-is-index-cost", e.bytes = e.wantbytes>> })
UsageFails(e) == Failing({
    <<"hits-count-every-vector", e.hits = e.want>>,
    <<"metric-used-fraction", e.used = e.wantused>>,
    <<"metric-most-hits", e.most = e.wantmost>>,
    <<"metric-perplexity", Near(e.perp[1], e.perp[2], 200000)>> })
ModeFails(e) == Failing({
    <<"frozen-encoder-not-training", e.used /\ e.fe => e.enctrain = "none">>,
    <<"frozen-encoder-not-trainable", e.used /\ e.fe => e.encgrad = "none">>,
    <<"frozen-bottleneck-not-training", e.used /\ e.fb => e.bottrain = "none">>,
    <<"frozen-bottleneck-not-trainable", e.used /\ e.fb => e.botgrad = "none">>,
    <<"frozen-encoder-never-moves", e.fe => ~e.encmoved>>,
    <<"frozen-bottleneck-never-moves", e.fb => ~e.botmoved>>,
    <<"unfrozen-part-follows-mode", (~e.fe => e.enctrain = (IF e.training THEN "all" ELSE "none"))
                                 /\ e.dectrain = (IF e.training THEN "all" ELSE "none")>>,
    <<"unfrozen-part-learns", e.name = "learn" => (~e.fe => e.encmoved) /\ (~e.fb => e.botmoved) /\ e.decmoved>> })
Fails(e) == CASE e.op = "exact" -> ExactFails(e) [] e.op = "float" -> FloatFails(e) [] e.op = "usage" -> UsageFails(e)
              [] e.op = "mode" -> ModeFails(e) [] OTHER -> D!Fails(e)
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET f == Fails(Trace[l]) IN Report(l, Trace[l], f) /\ bad' = bad \cup f
Conforms == l > Len(Trace) => bad = {}
=============================================================================
