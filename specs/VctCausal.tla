----------------------------- MODULE VctCausal -----------------------------
(* Autoregressive coding of one window of S tokens.  The predictor reads a
   whole buffer of S tokens through a mask, so that the prediction for token k
   may use tokens before k only; the context (previous frames) is shared.  The
   sender's buffer starts with the tokens it has coded so far and junk
   elsewhere, the receiver's with what it decoded and different junk.
   Checked: at every step both sides predict the same distribution, decoding
   follows losslessly, and a one-pass (teacher forced) evaluation over the
   complete token sequence gives the same predictions.                        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS S, Vals, Ctx
VARIABLES phase, k, ctx, tok, sbuf, rbuf, wire, preds, rpreds
vars == <<phase, k, ctx, tok, sbuf, rbuf, wire, preds, rpreds>>
SJunk == 10
RJunk == 99
(* a predictor: any function of the context and the visible prefix *)
Predict(c, buf, i) == <<c, i, SubSeq(buf, 1, i - 1)>>
Init == /\ phase = "send" /\ k = 1 /\ ctx \in Ctx /\ tok \in [1..S -> Vals]
        /\ sbuf = [i \in 1..S |-> SJunk] /\ rbuf = [i \in 1..S |-> RJunk]
        /\ wire = <<>> /\ preds = <<>> /\ rpreds = <<>>
Send == /\ phase = "send" /\ k <= S
        /\ preds' = Append(preds, Predict(ctx, sbuf, k))
        /\ wire' = Append(wire, <<tok[k], Predict(ctx, sbuf, k)>>)
        /\ sbuf' = [sbuf EXCEPT ![k] = tok[k]]
        /\ IF k = S THEN phase' = "recv" /\ k' = 1 ELSE k' = k + 1 /\ UNCHANGED phase
        /\ UNCHANGED <<ctx, tok, rbuf, rpreds>>
(* a symbol decodes correctly iff the receiver uses the sender's distribution *)
Recv == /\ phase = "recv" /\ k <= S
        /\ LET p == Predict(ctx, rbuf, k) IN
             /\ rpreds' = Append(rpreds, p)
             /\ rbuf' = [rbuf EXCEPT ![k] = IF p = wire[k][2] THEN wire[k][1] ELSE -1]
        /\ IF k = S THEN phase' = "done" /\ k' = 1 ELSE k' = k + 1 /\ UNCHANGED phase
        /\ UNCHANGED <<ctx, tok, sbuf, wire, preds>>
Next == Send \/ Recv
InStep == \A i \in 1..Len(rpreds) : rpreds[i] = preds[i]
Lossless == phase = "done" => rbuf = tok
TeacherForced == phase = "done" => \A i \in 1..S : Predict(ctx, tok, i) = preds[i]

Min(a, b) == IF a < b THEN a ELSE b
(* which observations may react to changing token (w, j): 0-based positions *)
MayChangePrediction(w, j, n) == {<<w, p>> : p \in (j + 1)..(n - 1)}
MustChangePrediction(w, j, n) == {<<w, p>> : p \in (j + 1)..Min(j + 1, n - 1)}
(* context handed to the predictor when fewer frames than the window exist *)
Fill(prev, n) == IF Len(prev) >= n THEN prev
                 ELSE [i \in 1..n |-> IF i <= n - Len(prev) THEN prev[1] ELSE prev[i - (n - Len(prev))]]
=============================================================================
