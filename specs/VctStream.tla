----------------------------- MODULE VctStream -----------------------------
(* Streaming a video: every frame's latent is coded given the last N coded
   latents; the encoder mirrors the decoder's state.  The first frame is coded
   given a learned pad token.  A frame's coded value depends on the frame
   only; its prediction features depend on its context.  Encoder and decoder
   are separate processes connected by a queue and may run at different
   speeds (the generators of the implementation are lazily interleaved).     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS T, N, Vals
VARIABLES frames, est, eidx, queue, dst, didx, out, ectx, dctx
vars == <<frames, est, eidx, queue, dst, didx, out, ectx, dctx>>
Pad == -1
Push(s, v) == LET t == Append(s, v) IN IF Len(t) > N THEN SubSeq(t, Len(t) - N + 1, Len(t)) ELSE t
ContextN(i, f, n) == IF i = 1 THEN <<Pad>> ELSE SubSeq(f, IF i - n < 1 THEN 1 ELSE i - n, i - 1)
ContextOf(i, f) == ContextN(i, f, N)
Init == /\ frames \in [1..T -> Vals] /\ est = <<>> /\ eidx = 1 /\ queue = <<>> /\ dst = <<>>
        /\ didx = 1 /\ out = <<>> /\ ectx = <<>> /\ dctx = <<>>
Encode == /\ eidx <= T
          /\ LET c == IF eidx = 1 THEN <<Pad>> ELSE est IN
               /\ queue' = Append(queue, [v |-> frames[eidx], given |-> c]) /\ ectx' = Append(ectx, c)
          /\ est' = (IF eidx = 1 THEN <<frames[1]>> ELSE Push(est, frames[eidx]))
          /\ eidx' = eidx + 1 /\ UNCHANGED <<frames, dst, didx, out, dctx>>
Decode == /\ queue # <<>>
          /\ LET c == IF didx = 1 THEN <<Pad>> ELSE dst  h == Head(queue) IN
               /\ dctx' = Append(dctx, c)
               /\ out' = Append(out, IF h.given = c THEN h.v ELSE -9)
               /\ dst' = IF didx = 1 THEN <<h.v>> ELSE Push(dst, h.v)
          /\ didx' = didx + 1 /\ queue' = Tail(queue) /\ UNCHANGED <<frames, est, eidx, ectx>>
Next == Encode \/ Decode
Lossless == \A i \in 1..Len(out) : out[i] = frames[i]
WindowBounded == Len(est) <= N /\ Len(dst) <= N
ContextRule == /\ \A i \in 1..Len(ectx) : ectx[i] = ContextOf(i, frames)
               /\ \A i \in 1..Len(dctx) : dctx[i] = ContextOf(i, frames)
=============================================================================
