--------------------------- MODULE GeometryTrace ---------------------------
(* Recorded calls of the padding helper and of the window cutter, judged
   against Geometry.  Pixel provenance: source pixel (b, ch, y, x) of a
   B x C x h x w batch carries the number ((b*C + ch)*h + y)*w + x + 1, so 0
   can only be a constant-padded pixel.                                      *)
EXTENDS TraceKit
VARIABLES l, bad
G == INSTANCE Geometry WITH MaxH <- 1, MaxW <- 1, MaxF <- 1, phase <- "", h <- 1, w <- 1,
                            f <- 1, img <- <<>>, H2 <- 1, W2 <- 1, wins <- <<>>
Num(e, b, ch, s) == IF s < 0 THEN 0 ELSE (b * e.C + ch) * e.h * e.w + s + 1

PadFails(e) ==
    LET H2 == G!PadTo(e.h, e.factor)  W2 == G!PadTo(e.w, e.factor) IN
    IF ~e.ok THEN {"pad-raised"} ELSE
    Failing({
      <<"pad-reports-original-size", e.size = <<e.h, e.w>>>>,
      <<"pad-shape", e.shape = <<e.B, e.C, H2, W2>>>>,
      <<"pad-content",
        /\ Len(e.px) = e.B * e.C * H2 * W2
        /\ \A k \in 1..Len(e.px) :
             LET x == (k - 1) % W2  y == ((k - 1) \div W2) % H2
                 p == (k - 1) \div (W2 * H2)
             IN e.px[k] = Num(e, p \div e.C, p % e.C, G!Src(e.mode, y, x, e.h, e.w))>> })

(* cutting: B*nh*nw windows in raster order, each win*win pixels in raster
   order, channels last                                                      *)
CutFails(e) ==
    LET nh == G!PadTo(e.h, e.stride) \div e.stride
        nw == G!PadTo(e.w, e.stride) \div e.stride
        q  == e.win * e.win
    IN IF ~e.ok THEN {"cut-raised"} ELSE
    Failing({
      <<"cut-count", e.n = <<nh, nw>>>>,
      <<"cut-shape", e.shape = <<e.B * nh * nw, q, e.C>>>>,
      <<"cut-exact", e.dev = 0>>,
      <<"cut-content",
        /\ Len(e.px) = e.B * nh * nw * q * e.C
        /\ \A k \in 1..Len(e.px) :
             LET ch == (k - 1) % e.C
                 t  == ((k - 1) \div e.C) % q
                 bw == (k - 1) \div (e.C * q)
                 b  == bw \div (nh * nw)
                 r  == (bw % (nh * nw)) \div nw
                 c  == bw % nw
                 y  == G!WinCoord(r, t \div e.win, e.stride, e.win)
                 x  == G!WinCoord(c, t % e.win, e.stride, e.win)
             IN e.px[k] = Num(e, b, ch, G!Src("reflect", y, x, e.h, e.w))>> })

JoinFails(e) ==
    IF ~e.ok THEN {"join-raised"} ELSE
    Failing({
      <<"join-shape", e.shape = <<e.B, e.C, e.ch, e.cw>>>>,
      <<"join-inverts-cut",
        /\ Len(e.px) = e.B * e.C * e.ch * e.cw
        /\ \A k \in 1..Len(e.px) :
             LET x == (k - 1) % e.cw  y == ((k - 1) \div e.cw) % e.ch
                 p == (k - 1) \div (e.cw * e.ch)
             IN e.px[k] = Num(e, p \div e.C, p % e.C, G!Src("reflect", y, x, e.h, e.w))>> })

RejectFails(e) == Failing({<<"bad-window-rejected", ~e.ok /\ e.err = "ValueError">>})

Fails(e) == CASE e.op = "pad" -> PadFails(e)
              [] e.op = "cut" -> CutFails(e)
              [] e.op = "join" -> JoinFails(e)
              [] e.op = "reject" -> RejectFails(e)
              [] OTHER -> {"unknown-op"}
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET f == Fails(Trace[l]) IN Report(l, Trace[l], f) /\ bad' = bad \cup f
Conforms == l > Len(Trace) => bad = {}
=============================================================================
