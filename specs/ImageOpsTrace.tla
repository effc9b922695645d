--------------------------- MODULE ImageOpsTrace ---------------------------
EXTENDS TraceKit
VARIABLES l, bad
D == INSTANCE DistTrace WITH l <- l, bad <- bad
W == INSTANCE Warp WITH MaxS <- 1, MaxK <- 0, S <- 1, n <- 2, i <- 0, k <- 0, align <- TRUE, pad <- "zeros"
C == INSTANCE Color WITH StepH <- 1, StepP <- 1, h <- 0, s <- 0, v <- 0
RECURSIVE SumSet(_, _, _)
SumSet(ts, f(_, _), other) == IF ts = {} THEN 0 ELSE LET t == CHOOSE x \in ts : TRUE IN f(t, other) + SumSet(ts \ {t}, f, other)
(* value * 256 of one output pixel                                            *)
Value(e, y, x, ky, kx) ==
  LET py == W!Pos(e.h, e.ny, y, ky, e.align, e.pad)
      px == W!Pos(e.w, e.nx, x, kx, e.align, e.pad)
      ty == IF e.mode = "nearest" THEN W!Nearest(py, e.h) ELSE W!Taps(py, e.h)
      tx == IF e.mode = "nearest" THEN W!Nearest(px, e.w) ELSE W!Taps(px, e.w)
      prod(a, b) == a[2] * b[2] * e.img[a[1] + 1][b[1] + 1]
      row(a, b) == LET f(t, o) == prod(o, t) IN SumSet(b, f, a)
  IN LET g(t, o) == row(t, o) IN SumSet(ty, g, tx)
WarpFails(e) == IF e.err # "" THEN {"warp-raised"} ELSE Failing({
    <<"warp-shape", e.shape = e.want>>,
    <<"warped-value", \A j \in DOMAIN e.at : LET a == e.at[j] IN Near(a.got, Value(e, a.y, a.x, a.ky, a.kx), e.tol)>>,
    <<"warp-inputs-kept", e.kept>> })
HsvFails(e) == IF e.err # "" THEN {"hsv-raised"} ELSE Failing({
    <<"hsv-to-rgb", \A j \in DOMAIN e.px : \A c \in 1..3 : Near(e.px[j].rgb[c], C!Rgb(e.px[j].hsv[1], e.px[j].hsv[2], e.px[j].hsv[3])[c], 3)>>,
    <<"hsv-shape", e.shape>>, <<"hsv-input-kept", e.kept>> })
Fails(e) == CASE e.op = "warp" -> WarpFails(e) [] e.op = "hsv" -> HsvFails(e) [] OTHER -> D!Fails(e)
Init == l = 1 /\ bad = {}
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET f == Fails(Trace[l]) IN Report(l, Trace[l], f) /\ bad' = bad \cup f
Conforms == l > Len(Trace) => bad = {}
=============================================================================
