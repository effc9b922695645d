------------------------------ MODULE Geometry ------------------------------
(* Image geometry of the codecs: padding an image to a multiple of a factor,
   cutting it into (possibly overlapping) windows, putting windows back and
   cropping.  A pixel is represented by its provenance: the index of the
   source pixel it was copied from.                                          *)
EXTENDS Integers, Sequences

(* index, inside a line of length n, that position i of the padded line shows *)
Reflect(i, n) == IF i < 0 THEN -i ELSE IF i >= n THEN 2 * (n - 1) - i ELSE i
Replicate(i, n) == IF i < 0 THEN 0 ELSE IF i >= n THEN n - 1 ELSE i
PadTo(n, f) == ((n + f - 1) \div f) * f
(* reflection needs the padding to be shorter than the line *)
ReflectOK(n, before, after) == before < n /\ after < n

Src(mode, y, x, h, w) ==
    IF mode = "reflect" THEN Reflect(y, h) * w + Reflect(x, w)
    ELSE IF mode = "replicate" THEN Replicate(y, h) * w + Replicate(x, w)
    ELSE IF y < 0 \/ y >= h \/ x < 0 \/ x >= w THEN -1 ELSE y * w + x

(* window (r, c) of an image cut with `stride` into windows of size `win`:
   its pixel (i, j) sits at this coordinate of the unpadded image            *)
WinCoord(r, i, stride, win) == r * stride + i - (win - stride) \div 2

(***************************************************************************)
(* Design model: pad -> cut -> join -> crop on every small image.           *)
(***************************************************************************)
CONSTANTS MaxH, MaxW, MaxF
VARIABLES phase, h, w, f, img, H2, W2, wins
vars == <<phase, h, w, f, img, H2, W2, wins>>

Init == /\ h \in 1..MaxH /\ w \in 1..MaxW /\ f \in 1..MaxF
        /\ ReflectOK(h, 0, PadTo(h, f) - h) /\ ReflectOK(w, 0, PadTo(w, f) - w)
        /\ phase = "raw" /\ H2 = h /\ W2 = w /\ wins = <<>>
        /\ img = [p \in (0..h-1) \X (0..w-1) |-> p[1] * w + p[2]]
Pad == /\ phase = "raw" /\ phase' = "padded"
       /\ H2' = PadTo(h, f) /\ W2' = PadTo(w, f)
       /\ img' = [p \in (0..H2'-1) \X (0..W2'-1) |-> Src("reflect", p[1], p[2], h, w)]
       /\ UNCHANGED <<h, w, f, wins>>
Cut == /\ phase = "padded" /\ phase' = "cut"
       /\ wins' = [k \in 1..((H2 \div f) * (W2 \div f)) |->
                     LET r == (k - 1) \div (W2 \div f)  c == (k - 1) % (W2 \div f)
                     IN [q \in 1..(f * f) |-> img[<<r * f + ((q - 1) \div f), c * f + ((q - 1) % f)>>]]]
       /\ img' = <<>> /\ UNCHANGED <<h, w, f, H2, W2>>
Join == /\ phase = "cut" /\ phase' = "joined"
        /\ img' = [p \in (0..H2-1) \X (0..W2-1) |->
                     wins[(p[1] \div f) * (W2 \div f) + (p[2] \div f) + 1]
                         [(p[1] % f) * f + (p[2] % f) + 1]]
        /\ wins' = <<>> /\ UNCHANGED <<h, w, f, H2, W2>>
Crop == /\ phase \in {"padded", "joined"} /\ phase' = "cropped"
        /\ img' = [p \in (0..h-1) \X (0..w-1) |-> img[p]]
        /\ H2' = h /\ W2' = w /\ UNCHANGED <<h, w, f, wins>>
Next == Pad \/ Cut \/ Join \/ Crop
Spec == Init /\ [][Next]_vars

Divisible == phase \in {"padded", "cut", "joined"} => H2 % f = 0 /\ W2 % f = 0
Minimal == phase = "padded" => H2 - h < f /\ W2 - w < f
RoundTrip == phase = "cropped" => img = [p \in (0..h-1) \X (0..w-1) |-> p[1] * w + p[2]]
PadIsMirror == phase = "padded" =>
    \A p \in DOMAIN img : img[p] \in 0..(h * w - 1)
=============================================================================
