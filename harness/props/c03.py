"""C03 image geometry: pad to factor, window cut, window join, crop."""
from .. import core


# pixels carry their own number; the representations make any change of value, sign, magnitude or precision visible
KINDS = ("plain", "huge", "double", "tiny")


def _img(torch, B, C, h, w, kind="plain"):
    x = (torch.arange(B * C * h * w, dtype=torch.float32) + 1).reshape(B, C, h, w)
    if kind == "huge":
        return x * -(2.0 ** 60)
    if kind == "tiny":
        return x * 2.0 ** -60
    if kind == "double":
        return x.double() * 2.0 ** 600  # does not fit single precision
    return x


def _raw(t, kind):
    if kind == "double":
        return t.double() * 2.0 ** -600
    return t.double() * {"plain": 1.0, "huge": -(2.0 ** -60), "tiny": 2.0 ** 60}[kind]


def _px(t, kind="plain"):
    return [int(round(max(-1e9, min(1e9, float(v))))) if v == v else -1 for v in _raw(t, kind).reshape(-1).tolist()]


def run(ctx):
    import torch
    from neuralcompression.functional import pad_image_to_factor
    from projects.torch_vct.neural.patcher import Patcher

    ctx.design("Geometry")
    rng = ctx.rng
    ev = []
    # ---- padding
    cases = []
    for f in (1, 2, 3, 4, 5, 7, 8, 16):
        for h in {1, 2, f - 1, f, f + 1, 2 * f - 1, 2 * f, 2 * f + 1}:
            for w in {f, f + 1, 2 * f + 1, 2 * f - 1}:
                if 1 <= h <= 34 and 1 <= w <= 34:
                    cases.append((1, 1, h, w, f, "reflect"))
                    cases.append((1, 1, w, h, f, "reflect"))
    for B, C, h, w in ((2, 3, 7, 9), (3, 2, 12, 5), (2, 1, 8, 8), (1, 4, 6, 10)):
        for f in (2, 3, 4, 8):
            for mode in ("reflect", "replicate", "constant"):
                cases.append((B, C, h, w, f, mode))
    cases += [(1, 1, 64, 64, 64, "reflect"), (1, 1, 65, 64, 64, "reflect"), (1, 1, 64, 100, 64, "reflect"),
              (1, 1, 127, 33, 64, "reflect"), (1, 1, 33, 63, 64, "reflect"), (1, 1, 128, 65, 64, "reflect")]
    for _ in range(ctx.pick(60, 600)):
        f = rng.choice([2, 3, 4, 5, 6, 8, 9, 12, 16, 32])
        h, w = rng.randint(1, 40), rng.randint(1, 40)
        cases.append((rng.randint(1, 3), rng.randint(1, 3), h, w, f, rng.choice(["reflect"] * 3 + ["replicate", "constant"])))
    seen = set()
    for B, C, h, w, f, mode in cases:
        ph, pw = -h % f, -w % f
        if mode == "reflect" and (ph >= h or pw >= w):
            continue
        if (B, C, h, w, f, mode) in seen:
            continue
        seen.add((B, C, h, w, f, mode))
        kind = KINDS[len(ev) % 4]
        x = _img(torch, B, C, h, w, kind)
        kw = {} if mode == "reflect" else {"mode": mode}
        ok, val, err = core.guarded(pad_image_to_factor, x.clone(), f, **kw)
        e = dict(op="pad", case=f"pad-{B}x{C}x{h}x{w}-f{f}-{mode}-{kind}", B=B, C=C, h=h, w=w, factor=f, mode=mode, ok=ok,
                 err=err, size=[], shape=[], px=[])
        if ok:
            y, size = val
            e.update(size=[int(s) for s in size], shape=list(y.shape), px=_px(y * 1.0, kind))
        ev.append(e)
    # ---- windows
    cases = []
    for stride in (1, 2, 3, 4, 5):
        for win in range(stride, stride + 9, 2):
            for h, w in ((stride + 4, stride + 7), (2 * stride + 3, 3 * stride), (9, 8), (8, 13)):
                cases.append((1, 2, h, w, stride, win))
    # as many channels as pixels in a window; a single window; one image row or column of windows
    for s in (1, 2, 3):
        for h, w in ((s, s), (max(1, s - 1), s), (2 * s, s), (s, 3 * s), (2 * s + 1, 2 * s)):
            for C in (s * s, 1, s):
                cases.append((2, C, h, w, s, s))
    for _ in range(ctx.pick(60, 500)):
        s = rng.randint(1, 6)
        cases.append((rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 18), rng.randint(1, 18), s, s + 2 * rng.randint(0, 3)))
    for B, C, h, w, s, win in cases:
        m = (win - s) // 2
        if not (m < h and m < w and (-h % s) + m < h and (-w % s) + m < w):
            continue
        if (B, C, h, w, s, win, "c") in seen:
            continue
        seen.add((B, C, h, w, s, win, "c"))
        kind = KINDS[len(ev) % 4]
        x = _img(torch, B, C, h, w, kind)
        p = Patcher(s)
        ok, val, err = core.guarded(p, x.clone(), win)
        tag = f"{B}x{C}x{h}x{w}-s{s}-w{win}-{kind}"
        e = dict(op="cut", case="cut-" + tag, B=B, C=C, h=h, w=w, stride=s, win=win, ok=ok, err=err, n=[], shape=[],
                 px=[], dev=0)
        if ok:
            t, n = val
            r = _raw(t, kind)
            dev = float((r - r.round()).abs().max()) if t.numel() else 0.0
            e.update(n=[int(v) for v in n], shape=list(t.shape), px=_px(t, kind), dev=0 if dev < 1e-2 else 1)
        ev.append(e)
        if win == s and ok:
            t, n = val
            for last in (True, False):
                for crop in ((h, w), None, (max(1, h - 1), w)):
                    tt = t if last else t.permute(0, 2, 1).contiguous()
                    ok2, y, err2 = core.guarded(p.unpatch, (tt, n), crop=crop, channels_last=last)
                    ch, cw = crop if crop else (-(-h // s) * s, -(-w // s) * s)
                    e = dict(op="join", case=f"join-{tag}-{'cl' if last else 'cf'}-{ch}x{cw}", B=B, C=C, h=h, w=w,
                             ch=ch, cw=cw, ok=ok2, err=err2, shape=[], px=[])
                    if ok2:
                        e.update(shape=list(y.shape), px=_px(y, kind))
                    ev.append(e)
    for s, win in ((4, 3), (4, 2), (4, 5), (4, 7), (3, 4), (8, 4), (2, 1), (2, 13), (1, 8), (5, 16), (1, 0), (3, 14), (6, 5)):
        ok, _, err = core.guarded(Patcher(s), _img(torch, 1, 1, 20, 16), win)
        ev.append(dict(op="reject", case=f"reject-s{s}-w{win}", ok=ok, err=err))
    ctx.validate("GeometryTrace", ev)
