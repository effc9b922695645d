"""C14 patch based FID/KID and the 255 scale."""
from .. import core


def run(ctx):
    import torch
    import neuralcompression.functional as ncF
    from neuralcompression.metrics import update_patch_fid

    ctx.design("MetricAcc")
    ctx.design("PatchGrid")
    ev, rng = [], ctx.rng

    class Rec:
        def __init__(self):
            self.calls = []

        def update(self, x, real):
            self.calls.append((bool(real), x.clone()))

        def side(self, real):
            xs = [x for r, x in self.calls if r == real]
            return torch.cat(xs) if xs else torch.zeros(0, 3, 1, 1)

    combos = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1), (1, 0, 1), (0, 1, 1)]
    shapes = []
    for p in ([2, 3, 4, 5, 7, 8] if not ctx.thorough else range(2, 13)):
        for h in sorted({p, p + 1, (3 * p) // 2 - 1, (3 * p) // 2, (3 * p + 1) // 2, 2 * p - 1, 2 * p, 2 * p + p // 2, 3 * p + 1}):
            for w in sorted({p, (3 * p) // 2, (3 * p + 1) // 2, 2 * p + 1, 3 * p}):
                if h >= p and w >= p:
                    shapes.append((p, h, w))
    rng.shuffle(shapes)
    for k, (p, h, w) in enumerate(shapes[:ctx.pick(220, 2000)] + [(64, 70, 100), (32, 50, 49), (256, 256, 260)]):
        n = rng.choice([1, 2, 3])
        # channel 0 = row, channel 1 = column, channel 2 = image (fake side offset by 100)
        yy = torch.arange(h).view(1, 1, h, 1).expand(n, 1, h, w) % 256
        xx = torch.arange(w).view(1, 1, 1, w).expand(n, 1, h, w) % 256
        zz = torch.arange(n).view(n, 1, 1, 1).expand(n, 1, h, w)
        real = torch.cat([yy, xx, zz], 1).float() / 255
        fake = torch.cat([yy, xx, zz + 100], 1).float() / 255
        combo = combos[k % len(combos)]
        recs = [Rec() if c else None for c in combo]
        kw = {} if p == 256 else dict(patch_size=p)
        ok, cnt, err = core.guarded(update_patch_fid, real, fake, recs[0], recs[1], recs[2], **kw)
        e = dict(op="patch", case=f"p{p}-{n}x{h}x{w}-{''.join(map(str, combo))}", n=n, h=h, w=w, p=p, err=err, got=[], exact=True, count=-1, same=True)
        if ok:
            e["count"] = int(cnt)
            live = [r for r in recs if r is not None]
            r0, f0 = live[0].side(True), live[0].side(False)
            e["same"] = all(torch.equal(r.side(True), r0) and torch.equal(r.side(False), f0) and len(r.calls) == len(live[0].calls) for r in live) and r0.shape == f0.shape
            for side, base in ((r0, 0), (f0, 100)):
                got = []
                for q in side:
                    y0, x0, z0 = int(q[0, 0, 0]), int(q[1, 0, 0]), int(q[2, 0, 0]) - base
                    got.append([z0, y0, x0])
                    src = (torch.cat([yy, xx, zz + base], 1))[z0:z0 + 1, :, y0:y0 + p, x0:x0 + p] if 0 <= z0 < n else None
                    e["exact"] = e["exact"] and q.dtype == torch.uint8 and src is not None and torch.equal(q.to(src.dtype), src[0])
                if base == 0:
                    e["got"] = got
                else:
                    e["same"] = e["same"] and sorted(got) == sorted(e["got"])
        ev.append(e)
    _, _, err = core.guarded(update_patch_fid, real, fake)
    ev.append(dict(op="refuse", case="no-metric", fn="patch-without-metric", err=err, want="ValueError"))
    _, _, err = core.guarded(update_patch_fid, real * 1.5 + 0.5, fake, Rec())
    ev.append(dict(op="refuse", case="range-real", fn="patch-range", err=err, want="ValueError"))
    _, _, err = core.guarded(update_patch_fid, real, fake - 0.2, Rec())
    ev.append(dict(op="refuse", case="range-fake", fn="patch-range", err=err, want="ValueError"))

    # ---- the 255 scale: exact on the grid, nearest otherwise, refused outside
    for dt in (torch.float32, torch.float64):
        for out in (None, torch.uint8, torch.int32, torch.float64, torch.int64):
            grid = torch.arange(256).to(dt).view(1, 1, 16, 16) / 255
            keep = grid.clone()
            y = ncF.image_to_255_scale(grid, out) if out is not None else ncF.image_to_255_scale(grid)
            case = f"scale-{dt}-{out}".replace("torch.", "")
            ev.append(dict(op="fact", case=case, fn="scale-exact-on-grid", holds=y.reshape(-1).tolist() == list(range(256))))
            ev.append(dict(op="fact", case=case, fn="scale-dtype", holds=y.dtype == (dt if out is None else out)))
            ev.append(dict(op="fact", case=case, fn="scale-input-left-alone", holds=torch.equal(grid, keep)))
            x = torch.rand(2, 3, 9, 11, generator=ctx.torch_gen(7), dtype=dt)
            y = ncF.image_to_255_scale(x, out)
            off = ((y.double() - x.double() * 255) * 1000).round().reshape(-1).tolist()
            ev.append(dict(op="between", case=case, fn="scale-nearest", v=[int(v) for v in off], lo=-501, hi=501))
            ev.append(dict(op="shape", case=case, fn="scale", got=list(y.shape), want=list(x.shape)))
    # double precision: just to either side of the middle between two levels
    ks = torch.arange(255, dtype=torch.float64)
    for sign in (-1, 1):
        x = ((ks + 0.5 + sign * 1e-7) / 255).view(1, 1, 15, 17)
        for out in (None, torch.uint8):
            y = ncF.image_to_255_scale(x, out)
            ev.append(dict(op="fact", case=f"scale-middle{sign}-{out}", fn="scale-nearest-near-the-middle", holds=[int(v) for v in y.reshape(-1).tolist()] == [i + (sign > 0) for i in range(255)]))
    for nm, v in (("above", 1.0 + 1e-6), ("far-above", 255.0), ("below", -1e-6), ("far-below", -3.0)):
        for pos in (0, 17, 35):
            x = torch.full((1, 1, 6, 6), 0.5)
            x.view(-1)[pos] = v
            _, _, err = core.guarded(ncF.image_to_255_scale, x, rng.choice([None, torch.uint8]))
            ev.append(dict(op="refuse", case=f"scale-{nm}-{pos}", fn="scale-range", err=err, want="ValueError"))
    ctx.validate("MetricTrace", ev)
