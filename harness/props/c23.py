"""C23 Image operations: warping, colour conversion, flow visualisation."""
import colorsys
import math

from ..core import fx, guarded, rel


def run(ctx):
    import numpy as np
    import torch

    from neuralcompression.functional import dense_image_warp, hsv_to_rgb, optical_flow_to_color

    ctx.design("Warp")
    ctx.design("Color")
    ev, rng = [], ctx.rng
    gen = ctx.torch_gen(23)

    def sizes(align):
        while True:
            s, n = rng.choice([1, 2, 3, 4, 5, 8, 9, 16, 17]), rng.choice([2, 3, 4, 5, 8, 9, 17])
            if rng.random() < 0.5:
                n = max(2, s)
            if (16 * (s - 1 if align else s)) % (n - 1) == 0:
                return s, n

    for t in range(ctx.pick(240, 2000)):
        align, pad = bool(t % 2), ["zeros", "border", "reflection"][t // 2 % 3]
        mode = ["bilinear", "bilinear", "nearest"][t // 6 % 3]
        (h, ny), (w, nx) = sizes(align), sizes(align)
        B, C = rng.choice([1, 2, 3]), rng.choice([1, 3])
        dt = torch.float64
        img = torch.randint(0, 100, (B, C, h, w), generator=gen)
        step = 40 if t % 4 else 16 * max(h, w)
        k = torch.randint(-step, step + 1, (B, ny, nx, 2), generator=gen)
        if t % 7 == 0:
            k = k * 0
        if t % 7 == 1:
            k = (k // 16) * 16
        if mode == "nearest":  # keep away from ties
            for d, (s, n) in ((1, (h, ny)), (0, (w, nx))):
                base = torch.tensor([(16 * i * (s - 1) // (n - 1)) if align else (16 * i * s // (n - 1)) - 8 for i in range(n)])
                base = base.view(1, n, 1) if d == 1 else base.view(1, 1, n)
                tie = ((base + k[..., d]) % 16) == 8
                k[..., d] += tie.long()
        u = lambda s: (2.0 / (16 * (s - 1)) if s > 1 else 0.0) if align else 2.0 / (16 * s)  # noqa: E731
        flow = torch.stack([k[..., 0].double() * u(w), k[..., 1].double() * u(h)], dim=-1)
        kx = k[..., 0] * (0 if (align and w == 1) else 1)
        ky = k[..., 1] * (0 if (align and h == 1) else 1)
        im = img.to(dt)
        keep = (im.clone(), flow.clone())
        kw = dict(mode=mode, padding_mode=pad, align_corners=align)
        if mode == "bilinear" and t % 5 == 0:
            kw.pop("mode")
        if pad == "border" and t % 3 == 0:
            kw.pop("padding_mode")
        if not align and t % 4 == 0:
            kw.pop("align_corners")
        ok, y, err = guarded(dense_image_warp, im, flow, **kw)
        case = f"{B}x{C}x{h}x{w}-{ny}x{nx}-{mode}-{pad}-{align}-{t}"
        for b, c in {(rng.randrange(B), rng.randrange(C)) for _ in range(2)}:
            at = []
            if ok and tuple(y.shape) == (B, C, ny, nx):
                for _ in range(12):
                    i, j = rng.randrange(ny), rng.randrange(nx)
                    at.append(dict(y=i, x=j, ky=int(ky[b, i, j]), kx=int(kx[b, i, j]), got=fx(float(y[b, c, i, j]) * 256, 1)))
            ev.append(dict(op="warp", case=case, err=err, h=h, w=w, ny=ny, nx=nx, align=align, pad=pad, mode=mode, img=img[b, c].tolist(), at=at, tol=1, shape=list(y.shape) if ok else [], want=[B, C, ny, nx],
                           kept=torch.equal(im, keep[0]) and torch.equal(flow, keep[1])))
        # single precision agrees with double
        if ok and t % 3 == 0:
            y32 = dense_image_warp(im.float() / 100, flow.float(), **kw)
            if mode == "bilinear":
                d = (y32.double() * 100 - y).abs()
                # positions beside the image's edge may fall on either side of it
                ev.append(dict(op="fact", fn="single-precision-agrees", case=case, holds=pad == "zeros" and not align or bool((d < 0.05).all())))
            ev.append(dict(op="fact", fn="warp-dtype", case=case, holds=y32.dtype == torch.float32 and y.dtype == dt))
    # bicubic at whole pixels is the pixel; gradients reach image and flow
    for t in range(ctx.pick(20, 100)):
        h, w = rng.choice([4, 5, 9]), rng.choice([4, 6])
        im = torch.rand(2, 2, h, w, generator=gen, dtype=torch.float64)
        flow = torch.zeros(2, h, w, 2, dtype=torch.float64)
        y = dense_image_warp(im, flow, mode="bicubic", align_corners=True)
        ev.append(dict(op="fact", fn="bicubic-identity", case=f"{h}x{w}", holds=torch.allclose(y, im)))
        flow = (torch.rand(2, h, w, 2, generator=gen, dtype=torch.float64) - 0.5) * 0.3
        flow.requires_grad_(True)
        im.requires_grad_(True)
        dense_image_warp(im, flow, align_corners=bool(t % 2)).pow(2).sum().backward()
        ev.append(dict(op="fact", fn="warp-differentiable", case=f"{h}x{w}", holds=bool((im.grad != 0).any()) and bool((flow.grad != 0).any()) and bool(torch.isfinite(flow.grad).all())))
    a, f = torch.rand(1, 1, 4, 4), torch.rand(1, 4, 4, 2)
    for nm, args in [("warp-dtype", (a, f.double())), ("warp-dtype-half", (a.double(), f)), ("warp-3d-flow", (a, torch.rand(1, 4, 4, 3))), ("warp-1d-flow", (a, torch.rand(1, 4, 4, 1))), ("warp-channels-first-flow", (a, torch.rand(1, 2, 4, 4)))]:
        _, _, err = guarded(dense_image_warp, *args)
        ev.append(dict(op="refuse", fn=nm, case=nm, err=err, want="ValueError"))

    # ---- colours
    for t in range(ctx.pick(40, 300)):
        B, H, W = rng.choice([1, 2]), rng.choice([1, 3]), rng.choice([2, 4])
        hh = torch.randint(0, 361, (B, H, W), generator=gen)
        hh = hh if t % 3 else (hh // 60) * 60
        sv = torch.randint(0, 101, (B, 2, H, W), generator=gen)
        sv = sv if t % 4 else (sv // 50) * 50
        hh.view(-1)[0] = [0, 360, 1, 359, 120, 240, 300, 60][t % 8]
        sv[0, :, 0, 0] = torch.tensor([[100, 100], [100, 50], [0, 100], [70, 90]][t % 4])
        hsv = torch.cat([hh.unsqueeze(1).double(), sv.double() / 100], 1)
        if t % 5 == 0:
            hsv = hsv.float()
        keep = hsv.clone()
        ok, y, err = guarded(hsv_to_rgb, hsv)
        px = []
        if ok and tuple(y.shape) == (B, 3, H, W):
            for b in range(B):
                for i in range(H):
                    for j in range(W):
                        px.append(dict(hsv=[int(hh[b, i, j]), int(sv[b, 0, i, j]), int(sv[b, 1, i, j])], rgb=[fx(y[b, c, i, j], 600000) for c in range(3)]))
        ev.append(dict(op="hsv", case=f"{t}", err=err, px=px, shape=bool(ok and tuple(y.shape) == (B, 3, H, W)), kept=torch.equal(hsv, keep)))
    good = torch.tensor([10.0, 0.5, 0.5]).view(1, 3, 1, 1).repeat(2, 1, 2, 2)
    for nm, fnc in [("hsv-3d", lambda x: x[0]), ("hsv-4-channels", lambda x: torch.cat([x, x[:, :1]], 1)), ("hsv-2-channels", lambda x: x[:, :2]),
                    ("hue-negative", lambda x: x - torch.tensor([10.5, 0, 0]).view(1, 3, 1, 1)), ("hue-above-360", lambda x: x + torch.tensor([351.0, 0, 0]).view(1, 3, 1, 1)),
                    ("saturation-above-1", lambda x: x + torch.tensor([0, 0.6, 0]).view(1, 3, 1, 1)), ("value-negative", lambda x: x - torch.tensor([0, 0, 0.6]).view(1, 3, 1, 1)),
                    ("value-above-1", lambda x: x + torch.tensor([0, 0, 0.6]).view(1, 3, 1, 1)), ("saturation-negative", lambda x: x - torch.tensor([0, 0.6, 0]).view(1, 3, 1, 1))]:
        x = good.clone()
        z = fnc(good)
        if z.shape == x.shape:  # one bad pixel is enough
            x[1, :, 1, 0] = z[1, :, 1, 0]
        else:
            x = z
        _, _, err = guarded(hsv_to_rgb, x)
        ev.append(dict(op="refuse", fn=nm, case=nm, err=err, want="ValueError"))

    # ---- flow pictures: hue is the direction, brightness the speed
    for t in range(ctx.pick(40, 300)):
        B, H, W = rng.choice([1, 2]), rng.choice([2, 3]), rng.choice([2, 4])
        flow = torch.randn(B, 2, H, W, generator=gen, dtype=torch.float64) * rng.choice([1e-4, 1.0, 300.0])
        if t % 3 == 0:
            flow = flow.sign() * (torch.rand(B, 2, H, W, generator=gen) < 0.6)
        if t % 5 == 0:
            flow = flow.float()
        if t % 11 == 0:
            flow = flow * 0
        eps = rng.choice([None, 1e-5, 1e-2])
        keep = flow.clone()
        ok, y, err = guarded(optical_flow_to_color, flow, **({} if eps is None else dict(eps=eps)))
        f = flow.double().numpy()
        mag = np.sqrt(f[:, 0] ** 2 + f[:, 1] ** 2)
        val = (mag - mag.min()) / (mag.max() - mag.min() + (1e-5 if eps is None else eps))
        v = []
        if ok and tuple(y.shape) == (B, 3, H, W):
            for b in range(B):
                for i in range(H):
                    for j in range(W):
                        ang = math.degrees(math.atan2(f[b, 0, i, j], f[b, 1, i, j])) % 360.0
                        rgb = colorsys.hsv_to_rgb(ang / 360.0, 1.0, min(1.0, val[b, i, j]))
                        v += [rel(y[b, c, i, j], rgb[c], 1.0) for c in range(3)]
        ev.append(dict(op="approx", fn="flow-color", case=f"{t}", ok=bool(ok and v), tol=5000 if flow.dtype == torch.float64 else 300_000, v=v))
        ev.append(dict(op="fact", fn="flow-color-input-kept", case=f"{t}", holds=torch.equal(flow, keep) and (not ok or y.dtype == flow.dtype)))
    for y0 in [-(10.0 ** -q) for q in range(1, 45, 3)] + [-0.0, 0.0]:
        flow = torch.zeros(1, 2, 1, 3)
        flow[0, 0, 0, 0], flow[0, 1, 0, 0], flow[0, 1, 0, 1] = y0, 1.0, -0.5
        ok, y, err = guarded(optical_flow_to_color, flow)
        ev.append(dict(op="refuse", fn="flow-color-next-to-zero-angle", case=str(y0), err=err, want=""))
    _, _, err = guarded(optical_flow_to_color, torch.rand(2, 4, 4))
    ev.append(dict(op="refuse", fn="flow-color-3d", case="3d", err=err, want="ValueError"))
    ctx.validate("ImageOpsTrace", ev)
    ctx.assumptions += ["warp positions are multiples of 1/16 pixel, nearest-neighbour ties excluded"]
