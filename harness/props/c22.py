"""C22 Building blocks: U-Net discriminators, channel norm, GDN, XCA, HiFiC encoder/generator."""
from ..core import guarded, rel


def run(ctx):
    import numpy as np
    import torch
    import torch.nn as nn
    import torch.nn.functional as F

    from neuralcompression.layers import XCA, ChannelNorm2D, SimplifiedGDN, SimplifiedInverseGDN
    from neuralcompression.models import ConditionalUnetDiscriminator, UnetDiscriminator
    from neuralcompression.models._hific_encoder_decoder import HiFiCEncoder, HiFiCGenerator

    ctx.design("UnetShape")
    ev, rng = [], ctx.rng
    gen = ctx.torch_gen(22)
    rand = lambda *s: torch.randn(*s, generator=gen)  # noqa: E731

    # ---- discriminators
    combos = [(L, f, cond) for L in (1, 2, 3, 4) for f in (1, 2, 4, 8, 16, 32) for cond in (False, True)]
    combos += [(3, f, c) for f in (0, 3, 6, 12, 5) for c in (False, True)] + [(6, f, False) for f in (2, 16, 32, 64, 128)]
    reps = ctx.pick(1, 5)
    torch.manual_seed(ctx.seed)
    for r in range(reps):
        for at, (L, f, cond) in enumerate(combos):
            norm = ["identity", "spectral", "instance", "batch", "spectral"][(at + at // 12 + r + ctx.seed) % 5]
            ctx_in, ctx_out = rng.choice([2, 5]), rng.choice([3, 4])
            c0 = 3 + (ctx_out if cond else 0)
            chans = [c0] + [rng.choice([4, 6, 8, 64]) for _ in range(L)]
            default = L == 6 and r == 0 and f == 16
            out = rng.choice([1, 2, 5])
            b, h, w = rng.choice([1, 2, 3]), 2 ** L * rng.choice([2, 3]), 2 ** L * rng.choice([2, 3])
            case = f"L{L}-f{f}-{norm}-{'cond' if cond else 'plain'}-{r}"
            kw = dict(output_channels=out, output_downsampling_factor=f, norm_type=norm)
            if not default:
                kw["chans"] = chans
            e = dict(op="unet", case=case, levels=L, factor=f, b=b, h=h, w=w, out=out, cond=cond, err="", where="", shape=[], alone=True, kept=True, flag=cond, joined=True, grad=True, specmax=0, norms=True)
            ev.append(e)
            ok, m, err = guarded(ConditionalUnetDiscriminator, context_in=ctx_in, context_out=ctx_out, **kw) if cond else guarded(UnetDiscriminator, **kw)
            if not ok:
                e.update(err=err, where="build")
                continue
            x, cx = rand(b, 3, h, w), rand(b, ctx_in, 2 ** rng.choice([0, 1]), 2 ** rng.choice([0, 1]) * 2)
            if cx.shape[2] < 2:
                cx = rand(b, ctx_in, 2, 2)
            args = (x, cx) if cond else (x,)
            keep = [a.clone() for a in args]
            if norm == "spectral":
                m.train()
                with torch.no_grad():  # far from normalised, so that every level needs it
                    for q in m.parameters():
                        if q.ndim == 4:
                            q.mul_(rng.choice([1.0, 20.0]))
                for _ in range(60 if L < 6 else 15):
                    guarded(m, *args)
            m.eval()
            seen = []
            inner = [q for q in m.modules() if isinstance(q, UnetDiscriminator)]
            hk = inner[0].register_forward_pre_hook(lambda mod, a: seen.append(a[0].detach().clone())) if inner else None
            args = tuple(a.clone().requires_grad_(True) for a in args)
            ok, y, err = guarded(m, *args)
            if not ok:
                e.update(err=err, where="forward")
                continue
            e["shape"] = list(y.shape)
            if hk:
                hk.remove()
            if cond and seen:
                conv = next((q for q in m.modules() if isinstance(q, nn.Conv2d) and q.in_channels == ctx_in and q.padding_mode == "reflect"), None)
                if conv is not None:
                    with torch.no_grad():
                        t = F.leaky_relu(F.conv2d(F.pad(args[1], (1, 1, 1, 1), mode="reflect"), conv.weight, conv.bias), 0.2)
                    iy = (torch.arange(h) * t.shape[2]) // h
                    ix = (torch.arange(w) * t.shape[3]) // w
                    up = t[:, :, iy][:, :, :, ix]
                    e["joined"] = tuple(seen[0].shape) == (b, 3 + ctx_out, h, w) and torch.equal(seen[0][:, :3], args[0].detach()) and torch.allclose(seen[0][:, 3:], up, atol=1e-5)
            y.sum().backward()
            e["grad"] = all(a.grad is not None and bool((a.grad != 0).any()) for a in args)
            e["kept"] = all(torch.equal(a.detach(), k) for a, k in zip(args, keep))
            e["flag"] = bool(m.is_conditional)
            with torch.no_grad():
                one = torch.cat([m(*[a[i:i + 1] for a in keep]) for i in range(b)])
                e["alone"] = tuple(one.shape) == tuple(y.shape) and torch.allclose(one, y.detach(), atol=1e-4 * max(1.0, float(y.abs().max())))
            if norm in ("identity", "instance"):
                with torch.no_grad():
                    tr = m.train()(*keep)
                    m.eval()
                ev.append(dict(op="fact", fn="training-mode-agrees", case=case, holds=torch.allclose(tr, y.detach(), atol=1e-4 * max(1.0, float(y.abs().max())))))
            if norm == "spectral":
                s = 0.0
                convs = [q for q in m.modules() if isinstance(q, nn.Conv2d)]
                for q in convs:
                    if q.out_channels == out and q.in_channels == 64 and q.kernel_size == (1, 1):
                        continue  # output layer
                    if q.padding_mode == "reflect":
                        continue  # context layer
                    s = max(s, float(torch.linalg.matrix_norm(q.weight.detach().flatten(1), 2)))
                e["specmax"] = int(round(s * 1000))
            cnt = lambda t: sum(isinstance(q, t) for q in m.modules())  # noqa: E731
            e["norms"] = (cnt(nn.BatchNorm2d) > 0) == (norm == "batch") and (cnt(nn.InstanceNorm2d) > 0) == (norm == "instance") and (any("parametrizations" in n for n, _ in m.named_parameters())) == (norm == "spectral")
    for nm in ("layer", "", "Batch"):
        _, _, err = guarded(UnetDiscriminator, output_channels=2, output_downsampling_factor=2, chans=[3, 4, 4], norm_type=nm)
        ev.append(dict(op="refuse", fn="norm-type", case=nm, err=err, want="ValueError"))

    # ---- channel normalisation
    for k in range(ctx.pick(40, 300)):
        B, C, H, W = rng.choice([1, 2]), rng.choice([2, 3, 7]), rng.choice([1, 3]), rng.choice([1, 4])
        aff = bool(rng.randrange(2))
        eps = rng.choice([None, 1e-3, 1e-6, 0.5])
        kw = dict(affine=aff) if eps is None else dict(affine=aff, epsilon=eps)
        m = ChannelNorm2D(C, **kw)
        x = rand(B, C, H, W) * rng.choice([1e-3, 1.0, 50.0]) + rng.choice([0.0, 5.0])
        if aff:
            with torch.no_grad():
                ident = m(x)
                m.gamma.copy_(rand(1, C, 1, 1))
                m.beta.copy_(rand(1, C, 1, 1))
        keep = x.clone()
        ok, y, err = guarded(m, x)
        a = x.double().numpy()
        mu = a.mean(1, keepdims=True)
        var = ((a - mu) ** 2).sum(1, keepdims=True) / (C - 1)
        w = (a - mu) / np.sqrt(var + (1e-3 if eps is None else eps))
        if aff:
            ev.append(dict(op="approx", fn="channel-norm-initial", case=f"{k}", ok=True, tol=3_000_000, v=[rel(p, q, 1.0) for p, q in zip(ident.reshape(-1)[:12], w.reshape(-1)[:12])]))
            w = w * m.gamma.detach().double().numpy() + m.beta.detach().double().numpy()
        ev.append(dict(op="approx", fn="channel-norm", case=f"{B}x{C}x{H}x{W}-{aff}-{eps}-{k}", ok=ok and y.shape == x.shape and torch.equal(x, keep), tol=3_000_000,
                       v=[rel(p, q, 1.0) for p, q in zip(y.detach().reshape(-1)[:40], w.reshape(-1)[:40])] if ok else []))
    for c in (1, 0, -1):
        _, _, err = guarded(ChannelNorm2D, c)
        ev.append(dict(op="refuse", fn="channel-norm-single-channel", case=str(c), err=err, want="ValueError"))

    # ---- (inverse) divisive normalisation
    for k in range(ctx.pick(40, 300)):
        B, C, H, W = rng.choice([1, 2]), rng.choice([1, 2, 5]), rng.choice([1, 3]), rng.choice([1, 4])
        inv = bool(k % 2)
        bm = rng.choice([None, 1e-6, 1e-2])
        gi = rng.choice([None, 0.1, 0.7])
        kw = {a: b for a, b in (("beta_min", bm), ("gamma_init", gi)) if b is not None}
        m = (SimplifiedInverseGDN if inv else SimplifiedGDN)(C, **kw).double()
        x = rand(B, C, H, W).double() * rng.choice([0.1, 3.0])
        case = f"{'inv' if inv else 'fwd'}-{B}x{C}x{H}x{W}-{kw}-{k}"
        for stage in ("initial", "trained"):
            if stage == "trained":
                with torch.no_grad():
                    m.gamma.add_(0.3 * rand(C, C, 1, 1).double())
                    m.beta.add_(1.2 * rand(C).double())
            g0, b0 = m.gamma.detach().clone(), m.beta.detach().clone()
            xi = x.clone().requires_grad_(True)
            ok, y, err = guarded(m, xi)
            g = np.maximum(g0.numpy().reshape(C, C), 0.0)
            b = np.maximum(b0.numpy(), 1e-6 if bm is None else bm)
            a = x.numpy()
            d = np.einsum("ij,bjhw->bihw", g, np.abs(a)) + b.reshape(1, -1, 1, 1)
            w = a * d if inv else a / d
            ev.append(dict(op="approx", fn=f"gdn-{stage}", case=case, ok=ok and y.shape == x.shape and torch.equal(x, xi.detach()), tol=10_000, v=[rel(p, q, 1e-6) for p, q in zip(y.detach().reshape(-1)[:40], w.reshape(-1)[:40])] if ok else []))
            if ok:
                ev.append(dict(op="fact", fn="gdn-parameters-in-range", case=case, holds=bool((m.gamma >= 0).all()) and bool((m.beta >= (1e-6 if bm is None else bm) - 1e-12).all()) and len(list(m.parameters())) == 2))
                y.sum().backward()
                ev.append(dict(op="fact", fn="gdn-trainable", case=case, holds=all(p.grad is not None and bool(torch.isfinite(p.grad).all()) for p in m.parameters()) and bool((m.beta.grad != 0).any())))
                ev.append(dict(op="fact", fn="gdn-initial-gamma", case=case, holds=stage != "initial" or np.allclose(g0.numpy().reshape(C, C), np.eye(C) * (0.1 if gi is None else gi))))

    # ---- cross-covariance attention
    for k in range(ctx.pick(30, 200)):
        H = rng.choice([1, 2, 4])
        C, B, N = H * rng.choice([1, 2, 3]), rng.choice([1, 2]), rng.choice([1, 3, 6])
        bias = bool(rng.randrange(2))
        m = XCA(C, num_heads=H, qkv_bias=bias).double().eval()
        with torch.no_grad():
            m.temperature.copy_(1 + rand(H, 1, 1).abs())
        x = rand(B, N, C).double()
        case = f"{B}x{N}x{C}-h{H}-{bias}-{k}"
        ok, y, err = guarded(m, x)
        W = m.qkv.weight.detach().numpy()
        z = x.numpy() @ W.T + (m.qkv.bias.detach().numpy() if bias else 0.0)
        cp = C // H
        o = np.zeros((B, N, C))
        for bb in range(B):
            for hh in range(H):
                q, kk, v = (z[bb, :, j * C + hh * cp:j * C + (hh + 1) * cp] for j in range(3))
                q = q / np.maximum(np.sqrt((q ** 2).sum(0, keepdims=True)), 1e-12)
                kk = kk / np.maximum(np.sqrt((kk ** 2).sum(0, keepdims=True)), 1e-12)
                at = (q.T @ kk) * float(m.temperature[hh])
                at = np.exp(at - at.max(1, keepdims=True))
                at /= at.sum(1, keepdims=True)
                o[bb, :, hh * cp:(hh + 1) * cp] = v @ at.T
        w = o @ m.proj.weight.detach().numpy().T + m.proj.bias.detach().numpy()
        ev.append(dict(op="approx", fn="cross-covariance-attention", case=case, ok=ok and y.shape == x.shape, tol=20_000, v=[rel(p, q, 1e-2) for p, q in zip(y.detach().reshape(-1)[:40], w.reshape(-1)[:40])] if ok else []))
        if ok:
            pm = torch.randperm(N, generator=gen)
            with torch.no_grad():
                ev.append(dict(op="fact", fn="attention-follows-token-order", case=case, holds=torch.allclose(m(x[:, pm]), y[:, pm], atol=1e-9)))
                ev.append(dict(op="fact", fn="attention-per-image", case=case, holds=torch.allclose(m(x[:1]), y[:1], atol=1e-9)))
                m2 = XCA(C, num_heads=H, qkv_bias=bias, attn_drop=0.9, proj_drop=0.9).double().eval()
                m2.load_state_dict(m.state_dict())
                ev.append(dict(op="fact", fn="no-dropout-in-evaluation", case=case, holds=torch.equal(m2(x), y)))

    # ---- HiFiC encoder / generator
    enc, dec = HiFiCEncoder(latent_features=6).eval(), HiFiCGenerator(latent_features=6, n_residual_blocks=1).eval()
    for k in range(ctx.pick(5, 16)):
        h, w = rng.choice([16, 17, 31, 33, 40]), rng.choice([16, 18, 32, 47])
        with torch.no_grad():
            ok, z, err = guarded(enc, torch.rand(2, 3, h, w, generator=gen))
            ev.append(dict(op="shape", fn="hific-latent", case=f"{h}x{w}", got=list(z.shape) if ok else err, want=[2, 6, -(-h // 16), -(-w // 16)]))
            if ok:
                ok, y, err = guarded(dec, z)
                ev.append(dict(op="shape", fn="hific-generated", case=f"{h}x{w}", got=list(y.shape) if ok else err, want=[2, 3, 16 * z.shape[2], 16 * z.shape[3]]))
                ev.append(dict(op="fact", fn="hific-image-on-its-own", case=f"{h}x{w}", holds=ok and torch.allclose(dec(z[:1]), y[:1], atol=1e-4)))
    ctx.validate("BlocksTrace", ev)
    ctx.assumptions += ["networks carry random weights; layer formulas are recomputed in float64"]
