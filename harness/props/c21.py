"""C21 Training losses: adversarial losses, distortion losses, LPIPS."""
import math
import types

from ..core import fx, guarded, rel

SC = 100.0


def backbones():
    """untrained feature networks in place of the downloaded ones, the same at every call"""
    import torch
    import torchvision.models as tvm
    from lpips import pretrained_networks as pn

    torch.manual_seed(77)
    vgg = tvm.vgg.make_layers(tvm.vgg.cfgs["D"])
    sq = tvm.SqueezeNet("1_1").features
    alex = torch.nn.Sequential(*[m for m in tvm.AlexNet().features])
    for net in (vgg, sq, alex):
        for m in net.modules():
            if isinstance(m, torch.nn.Conv2d):
                torch.nn.init.kaiming_normal_(m.weight)
                torch.nn.init.normal_(m.bias, std=0.1)
    ns = types.SimpleNamespace
    pn.tv = ns(vgg16=lambda *a, **k: ns(features=vgg), alexnet=lambda *a, **k: ns(features=alex), squeezenet1_1=lambda *a, **k: ns(features=sq))


def run(ctx):
    import contextlib
    import io

    import numpy as np
    import torch

    from neuralcompression import loss_fn as L
    from neuralcompression.functional import lpips as lpips_fn
    from neuralcompression.loss_fn._normfix_lpips import NormFixLPIPS

    ctx.design("AdvLoss")
    ctx.design("AdvLoss", "AdvLossBin.cfg")
    ev, rng = [], ctx.rng
    gen = ctx.torch_gen(21)

    def nll(x):
        x = x.astype(np.float64)
        m = x.max(axis=1, keepdims=True)
        return np.log(np.exp(x - m).sum(axis=1, keepdims=True)) + m - x

    def layout(t, k):
        if k % 3 == 1 and t.ndim == 4:
            return t.contiguous(memory_format=torch.channels_last)
        if k % 3 == 2:
            return torch.cat([t, t], dim=-1)[..., :t.shape[-1]]
        return t

    def logits(shape, k):
        s = rng.choice([0.5, 3.0, 30.0, 300.0])
        return layout(torch.randn(shape, generator=gen) * s, k)

    # ---- label-map losses
    for k in range(ctx.pick(120, 900)):
        B, C, H, W = rng.choice([1, 2, 3]), rng.choice([2, 3, 5, 9]), rng.choice([1, 2, 3]), rng.choice([1, 2, 4])
        r, f = logits((B, C, H, W), k), logits((B, C, H, W), k // 3)
        lab = torch.randint(0, C - 1, (B, H, W), generator=gen)
        lab = [lab, lab.unsqueeze(1), lab.flatten(1), layout(lab, 2)][k % 4]
        n = lab.numel()
        flat = lambda t: nll(t.numpy()).transpose(0, 2, 3, 1).reshape(-1, C)  # noqa: E731
        cost = lambda t: [[fx(v, SC) for v in row] for row in flat(t)]  # noqa: E731
        case = f"{B}x{C}x{H}x{W}-{k}"
        labs = [int(v) for v in lab.reshape(-1)]
        keep = (r.clone(), f.clone(), lab.clone())
        rg, fg = r.clone().requires_grad_(True), f.clone().requires_grad_(True)
        for fn, call, mult in (("oasis-discriminator", lambda: L.OASISDiscriminatorLoss()(layout(rg, k), layout(fg, k // 3), lab), 2 * n),
                               ("oasis-generator", lambda: L.OASISGeneratorLoss()(layout(fg, k // 3), lab), n)):
            rg.grad = fg.grad = None
            ok, v, err = guarded(call)
            ev.append(dict(op="loss", fn=fn, case=case, err=err, real=cost(r), fake=cost(f), lab=labs, got=fx(float(v.detach()) * mult, SC) if ok else 0, tol=2 * n + 4 + int(1e-4 * SC * mult * (abs(float(v.detach())) if ok else 0)),
                           scalar=bool(ok and v.ndim == 0), kept=all(torch.equal(a, b) for a, b in zip(keep, (r, f, lab)))))
            if ok:
                v.backward()
                onehot = torch.zeros(B, C, H * W, dtype=torch.float64)
                onehot.scatter_(1, lab.reshape(B, 1, -1) + 1, 1.0)
                onehot = onehot.view(B, C, H, W)
                zero = torch.zeros_like(onehot)
                zero[:, 0] = 1
                sm = lambda t: torch.softmax(t.double(), 1)  # noqa: E731
                want = {"oasis-discriminator": (0.5 * (sm(r) - onehot) / n, 0.5 * (sm(f) - zero) / n), "oasis-generator": (None, (sm(f) - onehot) / n)}[fn]
                for nm, g, w in (("real", rg.grad, want[0]), ("fake", fg.grad, want[1])):
                    if w is None:
                        ev.append(dict(op="fact", fn=f"no-gradient-to-real-{fn}", case=case, holds=g is None))
                    else:
                        gg = torch.zeros_like(w) if g is None else g
                        idx = rng.sample(range(w.numel()), min(8, w.numel()))
                        ev.append(dict(op="approx", fn=f"gradient-{nm}-{fn}", case=case, ok=True, tol=2_000_000, v=[rel(gg.reshape(-1)[i], w.reshape(-1)[i], 1.0 / n) for i in idx]))
        # ---- refusals
        if k < 30:
            bads = [("oasis-logits-3d", (r[0], f[0], lab)), ("oasis-fake-size", (r, torch.cat([f, f], 3), lab)), ("oasis-target-size", (r, f, torch.cat([lab, lab], 0))),
                    ("oasis-real-size", (torch.cat([r, r], 2), f, lab)), ("oasis-target-int32", (r, f, lab.int())), ("oasis-target-float", (r, f, lab.float()))]
            for nm, a in bads:
                _, _, err = guarded(L.OASISDiscriminatorLoss(), *a)
                ev.append(dict(op="refuse", fn=nm, case=case, err=err, want="ValueError"))
            for nm, a in [("oasisg-3d", (f[0], lab)), ("oasisg-size", (torch.cat([f, f], 3), lab)), ("oasisg-float", (f, lab.float())), ("oasisg-5d", (f.unsqueeze(0), lab))]:
                _, _, err = guarded(L.OASISGeneratorLoss(), *a)
                ev.append(dict(op="refuse", fn=nm, case=case, err=err, want="ValueError"))

    # ---- binary losses
    for k in range(ctx.pick(120, 900)):
        shape = rng.choice([(3, 1), (2, 1, 2, 3), (5,), (1, 1, 1, 1), (2, 3, 2)])
        r, f = logits(shape, k), logits(shape, k + 1)
        kind = rng.choice(["ones", "scalar", "smooth", "mixed", "zeros"])
        pc = {"ones": 100, "scalar": rng.choice([100, 90, 0]), "smooth": 90, "zeros": 0}.get(kind)
        tp = torch.full(shape, float(pc)) if pc is not None else torch.randint(0, 101, shape, generator=gen).float()
        target = torch.tensor(pc / 100.0) if kind == "scalar" else tp / 100.0
        sp = lambda t: np.logaddexp(0.0, t.reshape(-1).double().numpy())  # noqa: E731 softplus
        cost = lambda t: [[fx(a, SC), fx(b, SC)] for a, b in zip(sp(t), sp(-t))]  # noqa: E731
        n = r.numel()
        case = f"{'x'.join(map(str, shape))}-{kind}-{k}"
        keep = (r.clone(), f.clone(), target.clone())
        labs = [int(v) for v in tp.reshape(-1)]
        for fn, call, mult in (("bce-discriminator", lambda: L.BinaryCrossentropyDiscriminatorLoss()(r, f, target), 2 * n), ("bce-generator", lambda: L.BinaryCrossentropyGeneratorLoss()(f, target), n)):
            ok, v, err = guarded(call)
            ev.append(dict(op="loss", fn=fn, case=case, err=err, real=cost(r), fake=cost(f), lab=labs, got=fx(float(v) * mult, SC) if ok else 0, tol=2 * n + 4 + int(1e-4 * SC * mult * (abs(float(v)) if ok else 0)),
                           scalar=bool(ok and v.ndim == 0), kept=all(torch.equal(a, b) for a, b in zip(keep, (r, f, target)))))
        if k < 20:
            for nm, a, fn in [("bce-target-dims", (r, f, tp.unsqueeze(0)), L.BinaryCrossentropyDiscriminatorLoss()), ("bceg-target-dims", (f, tp.unsqueeze(0)), L.BinaryCrossentropyGeneratorLoss()),
                              ("bceg-target-1", (torch.cat([f.reshape(-1, 1), f.reshape(-1, 1)]), tp.reshape(-1)), L.BinaryCrossentropyGeneratorLoss())]:
                _, _, err = guarded(fn, *a)
                ev.append(dict(op="refuse", fn=nm, case=case, err=err, want="ValueError"))

    # ---- distortions
    backbones()

    @contextlib.contextmanager
    def quiet():
        with contextlib.redirect_stdout(io.StringIO()):
            yield

    def oracle(model, a, b, normalize, lin=True, version="0.1"):
        """per image LPIPS, from the feature maps of the model's own backbone"""
        with torch.no_grad():
            if normalize:
                a, b = 2 * a - 1, 2 * b - 1
            if version == "0.1":
                sh = torch.tensor([-.030, -.088, -.188])[None, :, None, None]
                sc = torch.tensor([.458, .448, .450])[None, :, None, None]
                a, b = (a - sh) / sc, (b - sh) / sc
            fa, fb = model.net.forward(a), model.net.forward(b)
            per = []
            for i in range(len(fa)):
                x, y = fa[i].double().numpy(), fb[i].double().numpy()
                nx = np.sqrt((x ** 2).sum(1, keepdims=True)) + 1e-10
                ny = np.sqrt((y ** 2).sum(1, keepdims=True)) + 1e-10
                d = (x / nx - y / ny) ** 2
                w = model.lins[i].model[-1].weight.detach().double().numpy().reshape(1, -1, 1, 1) if lin else 1.0
                per.append((d * w).sum(1).mean(axis=(1, 2)))
            return np.stack(per)

    SCL = 2_000_000  # 0.2 % of the value
    mse = lambda a, b: float(((a.double() - b.double()) ** 2).mean())  # noqa: E731
    for k in range(ctx.pick(30, 120)):
        shape = (rng.choice([1, 2, 3]), rng.choice([1, 3]), rng.choice([4, 7]), rng.choice([3, 8]))
        a, b = torch.rand(shape, generator=gen), torch.rand(shape, generator=gen)
        s = rng.choice([None, 1.0, 0.0, 3.5])
        ok, v, err = guarded(L.MSELoss() if s is None else L.MSELoss(scale_param=s), a, b)
        ev.append(dict(op="approx", fn="mse-loss", case=f"{k}-{s}", ok=ok, tol=20_000, v=[rel(v, (65025.0 if s is None else s) * mse(a, b), 1e-9)] if ok else []))

    nets = ["vgg", "alex", "squeeze"]
    for k in range(ctx.pick(6, 24)):
        net = nets[k % 3]
        mp, lp = rng.choice([(65025.0, 1.0), (1.0, 4.26), (0.0, 1.0), (100.0, 0.0)])
        norm = bool(rng.randrange(2))
        with quiet():
            ok, loss, err = guarded(L.MSELPIPSLoss, mse_param=mp, lpips_param=lp, normalize=norm, backbone=net)
            dflt_ok, dflt, _ = guarded(L.MSELPIPSLoss)
        case = f"{net}-{mp}-{lp}-{norm}-{k}"
        if not ok or not dflt_ok:
            ev.append(dict(op="refuse", fn="mse-lpips-construction", case=case, err=err or "default", want=""))
            continue
        inner = loss.lpips_model
        a, b = torch.rand(2, 3, 40, 48, generator=gen), torch.rand(2, 3, 40, 48, generator=gen)
        if not norm:
            a, b = 2 * a - 1, 2 * b - 1
        for mode in ("train", "eval"):
            getattr(loss, mode)()
            x = a.clone().requires_grad_(True)
            ok, v, err = guarded(loss, x, b)
            want = mp * mse(a, b) + lp * float(oracle(inner, a, b, norm).sum(0).mean())
            ev.append(dict(op="approx", fn="mse-lpips", case=f"{case}-{mode}", ok=ok, tol=SCL, v=[rel(v.detach(), want, 1e-6)] if ok else []))
            if ok:
                v.backward()
                ev.append(dict(op="fact", fn="gradient-reaches-image", case=case, holds=x.grad is not None and bool(torch.isfinite(x.grad).all()) and bool((x.grad != 0).any())))
        ev.append(dict(op="fact", fn="lpips-network-frozen", case=case, holds=all(not p.requires_grad and p.grad is None for p in loss.parameters())))
        ev.append(dict(op="fact", fn="lpips-network-in-eval", case=case, holds=not any(m.training for m in inner.modules())))
        dflt.train()
        with torch.no_grad():
            v = dflt(a[:1], b[:1])
        want = 65025.0 * mse(a[:1], b[:1]) + float(oracle(dflt.lpips_model, a[:1], b[:1], True).sum(0).mean())
        ev.append(dict(op="approx", fn="mse-lpips-default", case=case, ok=True, tol=SCL, v=[rel(v, want, 1e-6)]))

        # the perceptual network itself
        with quiet():
            nf = NormFixLPIPS(net=net, lpips=bool(k % 2 == 0), spatial=False)
        nf.train()
        lin = bool(k % 2 == 0)
        want = oracle(nf, a, b, norm, lin)
        with torch.no_grad():
            v = nf(a, b, normalize=norm)
            v2, per = nf(a, b, retPerLayer=True, normalize=norm)
            sym = nf(b, a, normalize=norm)
            same = nf(a, a, normalize=norm)
        ev.append(dict(op="shape", fn="lpips-per-image", case=case, got=list(v.shape), want=[2, 1, 1, 1]))
        ev.append(dict(op="approx", fn="lpips-per-image", case=case, ok=True, tol=SCL, v=[rel(v.reshape(-1)[i], want.sum(0)[i], 1e-6) for i in range(2)]))
        ev.append(dict(op="approx", fn="lpips-layers", case=case, ok=len(per) == len(want), tol=SCL, v=[rel(per[j].reshape(-1)[i], want[j][i], 1e-5) for i in range(2) for j in range(len(want))]))
        ev.append(dict(op="fact", fn="lpips-same-with-layers", case=case, holds=torch.allclose(v, v2)))
        ev.append(dict(op="approx", fn="lpips-symmetric", case=case, ok=True, tol=100_000, v=[rel(sym.reshape(-1)[i], v.reshape(-1)[i], 1e-5) for i in range(2)]))
        ev.append(dict(op="fact", fn="lpips-zero-on-equal", case=case, holds=float(same.abs().max()) == 0.0))
        ev.append(dict(op="fact", fn="lpips-stays-in-eval", case=case, holds=not any(m.training for m in nf.modules())))
        with quiet():
            sp = NormFixLPIPS(net=net, lpips=lin, spatial=True)
        with torch.no_grad():
            v = sp(a, b, normalize=norm)
        ev.append(dict(op="shape", fn="lpips-spatial", case=case, got=list(v.shape), want=[2, 1, 40, 48]))
        # gradients with respect to either image are those of LPIPS
        with quiet():
            plain = __import__("lpips").LPIPS(net=net, lpips=lin, spatial=False)
        plain.load_state_dict(nf.state_dict())
        plain.eval()
        grads = []
        for mod in (nf, plain):
            xs = [a.clone().requires_grad_(True), b.clone().requires_grad_(True)]
            mod(*xs, normalize=norm).sum().backward()
            grads.append([torch.zeros_like(x) if x.grad is None else x.grad for x in xs])
        for side in (0, 1):
            g, w = grads[0][side], grads[1][side]
            idx = rng.sample(range(w.numel()), 12)
            ev.append(dict(op="approx", fn=f"lpips-gradient-{side}", case=case, ok=bool(w.abs().max() > 0), tol=20_000_000, v=[rel(g.reshape(-1)[i], w.reshape(-1)[i], float(w.abs().max())) for i in idx]))
        # features that vanish (or whose squares do): gradients stay finite
        conv = next(m for m in nf.net.modules() if isinstance(m, torch.nn.Conv2d))
        keepw, keepb = conv.weight.detach().clone(), conv.bias.detach().clone()
        for nm, sc, off in (("zero", 1.0, -1e3), ("tiny", 1e-30, 0.0)):
            with torch.no_grad():
                conv.weight.copy_(keepw * sc)
                conv.bias.copy_(keepb * sc + off)
            xs = [a.clone().requires_grad_(True), b.clone().requires_grad_(True)]
            y = nf(*xs, normalize=norm).sum()
            y.backward()
            ev.append(dict(op="fact", fn="gradient-finite-where-features-vanish", case=f"{case}-{nm}", holds=bool(torch.isfinite(y)) and all(x.grad is not None and bool(torch.isfinite(x.grad).all()) for x in xs)))
        with torch.no_grad():
            conv.weight.copy_(keepw)
            conv.bias.copy_(keepb)

        # functional metric
        for red in ("mean", "sum", "none"):
            x = a.clone().requires_grad_(True)
            with quiet():
                ok, v, err = guarded(lpips_fn, x, b, base_network=net, use_linear_calibration=lin, normalize=norm, reduction=red)
            w = want.sum(0)
            exp = {"mean": [w.mean()], "sum": [w.sum()], "none": list(w)}[red]
            ev.append(dict(op="approx", fn=f"lpips-function-{red}", case=case, ok=ok and v.numel() == len(exp), tol=SCL, v=[rel(p, q, 1e-6) for p, q in zip(v.detach().reshape(-1), exp)] if ok else []))
        with quiet():
            ok, v, err = guarded(lpips_fn, a, b, base_network=net, linear_weights_version="0.0", reduction="none")
            ref = NormFixLPIPS(net=net, version="0.0")
        w = oracle(ref, a, b, False, True, "0.0").sum(0)
        ev.append(dict(op="approx", fn="lpips-function-v00", case=case, ok=ok, tol=SCL, v=[rel(p, q, 1e-6) for p, q in zip(v.reshape(-1), w)] if ok else []))
        with torch.no_grad():
            v = ref(a, b)
        ev.append(dict(op="approx", fn="normfix-v00", case=case, ok=True, tol=SCL, v=[rel(p, q, 1e-6) for p, q in zip(v.reshape(-1), w)]))
        for nm, kw in [("lpips-net", dict(base_network="resnet")), ("lpips-version", dict(linear_weights_version="0.2")), ("lpips-reduction", dict(reduction="max"))]:
            with quiet():
                _, _, err = guarded(lpips_fn, a, b, **kw)
            ev.append(dict(op="refuse", fn=nm, case=case, err=err, want="ValueError"))
    ctx.validate("AdvLossTrace", ev)
    ctx.assumptions += ["feature networks are untrained (weights cannot be downloaded); calibration weights are the shipped ones", "costs compared to 2 decimals times the number of pixels, LPIPS to 0.2 %"]
