"""C19 DVC: staged training and validation on groups of pictures."""
import copy
import math
import os
import sys
import types

from .. import core
from ..core import fx, guarded


def run(ctx):
    import torch
    import torch.nn.functional as F

    shims = os.path.join(core.VERIF, "harness", "shims")
    sys.path[:0] = [core.REPO, shims, core.REPO + "/projects/deep_video_compression"]
    import torchmetrics

    if not hasattr(torchmetrics, "PSNR"):
        torchmetrics.PSNR = torchmetrics.image.PeakSignalNoiseRatio
    import compressai.zoo as cz
    import dvc_module

    from neuralcompression.models import DVC
    from neuralcompression.models import deep_video_compression as dv

    torch.set_num_threads(2)
    torch.set_default_dtype(torch.float64)
    ctx.design("DvcTrain")
    ev = []
    rng = ctx.rng
    gen = ctx.torch_gen(19)
    rand = lambda *s: torch.rand(*s, generator=gen)  # noqa: E731
    seen = []

    class Estimator(dv.DVCPyramidFlowEstimator):
        def calculate_flow_with_image_pairs(self, image1, image2):
            seen.append(image1.detach().clone())
            return super().calculate_flow_with_image_pairs(image1, image2)

    class Bottleneck(torch.nn.Module):
        """deterministic stand-in: perturbation, likelihood with a learned scale, quantiles"""

        def __init__(self, c):
            super().__init__()
            self.scale = torch.nn.Parameter(torch.full((1, c, 1, 1), 0.7))
            self.quantiles = torch.nn.Parameter(torch.linspace(-2, 2, c * 3).view(c, 1, 3))
            self.updated = []

        def forward(self, x):
            y = x + 0.1 * torch.sin(3 * x)
            return y, (0.05 + 0.9 * torch.exp(-self.scale * y * y)).clamp(max=1.0)

        def loss(self):
            return (self.quantiles ** 2).sum() * 0.3

        def update(self, force=False):
            self.updated.append(force)
            return bool(force)

    class IFrame(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.w = torch.nn.Parameter(torch.tensor(0.8))
            self.register_buffer("k", torch.tensor([0.1, 0.05, 0.0]).view(1, 3, 1, 1))

        def update(self, *a, **k):
            return True

        def forward(self, x):
            h = (x * self.w + self.k).clamp(0, 1)
            return {"x_hat": h, "likelihoods": {"y": 0.3 + 0.2 * h[:, :1], "z": torch.full((x.shape[0], 2, 1, 1), 0.25)}}

    made = []

    def factory(quality, pretrained=False, **k):
        made.append((quality, pretrained))
        return IFrame()

    cz.models["verif-iframe"] = factory
    PARTS = dict(estimator="motion_estimator", mencoder="motion_encoder", mbottleneck="motion_entropy_bottleneck", mdecoder="motion_decoder",
                 compensation="motion_compensation", rencoder="residual_encoder", rbottleneck="residual_entropy_bottleneck", rdecoder="residual_decoder")
    STAGES = {1: "1_motion_estimation", 2: "2_motion_compression", 3: "3_motion_compensation", 4: "4_total_2frame", 5: "5_total"}

    def build():
        return DVC(motion_estimator=Estimator(filter_counts=[4, 2], kernel_size=3, levels=rng.choice([1, 2, 3])),
                   motion_encoder=dv.DVCCompressionEncoder(filter_channels=4, out_channels=3, num_conv_layers=2),
                   motion_entropy_bottleneck=Bottleneck(3), motion_decoder=dv.DVCCompressionDecoder(in_channels=3, filter_channels=4, num_conv_layers=2),
                   motion_compensation=dv.DVCMotionCompensationModel(model_channels=4, num_levels=2),
                   residual_encoder=dv.DVCCompressionEncoder(in_channels=3, filter_channels=4, out_channels=3, num_conv_layers=2),
                   residual_entropy_bottleneck=Bottleneck(3),
                   residual_decoder=dv.DVCCompressionDecoder(in_channels=3, filter_channels=4, out_channels=3, num_conv_layers=2))

    def warp(img, flow):
        n, h, w = flow.shape[0], flow.shape[2], flow.shape[3]
        ys = torch.linspace(-1, 1, h).view(1, h, 1).expand(n, h, w)
        xs = torch.linspace(-1, 1, w).view(1, 1, w).expand(n, h, w)
        return F.grid_sample(img, torch.stack([xs + flow[:, 0], ys + flow[:, 1]], -1), padding_mode="border", align_corners=False)

    def bits(p):
        return -torch.log(p).sum() / math.log(2.0)

    def frame_terms(m, stage, i1, i2, lam):
        """distortion, flow bpp, residual bpp, estimate - written from the property"""
        px = i1.shape[0] * i1.shape[-1] * i1.shape[-2]
        if stage == 1:
            flow, pairs = dv.DVCPyramidFlowEstimator.calculate_flow_with_image_pairs(m.motion_estimator, i1, i2)
            d = sum(lam * ((a - b) ** 2).mean() for a, b in pairs) / len(pairs)
            return d, None, None, warp(i1, flow)
        y, s = m.motion_encoder(dv.DVCPyramidFlowEstimator.calculate_flow_with_image_pairs(m.motion_estimator, i1, i2)[0])
        y, py = m.motion_entropy_bottleneck(y)
        flow = m.motion_decoder(y, s)
        est = warp(i1, flow)
        if stage >= 3:
            est = m.motion_compensation(i1, est, flow)
        fb, rb = bits(py) / px, None
        if stage >= 4:
            z, s2 = m.residual_encoder(i2 - est)
            z, pz = m.residual_entropy_bottleneck(z)
            est = est + m.residual_decoder(z, s2)
            rb = bits(pz) / px
        return lam * ((est - i2) ** 2).mean(), fb, rb, est

    def named(m, quant):
        return {n: p for n, p in m.named_parameters() if n.endswith("quantiles") == quant and p.requires_grad}

    weights = rand(3, 64, 64)

    def print_of(img):
        return [fx((im * weights[:, :im.shape[-2], :im.shape[-1]]).sum(), 1e4) for im in img]

    def own(stage):
        k = {1: 1, 2: 4, 3: 5}.get(stage, 8)
        return list(PARTS)[:k]

    SC = 1e5
    for k in range(ctx.pick(60, 400)):
        stage = 1 + k % 5
        n = rng.choice([1, 2, 3, 4])
        h, w, b = rng.choice([8, 9, 12, 15]), rng.choice([8, 10, 13]), rng.choice([1, 2, 3])
        lam = rng.choice([1.0, 16.0, 256.0])
        lr, aux, clip = rng.choice([1e-2, 3e-3]), rng.choice([1e-1, 2e-2]), rng.choice([1.0, 0.05, 100.0])
        sched = rng.choice([None, dict(step_size=1, gamma=0.5)])
        torch.manual_seed(ctx.seed * 1000 + k)
        model = build()
        made.clear()
        extra = {} if clip == 1.0 else dict(grad_clip_value=clip)
        mod = dvc_module.DvcModule(model, STAGES[stage], "verif-iframe", 3, num_pframes=n, distortion_lambda=lam, learning_rate=lr, aux_learning_rate=aux,
                                   lr_scheduler_params=sched, **extra)
        case = f"stage{stage}-n{n}-{b}x{h}x{w}-lam{lam}-clip{clip}-{'sched' if sched else 'plain'}-{k}"
        ev.append(dict(op="fact", fn="pretrained-iframe-model", case=case, holds=made == [(3, True)]))
        # ---- which parameters each optimiser has
        confs = mod.configure_optimizers()
        confs = confs if isinstance(confs, (list, tuple)) else [confs]
        opts = [c["optimizer"] for c in confs]
        schs = [c["lr_scheduler"] for c in confs if "lr_scheduler" in c]
        part_params = lambda m, q: {id(p) for name in own(stage) for nm, p in getattr(m, PARTS[name]).named_parameters() if nm.endswith("quantiles") == q}  # noqa: E731
        got = [{id(p) for g in o.param_groups for p in g["params"]} for o in opts]
        ev.append(dict(op="fact", fn="optimiser-has-exactly-the-stages-parameters", case=case, holds=got[0] == part_params(model, False) and abs(opts[0].param_groups[0]["lr"] - lr) < 1e-12))
        ev.append(dict(op="fact", fn="quantile-optimiser", case=case, holds=(len(opts) == 1 if stage == 1 else len(opts) == 2 and got[1] == part_params(model, True) and abs(opts[1].param_groups[0]["lr"] - aux) < 1e-12)))
        ev.append(dict(op="fact", fn="scheduler-configured", case=case, holds=len(schs) == (1 if sched else 0)))
        steps, scount = {i: [] for i in range(len(opts))}, []
        for i, o in enumerate(opts):
            def wrapped(*a, _o=o, _i=i, _s=o.step, **kw):
                steps[_i].append({id(p): (None if p.grad is None else p.grad.clone()) for g in _o.param_groups for p in g["params"]})
                return _s(*a, **kw)
            o.step = wrapped
        for s in schs:
            real = s.step

            def stepped(*a, _r=real, **kw):
                scount.append(1)
                return _r(*a, **kw)
            s.step = stepped
        object.__setattr__(mod, "_opts", (opts, schs or [None]))
        ref = copy.deepcopy(model)
        rparams = {q: [p for name in own(stage) for nm, p in getattr(ref, PARTS[name]).named_parameters() if nm.endswith("quantiles") == q] for q in (False, True)}
        mparams = {q: [p for name in own(stage) for nm, p in getattr(model, PARTS[name]).named_parameters() if nm.endswith("quantiles") == q] for q in (False, True)}
        ropt = torch.optim.Adam(rparams[False], lr=lr)
        ropt2 = torch.optim.Adam(rparams[True], lr=aux) if rparams[True] else None
        rsch = torch.optim.lr_scheduler.StepLR(ropt, **sched) if sched else None
        # ---- a short history of training and validation batches
        for si, kind in enumerate(rng.choice([["train", "val"], ["val", "train"], ["train", "train", "val"], ["val", "val"]])):
            train = kind == "train"
            batch = rand(b, n + 1, 3, h, w)
            keep = batch.clone()
            for i in steps:
                steps[i].clear()
            scount.clear()
            seen.clear()
            mod._rec["log"].clear()
            losses = []
            real_bw = type(mod).manual_backward

            def bw(loss, *a, **kw):
                losses.append(float(loss.detach()))
                return real_bw(mod, loss, *a, **kw)
            object.__setattr__(mod, "manual_backward", bw)
            before = {nm: p.detach().clone() for nm, p in model.named_parameters()}
            ibefore = mod.iframe_model.w.detach().clone()
            if not train:
                for p in model.parameters():
                    p.grad = None
            if train:
                # stale gradients from elsewhere must not leak into the update
                for p in model.parameters():
                    p.grad = torch.full_like(p, 3.0)
                ok, _, err = guarded(mod.training_step, batch, si)
            else:
                with torch.no_grad():
                    ok, _, err = guarded(mod.validation_step, batch, si)
            # ---- reference
            io = mod.iframe_model(keep[:, 0])
            px = b * h * w
            ibpp = float(sum(bits(v) for v in io["likelihoods"].values()) / px)
            i1 = io["x_hat"].detach()
            want = dict(loss=[], dist=[], flow=[], resid=[], refs=[])
            ests, gdiff = [], []
            for i in range(n):
                i2 = keep[:, i + 1]
                want["refs"] += print_of(i1)
                d, fb, rb, est = frame_terms(ref, stage, i1, i2, lam)
                loss = d + (fb if fb is not None else 0) + (rb if rb is not None else 0)
                want["loss"].append(fx(loss, SC))
                want["dist"].append(fx(d, SC))
                want["flow"].append(fx(fb, SC) if fb is not None else 0)
                want["resid"].append(fx(rb, SC) if rb is not None else 0)
                ests.append(est.detach())
                if train:
                    ropt.zero_grad()
                    loss.backward()
                    torch.nn.utils.clip_grad_norm_(rparams[False], clip)
                    if i < len(steps[0]):
                        snap = steps[0][i]
                        worst = 0.0
                        for pm, pr in zip(mparams[False], rparams[False]):
                            g1 = snap.get(id(pm))
                            g1 = torch.zeros_like(pr) if g1 is None else g1
                            g2 = torch.zeros_like(pr) if pr.grad is None else pr.grad
                            worst = max(worst, float((g1 - g2).abs().max()))
                        gdiff.append(fx(worst, 1e7))
                    ropt.step()
                i1 = est.detach()
            if train:
                if rsch is not None:
                    rsch.step()
                if ropt2 is not None:
                    ropt2.zero_grad()
                    ql = ref.motion_entropy_bottleneck.loss() + (ref.residual_entropy_bottleneck.loss() if stage >= 4 else 0)
                    ql.backward()
                    worst = 0.0
                    if len(steps.get(1, [])) == 1:
                        for pm, pr in zip(mparams[True], rparams[True]):
                            g1 = steps[1][0].get(id(pm))
                            worst = max(worst, float(((0 if g1 is None else g1) - pr.grad).abs().max()))
                    gdiff.append(fx(worst, 1e7))
                    ropt2.step()
            pse = torch.cat(ests)
            tgt = torch.cat([keep[:, i + 1] for i in range(n)])
            psnr = -10 * math.log10(float(((pse - tgt) ** 2).mean()))
            moved, qmoved = set(), set()
            for name, attr in PARTS.items():
                for nm, p in getattr(model, attr).named_parameters():
                    # (GDN layers project their parameters onto their constraints when applied)
                    lo = 0.0 if nm.endswith("gamma") else 1e-6 if nm.endswith("beta") else -math.inf
                    if not torch.equal(before[f"{attr}.{nm}"].clamp(min=lo), p.clamp(min=lo)):
                        (qmoved if nm.endswith("quantiles") else moved).add(name)
            if not torch.equal(ibefore, mod.iframe_model.w):
                moved.add("iframe")
            logs, plain = {}, True
            valloss = None
            pre = f"{STAGES[stage]}/{kind}_"
            for nm, v, kw in mod._rec["log"]:
                if nm == "val_loss":
                    valloss = float(v)
                    continue
                plain = plain and nm.startswith(pre)
                key = nm.split("_", 3)[-1] if False else nm[len(pre):]
                logs[key] = float(v.compute()) if hasattr(v, "compute") else float(v)
            if hasattr(mod, "psnr"):
                mod.psnr.reset()
            diff = 0.0
            for pm, pr in zip(mparams[False] + mparams[True], rparams[False] + rparams[True]):
                diff = max(diff, float((pm - pr).abs().max()))
            full = f"{case}.{si}-{kind}"
            e = dict(op="gop", case=full, err=err, stage=stage, n=n, train=train, moved=sorted(moved), qmoved=sorted(qmoved), updates=len(steps[0]), qupdates=len(steps.get(1, [])),
                     sched=len(scount), hassched=bool(sched), refs=sum((print_of(x) for x in seen[:n]), []), wantrefs=want["refs"], losses=[fx(x, SC) for x in losses[:n]], wantlosses=want["loss"],
                     grads=gdiff, untouched=torch.equal(batch, keep), names=sorted(logs), prefix=plain, dist=want["dist"], flow=want["flow"], resid=want["resid"], ibpp=fx(ibpp, SC),
                     log=dict(loss=fx(logs.get("gop_loss", math.nan), SC), dist=fx(logs.get("gop_distortion_loss", math.nan), SC), bpp=fx(logs.get("gop_bpp", math.nan), SC),
                              flow=fx(logs.get("gop_flow_bpp", math.nan), SC), resid=fx(logs.get("gop_residual_bpp", math.nan), SC), psnr=fx(logs.get("psnr", math.nan), 1e4),
                              val=fx(valloss if valloss is not None else math.nan, SC)), wantpsnr=fx(psnr, 1e4))
            ev.append(e)
            if not ok:
                break
            ev.append(dict(op="between", fn="parameters-after-step", case=full, lo=0, hi=100, v=[fx(diff, 1e8)]))
            ctx.replayed += 1
        # ---- the trained parts go back into the model
        other = build()
        rest = {name: getattr(other, attr) for name, attr in PARTS.items()}
        out = mod.recompose_model(other)
        good = all(getattr(out, PARTS[p]) is getattr(model, PARTS[p]) for p in own(stage))
        if stage < 4:
            good = good and out is other and all(getattr(out, PARTS[p]) is rest[p] for p in PARTS if p not in own(stage))
        ev.append(dict(op="fact", fn="recomposed-model-has-the-trained-parts", case=case, holds=good))
        model.motion_entropy_bottleneck.updated.clear()
        model.residual_entropy_bottleneck.updated.clear()
        for force in (True, False):
            mod.update(force=force)
        ev.append(dict(op="fact", fn="update-reaches-the-stages-bottlenecks", case=case,
                       holds=model.motion_entropy_bottleneck.updated == ([True, False] if stage >= 2 else []) and model.residual_entropy_bottleneck.updated == ([True, False] if stage >= 4 else [])))
    # ---- frozen parameters are left out
    model = build()
    for p in model.motion_encoder.parameters():
        p.requires_grad_(False)
    mod = dvc_module.DvcModule(model, STAGES[5], "verif-iframe", 3)
    ids = {id(p) for c in mod.configure_optimizers() for g in c["optimizer"].param_groups for p in g["params"]}
    ev.append(dict(op="fact", fn="frozen-parameters-left-out", case="frozen", holds=not any(id(p) in ids for p in model.motion_encoder.parameters()) and id(model.residual_encoder.layers[0].weight) in ids))
    for bad, kw in (("4_total", {}), ("6", {}), ("5_total", dict(distortion_type="MS-SSIM"))):
        ok, _, err = guarded(dvc_module.DvcModule, build(), bad, "verif-iframe", 3, **kw)
        ev.append(dict(op="refuse", fn="unknown-stage-or-distortion", case=f"{bad}-{kw}", err=err, want="ValueError"))
    ctx.validate("DvcTrainTrace", ev)
