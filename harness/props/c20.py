"""C20 VCT: training loss, validation and test accounting of the video codec."""
import contextlib
import io
import math
import os
import sys

from .. import core
from ..core import fx, guarded


def run(ctx):
    import torch

    shims = os.path.join(core.VERIF, "harness", "shims")
    sys.path[:0] = [core.REPO + "/projects/torch_vct", core.REPO, shims]
    import model_lightning
    from datamodules.video_data_api import Scenes, VideoDataset
    from model_pipeline import VCTPipeline
    from omegaconf import DictConfig

    ctx.design("VctEval")
    ev, rng = [], ctx.rng
    gen = ctx.torch_gen(20)
    torch.set_default_dtype(torch.float64)
    rand = lambda *s: torch.rand(*s, generator=gen)  # noqa: E731
    SC = 1e4

    class Pipe(torch.nn.Module):
        """stand-in codec with known reconstruction, likelihoods and coded sizes"""

        def __init__(self, T, lik, offset, rec):
            super().__init__()
            self.p = torch.nn.Parameter(torch.full((T,), float(offset)))
            self.q = torch.nn.Parameter(torch.zeros(T))
            self.bottleneck = torch.nn.Module()
            self.bottleneck.quantiles = torch.nn.Parameter(torch.zeros(3))
            self.frozen = torch.nn.Parameter(torch.zeros(2), requires_grad=False)
            self.lik, self.rec = lik, rec
            self._code_to_strings = None
            self.calls = []

        def forward(self, video):
            v = video.video_tensor
            self.calls.append(("forward", self._code_to_strings, torch.is_grad_enabled()))
            recon = v * self.rec + self.p.view(1, -1, 1, 1, 1)
            lik = self.lik * torch.exp(-self.q).view(-1, 1, 1, 1)
            return recon, [lik]

        compute_rate = VCTPipeline.compute_rate

        def compress_video(self, video, force_cpu=False):
            self._code_to_strings = True
            self.calls.append(("compress", force_cpu, torch.is_grad_enabled()))
            self.coded = video.video_tensor * 0.9 + 0.02
            return self.coded, list(self.bits)

        def decompress_video(self, shape, bottleneck_args=None, force_cpu=False):
            self.calls.append(("decompress", tuple(shape), bottleneck_args[0] is self.coded and len(bottleneck_args) == 1))
            return bottleneck_args[0] * self.gain - 0.05

    def psnr(a, b, rng_):
        mse = ((a - b) ** 2).mean(dim=(2, 3, 4))
        return float((10 * torch.log10(rng_ * rng_ / mse)).mean())

    def eight(x):
        return torch.floor((x * 255 + 0.5).clamp(0, 255))

    def record(mod):
        return {n: (float(v.detach()) if hasattr(v, "detach") else float(v)) for n, v, k in mod._rec["log"]}

    for k in range(ctx.pick(60, 500)):
        B, T, H, W = rng.choice([1, 2, 3]), rng.choice([1, 2, 3, 5]), rng.choice([4, 8]), rng.choice([4, 6])
        lam = rng.choice([1e-3, 1e-2, 3e-4])
        N = 2
        lik = 0.05 + 0.9 * rand(T, 2 * B, N, 3)
        if k % 2:  # improbable symbols, down to the entropy models' 1e-9
            rare = rand(*lik.shape) < 0.3
            lik = torch.where(rare, 2.0 ** (-29.8 * rand(*lik.shape)), lik)
        pipe = Pipe(T, lik, rng.choice([0.05, 0.2, -0.1, 0.6]), rng.choice([1.0, 0.8, 1.3]))
        cfg = DictConfig(dict(optim=dict(_target_="torch.optim.Adam", lr=0.01), scheduler=dict(_target_="torch.optim.lr_scheduler.StepLR", step_size=3),
                              training_loop=dict(lr_annealing_frequency=7, distortion_lambda=lam)))
        mod = model_lightning.VCTModule(pipe, cfg)
        v = rand(B, T, 3, H, W)
        keep = v.clone()
        case = f"b{B}-t{T}-{H}x{W}-lam{lam}-{k}"
        for kind in ("train", "val"):
            mod._rec["log"].clear()
            before = [p.detach().clone() for p in mod.parameters()]
            for p in mod.parameters():
                p.grad = None
            if kind == "train":
                ok, ret, err = guarded(mod.training_step, VideoDataset(v), k)
                if ok:
                    ret.backward()
            else:
                with torch.no_grad():
                    ok, ret, err = guarded(mod.validation_step, VideoDataset(v), k)
            recon = (v * pipe.rec + pipe.p.view(1, -1, 1, 1, 1)).detach()
            mse = ((recon - v) ** 2).mean(dim=(0, 2, 3, 4))
            bpp = -torch.log2(lik).sum(dim=(1, 2, 3)) / (B * H * W)
            lg = record(mod)
            pre = "" if kind == "train" else "val_"
            g = lambda n: lg.get(pre + n, math.nan)  # noqa: E731
            gunit = lik[0].numel() / (B * H * W) / math.log(2.0) / T
            e = dict(op="step", case=f"{case}-{kind}", err=err, pre=pre, names=sorted(lg), mse=[fx(x, 1e7) for x in mse], dist=[fx(lam * 65025 * x, SC) for x in mse], bits=[fx(x, SC) for x in bpp],
                     log=dict(mse=fx(g("distortion_loss") * T, 1e7), rate=fx(g("rate_loss") * T, SC), comb=fx(g("combined_loss") * T, SC), weighted=fx(g("combined_loss_weighted") * T, SC),
                              psnr=fx(g("PSNR"), 1e4), psnr8=fx(g("PSNR_int"), 1e4)),
                     ret=fx(float(ret.detach()) * T, SC) if ok and ret is not None else 0, psnr=fx(psnr(recon, v, 1.0), 1e4), psnr8=fx(psnr(eight(recon), eight(v), 255.0), 1e4),
                     grad=[fx(x, 1e5) for x in pipe.q.grad] if kind == "train" and pipe.q.grad is not None else [0] * T, gunit=fx(gunit, 1e5), gtol=30,
                     still=all(torch.equal(a, b) for a, b in zip(before, mod.parameters())) and torch.equal(v, keep))
            ev.append(e)
            if kind == "train" and ok and pipe.p.grad is not None:
                want = [(1 if t == 0 else 10) / T * lam * 65025 * 2 * float((recon - v)[:, t].mean()) for t in range(T)]
                ev.append(dict(op="approx", fn="gradient-of-the-distortion", case=e["case"], ok=True, tol=1000, v=[core.rel(a, b, 1e-6) for a, b in zip(pipe.p.grad, want)]))
        # ---- optimiser and schedule
        conf = mod.configure_optimizers()
        ids = [id(p) for g_ in conf["optimizer"].param_groups for p in g_["params"]]
        ev.append(dict(op="fact", fn="optimiser-has-the-trainable-non-quantile-parameters", case=case, holds=sorted(ids) == sorted([id(pipe.p), id(pipe.q)])))
        sch = conf["lr_scheduler"]
        ev.append(dict(op="fact", fn="schedule-per-step", case=case, holds=sch["interval"] == "step" and sch["frequency"] == 7 and sch["scheduler"].optimizer is conf["optimizer"]))
        # ---- rate per frame and in total
        r = mod.rate_loss(VideoDataset(v), [lik], per_frame=True)
        r2 = mod.rate_loss(VideoDataset(v), [lik], per_frame=False)
        ev.append(dict(op="approx", fn="rate-per-frame", case=case, ok=True, tol=20, v=[core.rel(a, b) for a, b in zip(r, bpp)] + [core.rel(r2, float(bpp.sum()) / T)]))
        # ---- test
        if T >= 2:
            vt = rand(1, T, 3, H, W)
            pipe.lik = 0.05 + 0.9 * rand(T, 2, N, 3)
            pipe.bits = [float(rng.randrange(0, 4000)) for _ in range(T)]
            pipe.gain = rng.choice([1.15, 0.6, 1.5])
            pipe._code_to_strings = rng.choice([None, True, False])  # left over from earlier use
            mod.eval()
            fwd = k % 3 != 0
            mod._rec["log"].clear()
            pipe.calls.clear()
            with contextlib.redirect_stdout(io.StringIO()):
                ok, ret, err = guarded(mod.test_step, VideoDataset(vt), k) if k % 2 and fwd else guarded(mod.test_step, VideoDataset(vt), k, run_fwd=fwd)
            lg = record(mod)
            dec = ((vt * 0.9 + 0.02) * pipe.gain - 0.05).clamp(0, 1)
            rec = (vt * pipe.rec + pipe.p.detach().view(1, -1, 1, 1, 1)).clamp(0, 1)
            px = H * W
            one = lambda a, b: 10 * math.log10(255.0 ** 2 / float(((eight(a) - eight(b)) ** 2).mean()))  # noqa: E731
            cb = -torch.log2(pipe.lik).sum(dim=(1, 2, 3))
            g = lambda n: lg.get(n, math.nan)  # noqa: E731
            fw = [c for c in pipe.calls if c[0] == "forward"]
            de = [c for c in pipe.calls if c[0] == "decompress"]
            ev.append(dict(op="test", case=f"{case}-test-{fwd}", err=err, fwd=fwd, names=sorted(lg), bits=[fx(b / px, 1e5) for b in pipe.bits], cbits=[fx(b / px, 1e5) for b in cb], tol=T + 6,
                           log=dict(bpp=fx(g("bpp"), 1e5), bppx=fx(g("bpp_xfirst"), 1e5), crate=fx(g("cts_rate"), 1e5), cratex=fx(g("cts_rate_x1"), 1e5), psnr=fx(g("psnt_int"), 1e4), cpsnr=fx(g("cts_psnr"), 1e4)),
                           psnr=fx(one(dec, vt), 1e4), cpsnr=fx(one(rec, vt), 1e4), ret=ok and [fx(x, 1e6) for x in ret] == [fx(g(n), 1e6) for n in ("psnt_int", "bpp", "bpp_xfirst")],
                           strings=any(bool(c[1]) for c in fw), fed=len(de) == 1 and de[0][1] == tuple(vt.shape) and de[0][2], nograd=not any(c[2] for c in pipe.calls if c[0] != "decompress")))
            ok, _, err = guarded(mod.test_step, VideoDataset(rand(2, T, 3, H, W)), 0)
            ev.append(dict(op="fact", fn="test-refuses-batches", case=case, holds=not ok))
            mod.train()
            ok, _, err = guarded(mod.test_step, VideoDataset(vt), 0)
            ev.append(dict(op="fact", fn="test-refuses-training-mode", case=case, holds=not ok))
        # ---- video containers
        d = VideoDataset(v)
        ev.append(dict(op="fact", fn="video-shape", case=case, holds=tuple(d.shape) == (B, T, 3, H, W) and d.num_frames == T and d.batch_size == B and tuple(d.spatial_shape) == (H, W)))
        for bad in (v[:, :, :2], v[0], v.unsqueeze(0)):
            ok, _, err = guarded(VideoDataset(bad).validate_shape)
            ev.append(dict(op="refuse", fn="bad-video-shape", case=case, err=err, want="ValueError"))
        ok, _, err = guarded(d.validate_shape)
        ev.append(dict(op="refuse", fn="good-video-shape", case=case, err=err, want=""))
        s = Scenes(v.float())
        ok, it, err = guarded(s.get_scenes_iter)
        it = list(it) if ok else []
        ev.append(dict(op="fact", fn="scenes-in-order", case=case, holds=len(it) == T == s.num_scenes and s.batch_size == B and tuple(s.spatial_shape) == (H, W) and all(torch.equal(x, v.float()[:, t]) for t, x in enumerate(it))))
        for bad in (v, v.float()[0], v.half()):
            ok, _, err = guarded(Scenes(bad).get_scenes_iter)
            ev.append(dict(op="refuse", fn="bad-scenes", case=case, err=err, want="ValueError"))
    ctx.validate("VctEvalTrace", ev)
