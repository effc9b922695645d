"""Loads projects/illm modules under stand-ins for lightning/hydra/omegaconf and pretrained metrics,
and provides small deterministic stand-ins for model, discriminator and projector."""
import os
import sys
import types

from . import core


def _shim_path():
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "shims")
    if p not in sys.path:
        sys.path.insert(0, p)


def make_stub_metrics():
    """Weight-free replacements that remember the images they were given since reset."""
    import torch
    from torchmetrics import Metric

    class _Pair(Metric):
        """score = mean |a - b| over images (LPIPS / DISTS stand-in)"""
        full_state_update = False

        def __init__(self, *a, **k):
            super().__init__()
            self.kw = k
            self.given = []
            self.add_state("s", torch.tensor(0.0), dist_reduce_fx="sum")
            self.add_state("n", torch.tensor(0), dist_reduce_fx="sum")

        def update(self, a, b):
            self.s += (a - b).abs().flatten(1).mean(1).sum()
            self.n += a.shape[0]

        def compute(self):
            return self.s / self.n

    class _Sided(Metric):
        """remembers the uint8 images per side (FID / KID stand-in)"""
        full_state_update = False

        def __init__(self, *a, **k):
            super().__init__()
            self.kw = k
            self.real, self.fake = [], []

        def update(self, imgs, real):
            (self.real if real else self.fake).append(imgs.detach().clone())

        def compute(self):
            if not self.real:
                raise IndexError("empty")
            r = torch.cat([x.double().flatten(1).mean(1) for x in self.real]).sum()
            f = torch.cat([x.double().flatten(1).mean(1) for x in self.fake]).sum()
            return (r - f).abs() + len(self.real)

        def reset(self):
            super().reset()
            self.real, self.fake = [], []

    class _SidedPair(_Sided):
        def compute(self):
            v = super().compute()
            return v + 7, v

    return _Pair, _Sided, _SidedPair


def load():
    """import the three modules with stand-ins in place; returns a namespace"""
    _shim_path()
    import torchmetrics.image as tmi

    import neuralcompression.metrics as ncm

    P, S, SP = make_stub_metrics()
    for mod, name, c in [(tmi, "LearnedPerceptualImagePatchSimilarity", type("LPIPS", (P,), {})), (tmi, "FrechetInceptionDistance", type("FIDv", (S,), {})),
                         (ncm, "DeepImageStructureTextureSimilarity", type("DISTS", (P,), {})), (ncm, "FrechetInceptionDistance", type("FID", (S,), {})),
                         (ncm, "FrechetInceptionDistanceSwAV", type("FIDSwAV", (S,), {})), (ncm, "KernelInceptionDistance", type("KID", (SP,), {}))]:
        setattr(mod, name, c)
    sys.path.insert(0, core.REPO + "/projects/illm")
    import gan_compression_module as g
    import image_module as im
    import target_compression_module as t

    for m in (im,):
        for name in ("LearnedPerceptualImagePatchSimilarity", "FrechetInceptionDistance"):
            if hasattr(m, name):
                setattr(m, name, getattr(tmi, name))
    return types.SimpleNamespace(image=im, target=t, gan=g)


def make_stubs():
    import torch
    from torch import nn

    from neuralcompression import HyperpriorCompressedOutput, HyperpriorOutput

    class HB(nn.Module):
        def __init__(self):
            super().__init__()
            self.quantiles = nn.Parameter(torch.linspace(-1, 1, 6).view(2, 1, 3))
            self.w = nn.Parameter(torch.tensor([0.3, 0.7]))

        def loss(self):
            return ((self.quantiles - self.w.detach().view(2, 1, 1)) ** 2).sum()

    class Model(nn.Module):
        """deterministic; every output depends on the parameters"""

        def __init__(self, frozen=False, quantiles=True):
            super().__init__()
            self.enc = nn.Conv2d(3, 2, 2, stride=2)
            self.dec = nn.ConvTranspose2d(2, 3, 2, stride=2)
            self.hyper_bottleneck = HB()
            self.scale = nn.Parameter(torch.tensor(0.8))
            self.calls = []
            self.with_q = quantiles
            if frozen:
                for p in self.enc.parameters():
                    p.requires_grad_(False)
            if not quantiles:
                self.hyper_bottleneck.quantiles.requires_grad_(False)

        def forward(self, x):
            lat = self.enc(x)
            img = torch.sigmoid(self.dec(lat))
            like = torch.sigmoid(self.scale * lat + 0.5)
            hyper = lat.mean((2, 3), keepdim=True)
            hl = torch.sigmoid(hyper * self.hyper_bottleneck.w.view(1, 2, 1, 1) + self.scale)
            ql = (torch.sigmoid(1.5 * self.scale * lat.round() + 0.2) * 0.9).clamp(1e-3, 0.999)
            qh = (torch.sigmoid(hyper.round() - 0.3 * self.scale) * 0.9).clamp(1e-3, 0.999)
            return HyperpriorOutput(image=img, latent=lat, latent_likelihoods=like, quantized_latent_likelihoods=ql, hyper_latent=hyper,
                                    hyper_latent_likelihoods=hl, quantized_hyper_latent_likelihoods=qh)

        def collect_parameters(self):
            q = [self.hyper_bottleneck.quantiles] if self.with_q else []
            ids = {id(self.hyper_bottleneck.quantiles)}
            return [p for p in self.parameters() if id(p) not in ids and (p.requires_grad or getattr(p, "_opt", False))], q

        def update(self, *a, **k):
            self.calls.append("update")

        def update_tensor_devices(self, target):
            self.calls.append(target)

        def compress(self, x, force_cpu=True):
            self.calls.append(("compress", bool(force_cpu)))
            b = (x.clamp(0, 1) * 255).round().to(torch.uint8)
            return HyperpriorCompressedOutput([bytes(i.flatten().tolist()[:: 1 + k]) for k, i in enumerate(b)], ["h" * (3 + k) for k in range(len(b))], tuple(x.shape[-2:]), tuple(x.shape[-2:]))

        def decompress(self, c, force_cpu=True):
            self.calls.append(("decompress", bool(force_cpu)))
            h, w = c.image_size
            out = []
            for k, s in enumerate(c.latent_strings):
                t = torch.tensor(list(s), dtype=torch.float32).repeat_interleave(1 + k)[: 3 * h * w] / 255
                out.append(t.view(3, h, w) * 1.1 - 0.02)
            return torch.stack(out)

    class Disc(nn.Module):
        def __init__(self, conditional=True, classes=1):
            super().__init__()
            self.is_conditional = conditional
            self.c = nn.Conv2d(3, classes, 2, stride=2)
            self.k = nn.Conv2d(2, classes, 1) if conditional else None

        def forward(self, *a):
            assert len(a) == (2 if self.is_conditional else 1)
            y = self.c(a[0])
            return torch.tanh(y + self.k(a[1])) * 2 if self.is_conditional else torch.tanh(y) * 2

    class Projector(nn.Module):
        def __init__(self, classes):
            super().__init__()
            self.n = classes
            self.w = nn.Parameter(torch.ones(1), requires_grad=False)

        def forward(self, x):
            m = torch.nn.functional.avg_pool2d(x, 2).mean(1)
            return (m * 997).long() % self.n

    return types.SimpleNamespace(Model=Model, Disc=Disc, Projector=Projector)
