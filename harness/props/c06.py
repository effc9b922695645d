"""C06 video codec streaming: encoder and decoder states stay in step."""
import copy
import inspect
import sys

from .. import core
from ..core import digest, fx


def load():
    root = core.REPO + "/projects/torch_vct"
    if root not in sys.path:
        sys.path.insert(0, root)
    import model_pipeline
    import neural.entropy_model as em
    from datamodules.video_data_api import Scenes, VideoDataset
    import utils.memoize as memo

    # small entropy models wherever the pipeline leaves sizes at their defaults
    f = em.VCTEntropyModel.__init__
    tiny = dict(window_size_enc=4, window_size_dec=2, num_layers_encoder_sep=1, num_layers_encoder_joint=1,
                num_layers_decoder=1, d_model=8, num_head=2)
    ps = [p for p in inspect.signature(f).parameters.values() if p.default is not inspect._empty]
    f.__defaults__ = tuple(tiny.get(p.name, p.default) for p in ps)
    return model_pipeline, em, Scenes, VideoDataset, memo


def run(ctx):
    import torch
    import torch.nn as nn

    mp, em, Scenes, VideoDataset, memo = load()
    from neural.bottlenecks import GsnConditionalLocScaleShift as Gsn

    ctx.design("VctStream")
    ctx.design("VctStream", "VctStream3.cfg")
    ev = []
    rng, g = ctx.rng, ctx.torch_gen(6)

    class Ana(nn.Module):
        """per-frame transform with a downsampling factor of 2**down"""

        def __init__(self, ch, down):
            super().__init__()
            self.compression_channels, self.num_downsampling_layers = ch, down
            self.c = nn.Conv2d(3, ch, 2 ** down, stride=2 ** down)
            with torch.no_grad():
                self.c.weight.mul_(6)

        def forward(self, v):
            y = self.c(v.reshape(-1, *v.shape[2:]))
            return y.reshape(*v.shape[:2], *y.shape[1:])

    class Syn(nn.Module):
        def __init__(self, ch, down):
            super().__init__()
            self.compression_channels = ch
            self.c = nn.ConvTranspose2d(ch, 3, 2 ** down, stride=2 ** down)

        def forward(self, x, shape):
            y = self.c(x.reshape(-1, *x.shape[2:]))
            return y.reshape(*x.shape[:2], *y.shape[1:])[..., :shape[-2], :shape[-1]]

    def build(seed, ch, n, down):
        torch.manual_seed(seed)
        p = mp.VCTPipeline(Ana(ch, down), Syn(ch, down), ch, context_len=n)
        with torch.no_grad():
            for nme, q in p.named_parameters():
                if q.dim() == 2 and "entropy_model" in nme:
                    q.mul_(3.0)
        p.entropy_model.bottleneck = Gsn(num_scales=16, num_means=5)
        p.entropy_model.update(force=True)
        p.eval()
        return p

    cfgs = [(2, 2, 3), (3, 1, 2), (2, 3, 3)]
    sizes = [(16, 16), (24, 16), (17, 30), (40, 33), (31, 32)]
    for ci, (ch, n, down) in enumerate(cfgs):
        pipe = build(ctx.seed * 7 + ci, ch, n, down)
        f = 2 ** down
        for k in range(ctx.pick(5, 30)):
            B, T = (1, 2, 1, 1, 2)[k % 5], rng.choice([1, 2, 3, 4, 5, 6])
            H, W = sizes[k % len(sizes)]
            x = torch.randn(B, T, 3, H, W, generator=g) * 2
            case = f"cfg{ci}-n{n}-{B}x{T}x{H}x{W}-{k}"
            with torch.no_grad():
                # ---- latents and contexts, with and without a cache
                lat = pipe.analysis_transform(torch.nn.functional.pad(x, (0, -W % f, 0, -H % f, 0, 0), "reflect")
                                              if (H % f or W % f) else x)
                if min(lat.shape[-2:]) <= 1:
                    continue
                want = [digest(torch.round(lat[:, t]) + 0.0) for t in range(T)]
                ctxs = []
                h = pipe.entropy_model.register_forward_pre_hook(
                    lambda m, a, kw: ctxs.append([digest(torch.round(q.quantized) + 0.0) if len(ctxs) else digest(q.quantized)
                                                  for q in (kw.get("previous_latents") or a[1])]), with_kwargs=True)
                scenes = Scenes(lat)
                ok, outs, err = core.guarded(lambda: list(pipe.encode_scenes(scenes, cache=None)))
                h.remove()
                e = dict(op="stream", case=case + "-stream", ok=ok, err=err, T=T, n=n, nrec=0, ctxs=ctxs, pad="", lat=[], want=want,
                         cached="", uncached="", rec="", redecoded="", lik1="", lik2="")
                if ok:
                    tok = pipe._temporal_pad_token_maker(lat[:, 0].shape) if hasattr(pipe, "_temporal_pad_token_maker") else None
                    e["pad"] = digest(tok) if tok is not None else (ctxs[0][0] if ctxs else "")
                    a = list(pipe.encode_and_decode_scenes(scenes, cache=memo.create_cache()))
                    b = list(pipe.encode_and_decode_scenes(scenes, cache=None))
                    c = list(pipe.decode_scenes((o for o in outs), cache=None))
                    shared = memo.create_cache()
                    list(pipe.encode_and_decode_scenes(scenes, cache=shared))
                    a2 = list(pipe.encode_and_decode_scenes(scenes, cache=shared))
                    e.update(nrec=len(b), lat=[digest(torch.round(o.latent_q) + 0.0) for o in outs],
                             cached=digest(*[o.reconstruction for o in a], *[o.reconstruction for o in a2]),
                             uncached=digest(*[o.reconstruction for o in b], *[o.reconstruction for o in b]),
                             rec=digest(*[o.reconstruction for o in b]), redecoded=digest(*c),
                             lik1=digest(*[o.likelihood for o in a]), lik2=digest(*[o.likelihood for o in b]))
                ev.append(e)
                # ---- whole forward pass
                before = digest(x)
                ok, val, err = core.guarded(pipe, VideoDataset(x))
                e = dict(op="forward", case=case + "-fwd", ok=ok, err=err, inshape=list(x.shape), shape=[], nlik=0, solo=0, llo=0,
                         lhi=0, same=digest(x) == before)
                if ok:
                    rec, (lik,) = val
                    solo = 0.0
                    if B > 1:
                        for b_ in range(B):
                            one, _ = pipe(VideoDataset(x[b_:b_ + 1]))
                            solo = max(solo, float((one - rec[b_:b_ + 1]).abs().max()))
                    e.update(shape=list(rec.shape), nlik=int(lik.shape[0]), solo=fx(solo, 1e6), llo=1 if float(lik.min()) > 0 else 0,
                             lhi=fx(lik.max(), 1e6))
                ev.append(e)
                # ---- temporal reach
                if ok and T > 1:
                    for s in rng.sample(range(T), min(T, 2)):
                        x2 = x.clone()
                        x2[:, s] += 5 * torch.randn(x2[:, s].shape, generator=g)
                        rec2, _ = pipe(VideoDataset(x2))
                        ch_ = [t + 1 for t in range(T) if float((rec2[:, t] - rec[:, t]).abs().max()) > 1e-6]
                        ev.append(dict(op="reach", case=f"{case}-reach{s}", s=s + 1, n=n, T=T, changed=ch_))
                # ---- real coding
                if ok and B == 1 and lat.shape[-1] * lat.shape[-2] <= 40:
                    okc, val, err = core.guarded(pipe.compress_video, VideoDataset(x))
                    e = dict(op="compress", case=case + "-code", ok=okc, err=err, T=T, inshape=list(x.shape), bits=[], ideal=[], nstr=4,
                             err2="", shape=[], again=True)
                    e["err"] = 0 if okc else 1
                    if okc:
                        scn, bits = val
                        dec = pipe.decompress_video(x.shape, [scn])
                        val2 = pipe.compress_video(VideoDataset(x))
                        e.update(bits=[int(round(v)) for v in bits], ideal=[int(round(float(-q.double().log2().sum()))) for q in lik],
                                 err=fx((dec - rec).abs().max(), 1e6) if dec.shape == rec.shape else core.BIG, shape=list(dec.shape),
                                 again=bool(torch.equal(val2[0], scn) and val2[1] == bits))
                    ev.append(e)
                    # the pipeline forgets that it has coded
                    oka, val, err = core.guarded(pipe, VideoDataset(x))
                    ev.append(dict(op="after", case=case + "-after", ok=oka, err=err,
                                   same=oka and bool(torch.equal(val[0], rec) and torch.equal(val[1][0], lik))))
        with torch.no_grad():
            _, _, err = core.guarded(pipe.compress_video, VideoDataset(torch.randn(2, 2, 3, 16, 16)))
            ev.append(dict(op="reject", case=f"cfg{ci}-compress-batch2", err=err, want=["AssertionError", "ValueError"]))
            okf, val, err = core.guarded(pipe, VideoDataset(torch.randn(2, 2, 3, 16, 16)))
            ev.append(dict(op="after", case=f"cfg{ci}-after-refusal", ok=okf, err=err, same=okf and val[0].shape == (2, 2, 3, 16, 16)))
            for shp in ((2, 3, 16, 16), (1, 2, 4, 16, 16)):
                _, _, err = core.guarded(pipe, VideoDataset(torch.randn(*shp)))
                ev.append(dict(op="reject", case=f"cfg{ci}-shape{len(shp)}-{shp[-3]}", err=err, want=["ValueError"]))
    # ---- the shipped per-frame transforms
    from neural import transforms as tr

    for kind in ("gdn", "elic"):
        for k in range(ctx.pick(3, 10)):
            ch, B, T = rng.choice([4, 6, 8]), 1 + k % 2, rng.choice([2, 3])
            H, W = ((32, 48), (17, 33), (50, 20), (64, 16))[k % 4]
            torch.manual_seed(k)
            if kind == "gdn":
                mk = lambda mf: (tr.ConvGDNAnalysis(6, ch), tr.ConvGDNSynthesis(6, ch))  # noqa: E731
            else:
                mk = lambda mf: (tr.ELICAnalysis(1, [4, 4, 4, ch], max_frames=mf), tr.ELICSynthesis(1, [ch, 4, 4, 3], max_frames=mf))  # noqa: E731
            ok, pair, err = core.guarded(mk, None)
            e = dict(op="transform", case=f"{kind}-{ch}-{B}x{T}x{H}x{W}", ok=ok, err=err, ch=ch, B=B, T=T, h=H, w=W, ach=0, sch=0,
                     lshape=[], oshape=[], solo=0, solo2=0, chunk=0)
            if ok:
                ana, syn = pair
                x = torch.rand(B, T, 3, H, W, generator=g)
                with torch.no_grad():
                    y = ana(x)
                    z = syn(y, x.shape)
                    y1 = ana(x[:1, 1:2])
                    z1 = syn(y[:1, 1:2], x[:1, 1:2].shape)
                    e.update(ach=int(ana.compression_channels), sch=int(syn.compression_channels), lshape=list(y.shape), oshape=list(z.shape),
                             solo=fx((y1 - y[:1, 1:2]).abs().max(), 1e6), solo2=fx((z1 - z[:1, 1:2]).abs().max(), 1e6))
                    if kind == "elic":
                        a2, s2 = mk(B)
                        a2.load_state_dict(ana.state_dict())
                        s2.load_state_dict(syn.state_dict())
                        e["chunk"] = fx(max((a2(x) - y).abs().max(), (s2(y, x.shape) - z).abs().max()), 1e6)
            ev.append(e)
    # mismatched transforms are refused
    for a, b, c in ((2, 3, 2), (3, 2, 2), (2, 2, 3)):
        _, _, err = core.guarded(mp.VCTPipeline, Ana(a, 2), Syn(b, 2), c)
        ev.append(dict(op="reject", case=f"channels-{a}{b}{c}", err=err, want=["AssertionError", "ValueError"]))
    ctx.validate("VctStreamTrace", ev)
