"""C12 vector quantisation bottleneck and VQ autoencoder."""
import math

from .. import core
from ..core import fx, rel


def _agg(bs):
    bs = list(bs)
    return "all" if all(bs) else "none" if not any(bs) else "mixed"


def run(ctx):
    import torch
    import torch.nn.functional as TF
    from neuralcompression import VqVaeAutoencoderOutput as Out
    from neuralcompression.layers import NormalizeLatent, ProjectLatent, VQBottleneck
    from neuralcompression.layers._q_bottleneck import QBottleneck
    from neuralcompression.models import VqVaeXCiTAutoencoder
    from neuralcompression.models._vqvae_projector import VqVaeProjector

    ctx.design("VqNearest", ctx.pick("VqNearest.cfg", "VqNearestBig.cfg"))
    ev, rng = [], ctx.rng
    g = ctx.torch_gen(12)

    def flat(t):  # (B, C, H, W) -> list of vectors in batch-row-column order
        return t.detach().double().permute(0, 2, 3, 1).reshape(-1, t.shape[1]).tolist()

    # ---- exact: integer codebooks, unnormalised
    for k in range(ctx.pick(60, 400)):
        dim, size = rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 3, 6, 17])
        b, h, w = rng.choice([(1, 1, 1), (2, 3, 5), (3, 1, 4), (1, 6, 2)])
        q = QBottleneck([size, 4], [dim, 2], normalize_codebook=False)
        book = [[rng.randint(-4, 4) for _ in range(dim)] for _ in range(size)]
        x = torch.randint(-5, 6, (b, dim, h, w), generator=g).float()
        with torch.no_grad():
            q.codebooks[0].copy_(torch.tensor(book).float())
        ok, o, err = core.guarded(lambda: q.quantize_vectors(preq_latents=x, codebook=q.codebooks[0]))
        e = dict(op="exact", case=f"grid{k}-K{size}-d{dim}", ok=ok, err=err, v=[[int(a) for a in r] for r in flat(x)], book=book, idx=[], out=[], d=[])
        if ok:
            e.update(idx=[int(i) + 1 for i in o.indices.reshape(-1).tolist()], out=[[int(a) for a in r] for r in flat(o.latent)],
                     d=[[int(round(a)) if abs(a - round(a)) < 1e-3 else -1 for a in r] for r in o.distances.tolist()])
            same = all(float(p) == int(p) for r in flat(o.latent) for p in r)
            ev.append(dict(op="fact", case=e["case"], fn="reconstruction-on-grid", holds=same))
            ev.append(dict(op="shape", case=e["case"], fn="latent", got=list(o.latent.shape), want=list(x.shape)))
        ev.append(e)

    # ---- real numbers through the public bottleneck, alone and inside its wrappers
    for k in range(ctx.pick(48, 300)):
        dim, size = rng.choice([2, 3, 4, 8, 16]), rng.choice([1, 2, 3, 5, 16, 64, 1000, 1024])
        b, h, w = rng.choice([(1, 1, 1), (1, 7, 5), (2, 4, 4), (3, 2, 9), (5, 1, 1)])
        kind = ["plain", "normalized", "projected", "both"][k % 4]
        vq = VQBottleneck(size, dim, init_distribution=rng.choice(["uniform", "normal"]))
        with torch.no_grad():
            if rng.random() < 0.5:
                vq.codebooks[0].mul_(rng.choice([0.1, 30.0]))
            if rng.random() < 0.3 and size > 1:
                vq.codebooks[0][0] = vq.codebooks[0][size - 1]
        mod, cin = vq, dim
        if kind in ("normalized", "both"):
            mod = NormalizeLatent(mod)
        if kind in ("projected", "both"):
            cin = rng.choice([dim, dim + 3, 2])
            mod = ProjectLatent(cin, dim, mod)
        x = (torch.randn(b, cin, h, w, generator=g) * rng.choice([0.3, 1.0, 4.0])).requires_grad_(True)
        case = f"vq{k}-{kind}-K{size}-d{dim}"
        keep = x.detach().clone()
        mod.train(k % 3 != 0)
        ok, o, err = core.guarded(lambda: mod(Out(latent=x)))
        want = int(b * h * w * math.log2(size) / 8 + 1e-9)
        e = dict(op="float", case=case, ok=ok, err=err, tol=60 * dim, idx=[], dist=[], bytes=0, wantbytes=want)
        e["err"] = []
        if ok:
            book = TF.normalize(vq.codebooks[0].detach().double(), dim=1)
            pre = o.prequantized_latent.detach().double()
            vec = pre.permute(0, 2, 3, 1).reshape(-1, dim)
            dist = ((vec.unsqueeze(1) - book.unsqueeze(0)) ** 2).sum(2)
            idx = o.indices.reshape(-1)
            rec = book[idx].reshape(b, h, w, dim).permute(0, 3, 1, 2)
            # what enters the quantiser
            ref = x.detach()
            if kind in ("projected", "both"):
                ref = TF.conv2d(ref, mod.input_conv.weight.detach(), mod.input_conv.bias.detach())
            if kind in ("normalized", "both"):
                ref = ref / ref.norm(dim=1, keepdim=True).clamp_min(1e-12)
            ev.append(dict(op="approx", case=case, fn="prequantized", ok=True, tol=20000, v=[rel(p, q, 1.0) for p, q in zip(o.prequantized_latent.reshape(-1)[:40].tolist(), ref.reshape(-1)[:40].tolist())]))
            lat = o.latent.detach().double()
            want_lat = rec
            if kind in ("projected", "both"):
                want_lat = TF.conv2d(rec.float(), mod.output_conv.weight.detach(), mod.output_conv.bias.detach()).double()
            near = dist.min(1).values
            keepk = min(size, 40)
            sub = torch.cat([idx.unsqueeze(1), torch.randint(0, size, (len(idx), keepk), generator=g)], 1)
            sub = torch.cat([sub, dist.argmin(1, keepdim=True)], 1)
            dd = dist.gather(1, sub)
            sc = 1e5 / max(1.0, float(dd.max()))
            e.update(idx=[1] * len(idx), dist=[[fx(v, sc * 10) for v in r] for r in dd.tolist()],
                     bytes=int(o.num_bytes), tol=60 + 6 * dim)
            e["err"] = [fx(v, 1e6) for v in ((lat - want_lat).abs().reshape(-1) / (1 + pre.abs().max())).tolist()][:200]
            if len(idx) <= 80 and size <= 64:
                ev.append(dict(op="approx", case=case, fn="distances", ok=tuple(o.quantize_distances.shape) == (len(idx), size), tol=20000,
                               v=[rel(p, q, 1.0) for p, q in zip(o.quantize_distances.reshape(-1)[:200].tolist(), dist.reshape(-1)[:200].tolist())]))
            m = float(((rec - pre) ** 2).mean())
            ev.append(dict(op="approx", case=case, fn="losses", ok=True, tol=20000, v=[rel(o.commitment_loss, m, 0.01), rel(o.embedding_loss, m, 0.01)]))
            ev.append(dict(op="fact", case=case, fn="input-left-alone", holds=torch.equal(keep, x.detach())))
            ev.append(dict(op="shape", case=case, fn="latent", got=list(o.latent.shape), want=list(x.shape)))
            # gradients: straight through for the latent; each loss moves its own side
            up = torch.randn(o.latent.shape, generator=g)
            pre_t = o.prequantized_latent
            gi, gc = torch.autograd.grad((o.latent * up).sum(), [pre_t, vq.codebooks[0]], retain_graph=True, allow_unused=True)
            upin = up if kind in ("plain", "normalized") else TF.conv_transpose2d(up, mod.output_conv.weight.detach())
            ev.append(dict(op="approx", case=case, fn="straight-through-gradient", ok=gi is not None and gi.shape == upin.shape, tol=20000,
                           v=[] if gi is None else [rel(p, q, 1.0) for p, q in zip(gi.reshape(-1)[:60].tolist(), upin.reshape(-1)[:60].tolist())]))
            ev.append(dict(op="fact", case=case, fn="reconstruction-gives-no-codebook-gradient", holds=gc is None or not bool(gc.abs().sum())))
            gi, gc = torch.autograd.grad(o.commitment_loss, [pre_t, vq.codebooks[0]], retain_graph=True, allow_unused=True)
            wantg = (2 * (pre - rec) / rec.numel()).reshape(-1)[:60].tolist()
            ev.append(dict(op="approx", case=case, fn="commitment-gradient", ok=gi is not None, tol=20000, v=[] if gi is None else [rel(p * rec.numel(), q * rec.numel(), 1.0) for p, q in zip(gi.reshape(-1)[:60].tolist(), wantg)]))
            ev.append(dict(op="fact", case=case, fn="commitment-leaves-codebook", holds=gc is None or not bool(gc.abs().sum())))
            gi, gc = torch.autograd.grad(o.embedding_loss, [pre_t, vq.codebooks[0]], allow_unused=True)
            ev.append(dict(op="fact", case=case, fn="embedding-leaves-encoder", holds=gi is None or not bool(gi.abs().sum())))
            usedk = torch.zeros(size, dtype=torch.bool)
            usedk[idx] = True
            mover = gc is not None and not bool(gc[~usedk].abs().sum())
            ev.append(dict(op="fact", case=case, fn="embedding-moves-used-codewords-only", holds=mover))
            cbk = vq.codebooks[0].detach().double().clone().requires_grad_(True)
            l64 = ((TF.normalize(cbk, dim=1)[idx].reshape(b, h, w, dim).permute(0, 3, 1, 2) - pre) ** 2).mean()
            g64, = torch.autograd.grad(l64, [cbk])
            top = float(g64.abs().max())
            ev.append(dict(op="approx", case=case, fn="embedding-gradient", ok=mover, tol=100000, v=[] if gc is None else [rel(p, q, max(top, 1e-9)) for p, q in zip(gc.reshape(-1)[:80].tolist(), g64.reshape(-1)[:80].tolist())]))
            # a codeword quantises to itself; vectors are independent of their neighbours
            cw = book[torch.arange(min(size, 12))].float()
            o2 = vq(Out(latent=cw.t().reshape(1, dim, 1, -1)))
            same = float((book[o2.indices] - cw.double()).abs().max())
            ev.append(dict(op="between", case=case, fn="codeword-is-fixed", v=[fx(same, 1e6)], lo=0, hi=20))
            one = vq(Out(latent=pre[-1:, :, -1:, -1:].float()))
            ev.append(dict(op="between", case=case, fn="vectors-independent", v=[fx(float(dist[-1][one.indices[0]] - near[-1]), 1e5)], lo=-100, hi=100 + int(50 * float(near[-1]))))
            again = mod(Out(latent=x.detach()))
            ev.append(dict(op="fact", case=case, fn="deterministic", holds=torch.equal(again.indices, o.indices) and torch.equal(again.latent, o.latent.detach())))
        ev.append(e)
    for kind, fn, want in (("no-latent-vq", lambda: VQBottleneck(4, 2)(Out()), "ValueError"),
                           ("no-latent-normalize", lambda: NormalizeLatent(VQBottleneck(4, 2))(Out()), "ValueError"),
                           ("bad-init", lambda: VQBottleneck(4, 2, init_distribution="laplace"), "ValueError")):
        _, _, err = core.guarded(fn)
        ev.append(dict(op="refuse", case=kind, fn=kind, err=err, want=want))
    # zero vectors stay finite
    o = NormalizeLatent(VQBottleneck(5, 3))(Out(latent=torch.zeros(1, 3, 2, 2)))
    ev.append(dict(op="fact", case="zero-latent", fn="zero-latent-finite", holds=bool(torch.isfinite(o.latent).all())))

    # ---- randomised assignment: frequency inversely proportional to distance
    for k in range(ctx.pick(3, 12)):
        q = QBottleneck([4], [2], normalize_codebook=False)
        with torch.no_grad():
            q.codebooks[0].copy_(torch.tensor([[1.0, 0], [0, 2], [-3, 0], [0, -1.5]]))
        n = 20000
        pt = torch.tensor([rng.uniform(-0.5, 0.5), rng.uniform(-0.5, 0.5)])
        torch.manual_seed(rng.randrange(1 << 30))
        o = q.quantize_vectors(preq_latents=pt.reshape(1, 2, 1, 1).expand(1, 2, 100, n // 100), codebook=q.codebooks[0], probabilistic=True)
        d = ((q.codebooks[0].detach() - pt) ** 2).sum(1).double() + 1e-7
        p = (1 / d) / (1 / d).sum()
        f = torch.bincount(o.indices.reshape(-1), minlength=4).double() / n
        z = ((f - p) / (p * (1 - p) / n).sqrt()).tolist()
        ev.append(dict(op="between", case=f"random{k}", fn="random-assignment-frequency", v=[fx(a, 1000) for a in z], lo=-6000, hi=6000))

    # ---- the wrappers on their own
    for k in range(ctx.pick(6, 24)):
        b, c, h, w = rng.choice([(1, 3, 4, 7), (2, 5, 3, 2), (3, 2, 1, 6), (1, 1, 2, 3)])
        x = torch.randn(b, c, h, w, generator=g) * rng.choice([1e-3, 1.0, 50.0])
        o = NormalizeLatent()(Out(latent=x.clone())).latent
        ref = x.double() / x.double().norm(dim=1, keepdim=True)
        ev.append(dict(op="shape", case=f"alone{k}", fn="normalized", got=list(o.shape), want=list(x.shape)))
        ev.append(dict(op="approx", case=f"alone{k}", fn="normalized-alone", ok=o.shape == x.shape, tol=20000, v=[rel(p, q, 1.0) for p, q in zip(o.reshape(-1).tolist(), ref.reshape(-1).tolist())]))
        seen = []

        class Child(torch.nn.Module):
            def forward(self, out):
                seen.append(out.latent.clone())
                return Out(latent=out.latent * 3 + 1, num_bytes=77)

        o = NormalizeLatent(Child())(Out(latent=x.clone()))
        ev.append(dict(op="approx", case=f"alone{k}", fn="child-after-normalize", ok=len(seen) == 1 and o.num_bytes == 77, tol=20000,
                       v=[rel(p, 3 * q + 1, 1.0) for p, q in zip(o.latent.reshape(-1).tolist(), ref.reshape(-1).tolist())]))
        seen.clear()
        m = ProjectLatent(c, 4, Child())
        o = m(Out(latent=x.clone()))
        mid = TF.conv2d(x, m.input_conv.weight, m.input_conv.bias)
        ref = TF.conv2d(mid * 3 + 1, m.output_conv.weight, m.output_conv.bias)
        ev.append(dict(op="approx", case=f"alone{k}", fn="child-inside-projection", ok=len(seen) == 1 and o.num_bytes == 77 and o.latent.shape == x.shape, tol=20000,
                       v=[rel(p, q, 1.0 + float(ref.abs().max())) for p, q in zip(o.latent.reshape(-1).tolist(), ref.reshape(-1).tolist())]))
    # ---- many vectors: counters and metrics do not saturate
    for n, times in ((220, 1), (150, ctx.pick(4, 12))):
        vq = VQBottleneck(3, 2)
        with torch.no_grad():
            vq.codebooks[0].copy_(torch.tensor([[1.0, 0.0], [0.0, 1.0], [-1.0, 0.0]]))
        lat = torch.zeros(1, 2, n, n)
        lat[:, 0] = 1.0
        lat[:, :, 0, 0] = torch.tensor([0.0, 1.0])
        for _ in range(times):
            vq(Out(latent=lat))
        vq.update_metrics()
        tot, one = times * n * n, times
        pp = [(tot - one) / tot, one / tot]
        ev.append(dict(op="fact", case=f"many-{n}x{times}", fn="hits-count-every-vector", holds=vq.codebook_hits_0.tolist() == [tot - one, one, 0]))
        ev.append(dict(op="approx", case=f"many-{n}x{times}", fn="metrics-of-many", ok=True, tol=100000,
                       v=[rel(float(vq.max_hits[0]), float(tot - one), 1.0), rel(float(vq.percentage_hits[0]), 2 / 3, 0.1), rel(float(vq.perplexities[0]), 2 ** -sum(q * math.log2(q) for q in pp), 0.1)]))

    # ---- usage histories replayed from the specification
    edges = ctx.graph("VqUsage")
    walks = core.covering_walks(edges, dict(h=[0, 0, 0], m=dict(used=0, most=0)), limit=ctx.pick(1200, 6000), rng=rng)
    for wi, walk in enumerate(walks):
        vq = VQBottleneck(3, 2)
        with torch.no_grad():
            vq.codebooks[0].copy_(torch.tensor([[1.0, 0.0], [-0.5, 0.8], [-0.5, -0.9]]) * rng.choice([1.0, 0.3]))
        words = TF.normalize(vq.codebooks[0].detach(), dim=1)
        for si, edge in enumerate(walk):
            a = edge["act"]
            if a["name"] == "forward":
                ids = [i for i, c in enumerate(a["b"]) for _ in range(c)]
                rng.shuffle(ids)
                vq(Out(latent=words[ids].t().reshape(1, 2, 1, len(ids)) if si % 2 else words[ids].reshape(len(ids), 2, 1, 1)))
                if si % 5 == 4:  # a save/restore in between keeps the counts
                    other = VQBottleneck(3, 2)
                    other.load_state_dict(vq.state_dict())
                    vq = other
            elif a["name"] == "reset":
                vq.reset_hits()
            else:
                vq.update_metrics()
            d = edge["dst"]
            tot = sum(d["h"])
            perp = [0, 0]
            if a["name"] == "measure":
                ref = 2 ** -sum(c / tot * math.log2(c / tot) for c in d["h"] if c)
                perp = rel(vq.perplexities[0], ref, 1.0)
            ev.append(dict(op="usage", case=f"use{wi}.{si}-{a['name']}", hits=[int(v) for v in vq.codebook_hits_0], want=d["h"],
                           used=fx(vq.percentage_hits[0], 300), wantused=100 * d["m"]["used"], most=int(vq.max_hits[0]), wantmost=d["m"]["most"], perp=perp))
            ctx.replayed += 1
    # several levels are measured level by level
    q = QBottleneck([3, 5], [2, 2])
    q.codebook_hits_0.copy_(torch.tensor([1, 0, 3]))
    q.codebook_hits_1.copy_(torch.tensor([2, 2, 2, 2, 0]))
    q.update_metrics()
    ev.append(dict(op="approx", case="two-levels", fn="metrics-per-level", ok=True, tol=20000, v=[rel(a, b, 1.0) for a, b in zip(
        q.percentage_hits.tolist() + q.max_hits.tolist() + q.perplexities.tolist(), [2 / 3, 4 / 5, 3, 2, 2 ** (0.25 * 2 + 0.75 * math.log2(4 / 3)), 4])]))
    q.reset_hits()
    ev.append(dict(op="fact", case="two-levels", fn="reset-clears-every-level", holds=int(q.codebook_hits_0.sum()) + int(q.codebook_hits_1.sum()) == 0))

    # ---- the autoencoder: every size in evaluation, freezing histories, the projector
    def build(fe=False, fb=False, mult=(1, 2, 2), **kw):
        torch.manual_seed(rng.randrange(1 << 30))
        bo = ProjectLatent(8, 4, NormalizeLatent(VQBottleneck(16, 4)))
        return VqVaeXCiTAutoencoder(ch=16, ch_mult=mult, num_res_blocks=1, attn_resolutions=[16], resolution=64, embed_dim=8,
                                    bottleneck_op=bo, freeze_encoder=fe, freeze_bottleneck=fb, **kw)

    for mi, mult in enumerate([(1, 2), (1, 1, 2), (1, 1, 1, 2)]):
        f = 2 ** (len(mult) - 1)
        m = build(mult=mult, norm_type=["group", "channel", "channel_last"][mi]).eval()
        sizes = [(f + 1, f + 2), (f + 1, 2 * f), (2 * f, 3 * f), (2 * f + 1, 2 * f - 1), (3 * f - 1, 2 * f + 1), (17, 23)] + [(rng.randint(f + 1, 6 * f), rng.randint(f + 1, 6 * f)) for _ in range(ctx.pick(4, 30))]
        for h, w in sizes:
            n = rng.choice([1, 2])
            x = torch.rand(n, 3, h, w, generator=g)
            case = f"vae-f{f}-{n}x{h}x{w}"
            with torch.no_grad():
                keep = x.clone()
                o = m(x)
                ph, pw = (-h) % f, (-w) % f
                ref = m(TF.pad(x, (0, pw, 0, ph), mode="reflect")) if ph or pw else m(x)
                parts = [m(x[i:i + 1]) for i in range(n)]
            ev.append(dict(op="shape", case=case, fn="image", got=list(o.image.shape), want=[n, 3, h, w]))
            lh, lw = -(-h // f), -(-w // f)
            ev.append(dict(op="shape", case=case, fn="latent", got=list(o.latent.shape), want=[n, 8, lh, lw]))
            ev.append(dict(op="shape", case=case, fn="indices", got=list(o.indices.shape), want=[n * lh * lw]))
            ev.append(dict(op="shape", case=case, fn="num-bytes", got=[int(o.num_bytes)], want=[n * lh * lw * 4 // 8]))
            ev.append(dict(op="fact", case=case, fn="padding-is-cropped-away", holds=torch.allclose(o.image, ref.image[:, :, :h, :w], atol=1e-4) and torch.equal(o.indices, ref.indices)))
            ev.append(dict(op="fact", case=case, fn="images-independent", holds=torch.equal(torch.cat([p.indices for p in parts]), o.indices)
                           and torch.allclose(torch.cat([p.image for p in parts]), o.image, atol=1e-4)))
            ev.append(dict(op="fact", case=case, fn="image-left-alone", holds=torch.equal(keep, x)))
            with torch.no_grad():
                dec = m.decoder(o.latent)[:, :, :h, :w]
            ev.append(dict(op="fact", case=case, fn="image-is-decoded-latent", holds=torch.allclose(dec, o.image, atol=1e-5)))
    bare = VqVaeXCiTAutoencoder(ch=16, ch_mult=(1, 2), num_res_blocks=1, attn_resolutions=[16], resolution=32, embed_dim=8).eval()
    with torch.no_grad():
        o = bare(torch.rand(1, 3, 9, 8, generator=g))
    ev.append(dict(op="fact", case="no-bottleneck", fn="no-bottleneck-is-plain-autoencoder", holds=o.indices is None and list(o.image.shape) == [1, 3, 9, 8]))

    medges = ctx.graph("VqModes")

    def snap(mod):
        return [p.detach().clone() for p in mod.parameters()]

    def moved(a, mod):
        return any(not torch.equal(p, q.detach()) for p, q in zip(a, mod.parameters()))

    x = torch.rand(1, 3, 16, 16, generator=g)
    for fe in (False, True):
        for fb in (False, True):
            sub = [e for e in medges if e["src"]["fe"] == fe and e["src"]["fb"] == fb]
            for wi, walk in enumerate(core.covering_walks(sub, dict(fe=fe, fb=fb, training=True, clean=True), rng=rng)):
                m = build(fe, fb, mult=(1, 2), dropout=0.3)
                lastout, lastpar = None, None
                for si, edge in enumerate(walk):
                    n = edge["act"]["name"]
                    before = {k: snap(v) for k, v in (("enc", m.encoder), ("dec", m.decoder), ("bot", m.bottleneck_op))}
                    if n == "train":
                        m.train()
                    elif n == "eval":
                        m.eval()
                    elif n == "thaw":
                        m.requires_grad_(True)
                    elif n == "forward":
                        o = m(x)
                    else:
                        o = m(x)
                        pars = [p for p in m.parameters() if p.requires_grad]
                        opt = torch.optim.SGD(pars, lr=0.05, weight_decay=0.1)
                        m.zero_grad()
                        (o.image.square().mean() + o.embedding_loss + o.commitment_loss).backward()
                        opt.step()
                        m.zero_grad(set_to_none=True)
                    ev.append(dict(op="mode", case=f"mode{int(fe)}{int(fb)}.{wi}.{si}-{n}", name=n, fe=fe, fb=fb, used=n in ("forward", "learn") or si == 0 and False,
                                   training=edge["dst"]["training"],
                                   enctrain=_agg(s.training for s in m.encoder.modules()), dectrain=_agg(s.training for s in m.decoder.modules()),
                                   bottrain=_agg(s.training for s in m.bottleneck_op.modules()),
                                   encgrad=_agg(p.requires_grad for p in m.encoder.parameters()), botgrad=_agg(p.requires_grad for p in m.bottleneck_op.parameters()),
                                   encmoved=moved(before["enc"], m.encoder), decmoved=moved(before["dec"], m.decoder), botmoved=moved(before["bot"], m.bottleneck_op)))
                    ctx.replayed += 1

    for k in range(ctx.pick(3, 8)):
        m = build(mult=(1, 2), dropout=0.5).train()
        ok, p, err = core.guarded(VqVaeProjector, m)
        for act in ("new", "train", "train-parent", "eval"):
            if act == "train":
                r = p.train()
                ev.append(dict(op="fact", case=f"proj{k}", fn="projector-train-returns-itself", holds=r is p))
            elif act == "train-parent":
                torch.nn.Sequential(p).train()
            elif act == "eval":
                p.eval()
            holds = not any(s.training for s in p.modules()) and not any(q.requires_grad for q in p.parameters())
            ev.append(dict(op="fact", case=f"proj{k}-{act}", fn="projector-always-frozen", holds=holds))
            x = torch.rand(2, 3, 16, 8, generator=g)
            with torch.no_grad():
                i1, i2 = p(x), p(x)
            m.eval()
            with torch.no_grad():
                want = m(x).indices
            ev.append(dict(op="fact", case=f"proj{k}-{act}", fn="projector-gives-the-model-indices", holds=torch.equal(i1, want) and torch.equal(i1, i2)))
    ctx.validate("VqTrace", ev)
