"""C02 freeze / train / device modes of the learned image codec."""
from .. import core


def _agg(bs):
    bs = list(bs)
    return "all" if all(bs) else "none" if not any(bs) else "mixed"


def run(ctx):
    import torch
    from neuralcompression.models import HiFiCAutoencoder

    edges = ctx.graph("HificModes")
    ev = []

    def parts(m):
        bot = [m.hyper_bottleneck, m.latent_bottleneck, m.hyper_analysis, m.hyper_synthesis_mean, m.hyper_synthesis_scale]
        return {"encoder": [m.encoder], "decoder": [m.decoder], "bottleneck": bot}

    def params(m):
        return {p: [q for mod in mods for q in mod.parameters()] for p, mods in parts(m).items()}

    def observe(m):
        names = {id(p): n for n, p in m.named_parameters()}
        ok, val, err = core.guarded(m.collect_parameters)
        mp, qp = val if ok else ([], [])
        return dict(
            fe=bool(m.frozen_encoder), fb=bool(m.frozen_bottleneck), training=bool(m.training), dev=str(m.device_setting),
            tr={p: _agg(s.training for mod in mods for s in mod.modules()) for p, mods in parts(m).items()},
            gr={p: _agg(q.requires_grad for q in ps) for p, ps in params(m).items()},
            mp=[names.get(id(p), "?") for p in mp], qp=[names.get(id(p), "?") for p in qp],
            trainable=[n for n, p in m.named_parameters() if p.requires_grad],
            quantiles=[n for n, p in m.named_parameters() if n.split(".")[-1] == "quantiles"])

    g = ctx.torch_gen(2)
    x = torch.rand(1, 3, 64, 64, generator=g)

    def optimise(m):
        before = {p: [q.detach().clone() for q in ps] for p, ps in params(m).items()}
        mp, qp = m.collect_parameters()
        opt = torch.optim.SGD(list(mp) + list(qp), lr=1e-3, weight_decay=0.5, momentum=0.9)
        out = m(x)
        loss = out.image.square().mean() - out.latent_likelihoods.clamp_min(1e-6).log().mean() \
            - out.hyper_latent_likelihoods.clamp_min(1e-6).log().mean()
        if mp or qp:
            m.zero_grad()
            (loss + m.hyper_bottleneck.loss()).backward()
            # touch every parameter the groups own, also those with no gradient path
            for p in list(mp) + list(qp):
                p.grad = torch.ones_like(p) if p.grad is None else p.grad + 1.0
            opt.step()
        m.zero_grad(set_to_none=True)
        return {p: _agg(not torch.equal(a, b.detach()) for a, b in zip(before[p], params(m)[p])) for p in before}

    for fe in (True, False):
        for fb in (True, False):
            # everything from the plain constructor, the start of the others (their states are the same ones)
            limit, total = (ctx.pick(120, 3000), 0) if fe or fb else (3000, 0)
            init = dict(fe=fe, fb=fb, training=True, dev="forward", tables=False)
            sub = [e for e in edges if e["src"]["fe"] >= fe and e["src"]["fb"] >= fb]
            for wi, walk in enumerate(core.covering_walks(sub, init, rng=ctx.rng)):
                if total > limit:
                    break
                kw = {}
                if fe:
                    kw["freeze_encoder"] = True
                if fb:
                    kw["freeze_bottleneck"] = True
                m = HiFiCAutoencoder(3, 4, 4, 1, **kw)
                ev.append(dict(op="new", case=f"w{wi}-new-{fe}-{fb}", fe=fe, fb=fb, err="", o=observe(m)))
                for si, edge in enumerate(walk):
                    if total > limit:
                        break
                    n = edge["act"]["name"]
                    e = dict(op=n, case=f"w{fe}{fb}{wi}.{si}-{n}", err="")
                    if n == "freeze_encoder":
                        m.freeze_encoder()
                    elif n == "freeze_bottleneck":
                        m.freeze_bottleneck()
                    elif n == "train":
                        ret = m.train()
                        if ret is not m:
                            e["err"] = "train-returned-other"
                    elif n == "eval":
                        ret = m.eval()
                        if ret is not m:
                            e["err"] = "eval-returned-other"
                    elif n == "dev_forward":
                        m.update_tensor_devices("forward")
                    elif n == "dev_compress":
                        m.update_tensor_devices("compress")
                    elif n == "dev_bad":
                        _, _, e["err"] = core.guarded(m.update_tensor_devices, ["gpu", "Forward", "", "decompress"][si % 4])
                    elif n == "forward":
                        with torch.no_grad():
                            _, _, e["err"] = core.guarded(m, x)
                    elif n == "compress":
                        with torch.no_grad():
                            _, _, e["err"] = core.guarded(m.compress, x)
                    elif n == "optimise":
                        e["moved"] = optimise(m)
                    e["o"] = observe(m)
                    ev.append(e)
                    total += 1
                    ctx.replayed += 1
    ctx.validate("HificModesTrace", ev)
