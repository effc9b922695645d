"""C01 learned image codec: self-contained, lossless, history-independent payloads."""
import copy
import pickle

from .. import core
from ..core import digest, fx


def run(ctx):
    import torch
    from . import hificlib as H

    ctx.design("HificSession")
    edges = ctx.graph("HificSession", "HificSession_graph.cfg")
    ev = []

    tick = [0]

    def wsig(m):
        # full weight fingerprints are expensive: taken around every fourth call
        if (tick[0] // 2) % 4:
            return ""
        return digest(*[t for _, t in sorted(m.state_dict().items())])

    def pdigest(p):
        return digest(*[bytes(s) for s in p.latent_strings], b"|", *[bytes(s) for s in p.hyper_latent_strings],
                      str((tuple(map(int, p.image_size)), tuple(map(int, p.padded_size)))).encode())

    refs = {}

    def ref(m, key, x):
        if key not in refs:
            rec, yq, mu = H.reference(m, x)
            was = m.training
            m2 = copy.deepcopy(m)
            m2.eval()
            m2._device_setting = "forward"
            with torch.no_grad():
                out = m2(H.pad(x))
            bits = -(out.quantized_latent_likelihoods.double().log2().sum()
                     + out.quantized_hyper_latent_likelihoods.double().log2().sum())
            m.train(was)
            refs[key] = (rec, yq, float(bits))
        return refs[key]

    def compress(m, key, x, case):
        B, C, h, w = x.shape
        e = dict(op="compress", case=case, img=key, B=B, C=C, h=h, w=w, ok=False, err="", image_size=[], padded_size=[],
                 nlat=0, nhyp=0, payload="", bits=0, ideal_bits=0, input_same=True, weights_same=True)
        tick[0] += 2
        before, wb = digest(x), wsig(m)
        _, _, bits = ref(m, key, x)
        with torch.no_grad():
            ok, p, err = core.guarded(m.compress, x)
        e.update(ok=ok, err=err)
        if ok:
            e.update(image_size=[int(v) for v in p.image_size], padded_size=[int(v) for v in p.padded_size],
                     nlat=len(p.latent_strings), nhyp=len(p.hyper_latent_strings), payload=pdigest(p),
                     bits=8 * sum(map(len, list(p.latent_strings) + list(p.hyper_latent_strings))),
                     ideal_bits=int(min(bits, 1e9)))
        e.update(input_same=digest(x) == before, weights_same=wsig(m) == wb)
        ev.append(e)
        return p

    def decompress(m, key, x, p, case, through_bytes=True):
        B, C, h, w = x.shape
        rec, _, _ = ref(m, key, x)
        want = rec[:, :, :h, :w].clamp(0, 1)
        tick[0] += 2
        wb = wsig(m)
        q = pickle.loads(pickle.dumps(p)) if through_bytes else p
        d0 = pdigest(q)
        with torch.no_grad():
            ok, y, err = core.guarded(m.decompress, q)
        e = dict(op="decompress", case=case, img=key, B=B, C=C, h=h, w=w, ok=ok, xerr=err, shape=[], lo=0, hi=0, err=0,
                 rec="", payload_same=True, weights_same=True)
        if ok:
            same = tuple(y.shape) == tuple(want.shape)
            e.update(shape=list(y.shape), lo=fx(y.min(), 1e6), hi=fx(y.max(), 1e6),
                     err=fx((y - want).abs().max(), 1e6) if same else core.BIG, rec=digest(y), payload_same=pdigest(q) == d0)
        e["weights_same"] = wsig(m) == wb
        ev.append(e)

    def forward(m, key, x, case):
        rec, yq, _ = ref(m, key, x)
        xp = H.pad(x)
        with torch.no_grad():
            ok, out, err = core.guarded(m, xp)
        e = dict(op="forward", case=case, img=key, ok=ok, xerr=err, train=m.training, err=0, laterr=0, likmin=0, likmax=0)
        if ok:
            if m.training:
                # straight-through: latent = round(y - mean) + mean with the mean predicted from
                # the (noisy) hyper latent the call reports
                with torch.no_grad():
                    mu = m.hyper_synthesis_mean(out.hyper_latent.clone())
                    y = m.encoder(xp)
                    le = (torch.round(y - mu) + mu - out.latent).abs().max()
            else:
                le = (out.latent - yq).abs().max()
                e["err"] = fx((out.image - rec).abs().max(), 1e6)
            lik = torch.cat([t.reshape(-1) for t in (out.latent_likelihoods, out.hyper_latent_likelihoods,
                                                     out.quantized_latent_likelihoods, out.quantized_hyper_latent_likelihoods)])
            e.update(laterr=fx(le, 1e6), likmin=fx(lik.min(), 1e6), likmax=fx(lik.max(), 1e6))
        ev.append(e)

    # ---- every edge of the session graph, on two instances with the same weights
    m1 = H.make(3, seed=ctx.seed)
    m1.eval()
    m1.update_tensor_devices("compress")
    m2 = H.make(3, seed=ctx.seed + 77)
    m2.update(force=True)
    m2.load_state_dict(m1.state_dict())
    m2.eval()
    m2.update_tensor_devices("compress")
    inst = {1: m1, 2: m2}
    g = ctx.torch_gen(1)
    imgs = {1: torch.rand(1, 3, 64, 72, generator=g), 2: torch.rand(2, 3, 50, 64, generator=g)}
    init = dict(store=[False, False], who=1, mode="eval", dev="compress")
    walks = core.covering_walks(edges, init, limit=ctx.pick(330, 1200), rng=ctx.rng)
    if sum(map(len, walks)) < 64:
        raise core.Machinery("session graph walk too short")
    for wi, walk in enumerate(walks):
        who, pays = 1, {}
        for m in inst.values():
            m.eval()
            m.update_tensor_devices("compress")
        for si, edge in enumerate(walk):
            a, m = edge["act"], inst[who]
            n, case = a["name"], f"session{wi}.{si}-{a['name']}"
            if n == "compress":
                pays[a["img"]] = compress(m, f"s{a['img']}", imgs[a["img"]], case)
            elif n == "decompress":
                if pays.get(a["img"]) is not None:
                    decompress(m, f"s{a['img']}", imgs[a["img"]], pays[a["img"]], case, si % 2 == 0)
            elif n == "forward":
                forward(m, f"s{a['img']}", imgs[a["img"]], case)
            elif n == "switch":
                who = a["to"]
            elif n in ("train", "eval"):
                for mm in inst.values():
                    mm.train(n == "train")
            elif n == "devices":
                for mm in inst.values():
                    mm.update_tensor_devices(a["to"])
            ctx.replayed += 1
    # ---- every size regime, batch, channel count and latent magnitude
    cases = [(3, 1.0, b, h, w) for b, h, w in (
        (1, 64, 64), (1, 65, 64), (1, 64, 127), (2, 128, 64), (3, 33, 40), (1, 63, 100), (2, 70, 33), (1, 129, 65),
        (4, 64, 64), (1, 64, 320), (1, 200, 34), (2, 127, 129))]
    cases += [(1, 1.0, 2, 64, 65), (1, 1.0, 1, 40, 96), (4, 1.0, 2, 64, 64), (4, 1.0, 1, 100, 50), (3, 25.0, 1, 64, 100),
              (3, 25.0, 2, 96, 40), (3, 0.02, 1, 64, 90), (3, 0.02, 2, 80, 64), (3, 1.0, 1, 64, 1100), (3, 200.0, 1, 65, 64)]
    for _ in range(ctx.pick(12, 120)):
        cases.append((ctx.rng.choice([1, 2, 3, 3, 3]), ctx.rng.choice([0.1, 1.0, 1.0, 4.0, 25.0]), ctx.rng.randint(1, 3),
                      ctx.rng.randint(33, 200), ctx.rng.randint(33, 200)))
    models = {}
    for k, (C, gain, B, h, w) in enumerate(cases):
        mk = (C, gain)
        if mk not in models:
            m = H.make(C, seed=ctx.seed * 31 + len(models), gain=gain)
            m.eval()
            m.update_tensor_devices("compress")
            other = copy.deepcopy(m)
            models[mk] = (m, other)
        m, other = models[mk]
        x = torch.rand(B, C, h, w, generator=g)
        if k % 3 == 1:
            x = (x > 0.5).float()
        elif k % 4 == 0:
            # values outside [0, 1] (super-resolved, augmented or normalised images), as a view of the caller's buffer
            x = (x * 1.8 - 0.4).transpose(-1, -2).contiguous().transpose(-1, -2)
        key, case = f"g{k}", f"case-{B}x{C}x{h}x{w}-gain{gain}"
        p = compress(m, key, x, case)
        if p is not None:
            decompress(m, key, x, p, case)
            decompress(other, key, x, p, case + "-other-instance")
    ctx.validate("HificTrace", ev)
    ctx.assumptions.append("entropy coder (compressai rANS extension) is outside the repository; exercised, not modelled")
