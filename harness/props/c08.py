"""C08 continuous entropy layer: construction, access rules and coding tables."""
import math

from .. import core


def run(ctx):
    import numpy as np
    import scipy.special as sp
    import torch
    import torch.distributions as D
    from neuralcompression.distributions import NoisyNormal, UniformNoise
    from neuralcompression.layers import ContinuousEntropy as CE

    ctx.design("DistLaws")
    edges = ctx.graph("EntropyLayer")
    ev, rng = [], ctx.rng

    # ---- replay every legal and illegal construction, then every access
    given = dict(cdfs=torch.tensor([[0, 10, 4096], [0, 20, 4096]], dtype=torch.int32), sizes=torch.tensor([3, 3], dtype=torch.int32),
                 offsets=torch.tensor([0, -1], dtype=torch.int32))
    after = {}
    for e in edges:
        if e["act"]["name"] != "construct":
            after.setdefault(core.json.dumps(e["src"], sort_keys=True), []).append(e)
    for e in edges:
        a = e["act"]
        if a["name"] != "construct":
            continue
        o = a["o"]

        def build():
            kw = dict(compressible=o["compressible"], stateless=o["stateless"])
            if o["prior"]:
                kw["prior"] = NoisyNormal(torch.tensor([0.0, 3.0]), torch.tensor([1.0, 2.0]))
            if o["shape"]:
                kw["prior_shape"] = (2,)
            if o["dtype"]:
                kw["prior_dtype"] = torch.float32
            if o["cdfs"]:
                kw["cdfs"] = given["cdfs"].clone()
            if o["sizes"]:
                kw["cdf_sizes"] = given["sizes"].clone()
            if o["offsets"]:
                kw["cdf_offsets"] = given["offsets"].clone()
            if o["max"]:
                kw["maximum_cdf_size"] = 7
            return CE(**kw), kw.get("prior")

        case = "opt-" + "".join(k[0] if k != "compressible" else "K" for k, v in sorted(o.items()) if v)
        ok, val, err = core.guarded(build)
        ctx.replayed += 1
        ev.append(dict(op="call", case=case, act="construct", err=err, want=a["res"], src="", same=True))
        if not ok or a["res"]:
            continue
        m, prior = val
        state = e["dst"]
        ev.append(dict(op="fact", case=case, fn="flags-as-given", holds=m.compressible == o["compressible"] and m.stateless == o["stateless"]
                       and tuple(m.prior_shape) == (2,) and m.prior_dtype == torch.float32 and tuple(m.context_shape) == (2,)))

        def tables():
            return [t.clone() for t in (m.cdfs, m.cdf_sizes, m.cdf_offsets)]

        for _ in range(2):
            todo = sorted(after.get(core.json.dumps(state, sort_keys=True), []), key=lambda z: z["act"]["name"] == "drop")
            for z in todo:
                nm, same = z["act"]["name"], True
                ctx.replayed += 1
                if nm == "tables":
                    ok, t, err = core.guarded(tables)
                    if ok and state["src"] == "given":
                        same = all(torch.equal(p, q) for p, q in zip(t, (given["cdfs"], given["sizes"], given["offsets"])))
                elif nm == "prior":
                    ok, p, err = core.guarded(lambda: m.prior)
                    same = not ok or p is prior
                elif nm == "drop":
                    before = core.guarded(tables)

                    def drop():
                        del m.prior

                    ok, _, err = core.guarded(drop)
                    now = core.guarded(tables)
                    same = before[0] == now[0] and (not now[0] or all(torch.equal(p, q) for p, q in zip(before[1], now[1])))
                    state = z["dst"]
                else:
                    ok, _, err = core.guarded(m.compress)
                    ok, _, err2 = core.guarded(m.decompress)
                    err = err if err == err2 else err + err2
                ev.append(dict(op="call", case=f"{case}-{nm}", act=nm, err=err, want=z["act"]["res"], src=state["src"], same=same))

    # ---- tables built from priors
    def mass(kind, v, mu, s):
        z = abs(v - mu)
        if kind == "normal":
            c = lambda t: 0.5 * math.erfc(-t / math.sqrt(2))  # noqa: E731
        else:
            c = lambda t: 0.5 * math.exp(t) if t < 0 else 1 - 0.5 * math.exp(-t)  # noqa: E731
        return c((0.5 - z) / s) - c((-0.5 - z) / s)

    def quantile(kind, p):
        return float(sp.ndtri(p)) if kind == "normal" else (math.log(2 * p) if p < 0.5 else -math.log(2 * (1 - p)))

    nt = ctx.pick(40, 240)
    for k in range(nt + ctx.pick(3, 10)):
        wide = k >= nt
        bs = [(1,), (3,), (5,), (2, 3), (), (1, 4), (2, 1)][k % 7]
        n = int(np.prod(bs)) if bs else 1
        neg = k % 2 == 0
        tail = rng.choice([2 ** -8, 0.05, 2 ** -4, 1e-3])
        prec = rng.choice([12, 12, 14, 16, 10]) if not wide else rng.choice([16, 18])
        kind = rng.choice(["normal", "normal", "laplace"])
        mus, ss = [], []
        for _ in range(n):
            s = 10 ** rng.uniform(-1, 0.9) if not wide else rng.uniform(150, 400)
            q = -quantile(kind, tail / 2) * s
            mu = rng.choice([0.0, rng.uniform(-q, q), rng.randint(-4, 4) / 2, rng.uniform(-30, -5)]) if neg else q + rng.uniform(0.01, 12)
            mus.append(round(mu * 64) / 64)
            ss.append(s)
        mu_t, s_t = torch.tensor(mus).reshape(bs), torch.tensor(ss, dtype=torch.float32).reshape(bs)
        prior = NoisyNormal(mu_t, s_t) if kind == "normal" else UniformNoise(D.Laplace(mu_t, s_t))
        case = f"{'neg' if neg else 'pos'}-{kind}-{'x'.join(map(str, bs))}-{k}"
        mk = lambda: CE(prior=prior, compressible=True, tail_mass=tail, range_coder_precision=prec)  # noqa: E731
        ok, m, err = core.guarded(mk)
        if not ok:
            ev.append(dict(op="call", case=case, act="construct", err=err, want="", src="", same=True))
            continue
        cdfs, sizes, offs = m.cdfs, m.cdf_sizes, m.cdf_offsets
        other = CE(prior=(NoisyNormal(mu_t, s_t) if kind == "normal" else UniformNoise(D.Laplace(mu_t, s_t))), compressible=True,
                   tail_mass=tail, range_coder_precision=prec)
        blank = CE(compressible=True, prior_shape=bs or (1,), prior_dtype=torch.float32, cdfs=torch.zeros_like(cdfs),
                   cdf_sizes=torch.zeros_like(sizes), cdf_offsets=torch.zeros_like(offs))
        ok, _, err = core.guarded(blank.load_state_dict, {q: v.clone() for q, v in m.state_dict().items()})
        restored = ok and torch.equal(blank.cdfs, cdfs) and torch.equal(blank.cdf_sizes, sizes) and torch.equal(blank.cdf_offsets, offs)
        ev.append(dict(op="table", case=case, rows=int(cdfs.shape[0]) if cdfs.dim() == 2 else -1, n=n, nsizes=sizes.numel() if sizes.dim() == 1 else -1,
                       noffs=offs.numel() if offs.dim() == 1 else -1, ints=all(not t.is_floating_point() for t in (cdfs, sizes, offs)),
                       restored=restored, again=torch.equal(cdfs, other.cdfs) and torch.equal(sizes, other.cdf_sizes) and torch.equal(offs, other.cdf_offsets)))
        if cdfs.dim() != 2 or sizes.numel() != n or offs.numel() != n or cdfs.shape[0] != n:
            continue
        for r in range(n):
            mu, s = float(mu_t.reshape(-1)[r]), float(s_t.reshape(-1)[r])
            qo = mu - round(mu)
            lo_f, hi_f = mu + quantile(kind, tail / 2) * s - qo, mu + quantile(kind, 1 - tail / 2) * s - qo
            if min(abs(lo_f - round(lo_f)), abs(hi_f - round(hi_f))) < 1e-3:
                continue  # the cut-off sits on a bin edge
            lo, up = math.floor(lo_f), math.ceil(hi_f)
            L, off = int(sizes[r]), int(offs[r])
            row = cdfs[r].tolist()
            full = 2 ** prec
            ref = [int(round(full * mass(kind, off + i + qo, mu, s))) for i in range(max(0, L - 2))]
            ev.append(dict(op="row", case=f"{'below0' if lo < 0 else 'above0'}-{case}-row{r}", cdf=row[:max(1, L)], rest=sum(abs(v) for v in row[max(1, L):]), full=full, off=off, hi=off + L - 3,
                           lo=lo, up=up, ref=ref, outside=int(round(full * (1 - sum(mass(kind, off + i + qo, mu, s) for i in range(max(0, L - 2)))))), tol=3 + (L if L > full // 64 else 2)))

    # ---- quantisation
    for k in range(ctx.pick(20, 120)):
        u = 256
        n = rng.choice([1, 4, 9])
        xs = [rng.choice([rng.randint(-9 * u, 9 * u), rng.randint(-40, 40) * u // 2, rng.randint(-3000 * u, 3000 * u)]) for _ in range(n)]
        os_ = [rng.choice([0, rng.randint(-u // 2, u // 2)]) for _ in range(n)] if k % 2 else [0] * n
        shape = (n,) if n != 4 else (2, 2)
        x = (torch.tensor(xs, dtype=torch.float64) / u).to(rng.choice([torch.float32, torch.float64])).reshape(shape)
        keep = x.clone()
        o = (torch.tensor(os_, dtype=torch.float64) / u).float().reshape(shape) if k % 2 else None
        ok, q, err = core.guarded(CE.quantize, x, torch.zeros(shape, dtype=torch.int32), o)
        e = dict(op="quant", case=f"quant{k}", u=u, x=xs, o=os_, q=[], ok=ok, isint=False, kept=True)
        if ok:
            e.update(q=[int(v) for v in q.reshape(-1).tolist()], isint=not q.is_floating_point() and tuple(q.shape) == shape, kept=torch.equal(x, keep))
        ev.append(e)
    # offsets broadcast against the values; values far beyond small integers
    for k in range(ctx.pick(12, 60)):
        u, r, c = 16, rng.choice([1, 3]), rng.choice([2, 5])
        far = k % 2
        xs = [[rng.choice([1, -1]) * rng.randint(32000 * u, 2 ** 16 * u - 1 if not far else 2 ** 20 * u) // (2 if not far else 1) for _ in range(c)] for _ in range(r)]
        dt = torch.float64 if far else torch.float32
        osh = [(c,), (1, c), (r, 1), (1,), ()][k % 5]
        os_ = [rng.randint(-u // 2, u // 2) for _ in range(int(np.prod(osh)) if osh else 1)]
        o = (torch.tensor(os_, dtype=torch.float64) / u).to(dt).reshape(osh)
        x = (torch.tensor(xs, dtype=torch.float64) / u).to(dt)
        keep, keepo = x.clone(), o.clone()
        ok, q, err = core.guarded(CE.quantize, x, torch.zeros((r, c), dtype=torch.int32), o)
        full_o = [int(v) for v in (torch.broadcast_to(o, (r, c)).double() * u).reshape(-1).tolist()]
        e = dict(op="quant", case=f"quant-wide{k}", u=u, x=[v for row in xs for v in row], o=full_o, q=[], ok=ok, isint=False, kept=True)
        if ok:
            e.update(q=[int(v) for v in q.reshape(-1).tolist()], isint=not q.is_floating_point() and tuple(q.shape) == (r, c), kept=torch.equal(x, keep) and torch.equal(o, keepo))
        ev.append(e)
    ctx.assumptions.append("tables reserved with maximum_cdf_size are only judged for legality: their shape is fixed by an existing test")
    ctx.validate("EntropyLayerTrace", ev)
