"""C09 noise-convolved densities."""
import math

from .. import core
from ..core import fx, rel


def run(ctx):
    import numpy as np
    import scipy.special as sp
    import torch
    import torch.distributions as D
    import neuralcompression.functional as F
    from neuralcompression.distributions import NoisyNormal, UniformNoise

    ctx.design("DistLaws")
    ev = []
    rng = ctx.rng

    def approx(fn, case, got, ref, tol, floor=0.0):
        got = got.detach().double().reshape(-1).tolist()
        ref = np.asarray(ref, dtype=np.float64).reshape(-1).tolist()
        ev.append(dict(op="approx", case=case, fn=fn, ok=len(got) == len(ref), tol=tol, v=[rel(a, b, floor) for a, b in zip(got, ref)]))

    def shape(fn, case, got, want):
        ev.append(dict(op="shape", case=case, fn=fn, got=[int(v) for v in got], want=[int(v) for v in want]))

    def fact(fn, case, holds):
        ev.append(dict(op="fact", case=case, fn=fn, holds=bool(holds)))

    def logmass(v, mu, s):
        """log of the Normal mass on [v-1/2, v+1/2], double precision, any tail"""
        z = abs(v - mu)
        hi, lo = sp.log_ndtr((0.5 - z) / s), sp.log_ndtr((-0.5 - z) / s)
        return hi + math.log(-math.expm1(lo - hi)) if hi > lo else -math.inf

    # ---- Normal base: every location/scale, deep into the tails
    for k in range(ctx.pick(24, 140)):
        b = rng.choice([1, 3])
        mu = [rng.choice([0.0, rng.uniform(-1, 1), rng.uniform(-60, 60), float(rng.randint(-5, 5)) / 2]) for _ in range(b)]
        s = [10 ** rng.uniform(-1.3, 1.5) for _ in range(b)]
        dt = rng.choice([torch.float32, torch.float64])
        mu_t, s_t = torch.tensor(mu, dtype=dt), torch.tensor(s, dtype=dt)
        mud, sd = mu_t.double().tolist(), s_t.double().tolist()
        n = NoisyNormal(mu_t, s_t) if k % 2 else UniformNoise(D.Normal(mu_t, s_t))
        base = D.Normal(mu_t, s_t)
        case = f"normal{k}"
        shape("batch", case, n.batch_shape, [b])
        shape("event", case, n.event_shape, [])
        rows = []
        for _ in range(14):
            rows.append([m + q * rng.choice([rng.uniform(-2, 2), rng.uniform(-8, 8), rng.uniform(-40, 40), 0.0]) + rng.choice([0, 0.5, -0.5]) for m, q in zip(mu, s)])
        v = torch.tensor(rows, dtype=dt)
        vd = v.double().numpy()
        ref = np.array([[logmass(vd[i, j], mud[j], sd[j]) for j in range(b)] for i in range(len(rows))])
        p, lp = n.prob(v), n.log_prob(v)
        shape("prob", case, p.shape, v.shape)
        shape("log_prob", case, lp.shape, v.shape)
        # float32 argument rounding is amplified by the slope of the log density
        slope = np.abs(vd - np.array(mud)) / np.array(sd) ** 2 + 1 / np.array(sd)
        tolw = 3e-7 * (np.abs(vd) + np.abs(np.array(mud)) + 1) * slope + 1e-5 + 3e-6 * np.array(sd)
        fac = 1.0 if dt == torch.float32 else 0.02
        good = (tolw < 2e-3)
        err_scaled = (lp.detach().double().numpy() - ref)
        # deviation in units of the argument-rounding bound: at most a few units
        u = np.where(good, err_scaled / (tolw + 2e-6 * np.abs(ref)), 0.0)
        ev.append(dict(op="between", case=case, fn="log_prob-is-log-mass", v=[fx(t, 1000) for t in u.reshape(-1)], lo=-6000, hi=6000))
        pr = p.detach().double().numpy()
        # above the location the survival side is used, which keeps relative accuracy in the tail
        from scipy.special import ndtr as _ndtr
        flo = np.where(vd > np.array(mud), 3e-7 * _ndtr(-(vd - 0.5 - np.array(mud)) / np.array(sd)), 3e-7)
        up = np.where(good & (ref > -60), (pr - np.exp(ref)) / (np.exp(ref) * (tolw * 4 + 2e-5) + flo), 0.0)
        ev.append(dict(op="between", case=case, fn="prob-is-mass", v=[fx(t, 1000) for t in up.reshape(-1)], lo=-6000, hi=6000))
        # total mass on unit grids with any phase
        if max(s) < 12:
            for o in (0.0, 0.25, rng.random()):
                r = int(8 * max(s)) + 3
                grid = torch.arange(-r, r + 1, dtype=dt).reshape(-1, 1) + o + mu_t.round()
                pg = n.prob(grid).double()
                for j in range(b):
                    ev.append(dict(op="mass", case=f"{case}-o{o:.2f}-{j}", p=[fx(t, 1e6) for t in pg[:, j].tolist()], tol=60))
        # gradient of the log density in value, location and scale
        if dt == torch.float64:
            vg = v.clone().requires_grad_(True)
            mg, sg = mu_t.clone().requires_grad_(True), s_t.clone().requires_grad_(True)
            NoisyNormal(mg, sg).log_prob(vg).sum().backward()
            fin = all(bool(torch.isfinite(g).all()) for g in (vg.grad, mg.grad, sg.grad))
            fact("log_prob-gradient-finite", case, fin)
            approx("log_prob-gradient-balance", case, vg.grad.sum(0), (-mg.grad).double().numpy(), 5000000, 1.0)
            want = []
            for i in range(len(rows)):
                for j in range(b):
                    h = 1e-4 * max(sd[j], 0.1)
                    want.append((logmass(vd[i, j] + h, mud[j], sd[j]) - logmass(vd[i, j] - h, mud[j], sd[j])) / (2 * h))
            sel = [i for i, w in enumerate(want) if abs(w) < 1e3]
            approx("log_prob-gradient", case, vg.grad.reshape(-1)[sel], [want[i] for i in sel], 5000000, 0.3)
        # delegated to the base law
        w = v.float().to(dt)
        approx("cdf-is-base", case, n.cdf(w), base.cdf(w).double().numpy(), 100, 1e-6)
        approx("mean-is-base", case, n.mean, mud, 100, 1e-3)
        approx("offset", case, n.quantization_offset, [m - round(m) for m in mud], 3000, 1.0)
        for tm in (0.3, 2 ** -8):
            approx("lower_tail", case, n.lower_tail(tm), F.lower_tail(base, tm).double().numpy(), 100, 1e-3)
            approx("upper_tail", case, n.upper_tail(tm), F.upper_tail(base, tm).double().numpy(), 100, 1e-3)
        approx("survival-is-base", case, n.survival_function(w), sp.ndtr(-((w.double().numpy() - np.array(mud)) / np.array(sd))), 100000, 1e-3)

    # ---- other bases on the real line
    for k in range(ctx.pick(6, 30)):
        for name, d in (("laplace", D.Laplace(torch.tensor([rng.uniform(-3, 3)]), torch.tensor([rng.uniform(0.3, 3)]))),
                        ("cauchy", D.Cauchy(torch.tensor([rng.uniform(-3, 3)]), torch.tensor([rng.uniform(0.3, 3)]))),
                        ("gumbel", D.Gumbel(torch.tensor([rng.uniform(-3, 3)]), torch.tensor([rng.uniform(0.3, 3)])))):
            d = d.__class__(d.loc.double(), d.scale.double())
            n = UniformNoise(d)
            v = (float(d.loc) + torch.tensor([rng.uniform(-1.5, 3) for _ in range(20)]).double() * float(d.scale)).reshape(-1, 1)
            if name == "gumbel":
                v = v.clamp(float(d.loc) + 0.5 - 1.5 * float(d.scale))
            m = (d.cdf(v + 0.5) - d.cdf(v - 0.5)).double().numpy()
            keep = m.reshape(-1) > 1e-4
            approx("prob", f"{name}{k}", n.prob(v)[torch.tensor(keep)], m[keep], 20000, 1e-4)
            approx("log_prob", f"{name}{k}", n.log_prob(v)[torch.tensor(keep)], np.log(m[keep]), 200000, 0.1)

    # ---- shapes, expansion, sampling
    for k, bs in enumerate([(), (1,), (5,), (2, 3), (4, 1, 2)] * ctx.pick(1, 4)):
        mu = torch.tensor([rng.uniform(-40, 40) for _ in range(max(1, int(np.prod(bs))))]).reshape(bs)
        for mk, nm in ((lambda: NoisyNormal(mu, torch.full_like(mu, 1e-6)), "normal"), (lambda: UniformNoise(D.Laplace(mu, 1e-6)), "laplace"),
                       (lambda: UniformNoise(D.Uniform(mu - 1e-6 - mu.abs() * 1e-6, mu + 1e-6 + mu.abs() * 1e-6, validate_args=False)), "uniform")):
            n = mk()
            case = f"{nm}-{'x'.join(map(str, bs))}-{k}"
            shape("batch", case, n.batch_shape, bs)
            torch.manual_seed(rng.randrange(1 << 30))
            for ss in ((), (3,), (4, 2)):
                shape("rsample", case, n.rsample(torch.Size(ss)).shape, list(ss) + list(bs))
                shape("sample", case, n.sample(torch.Size(ss)).shape, list(ss) + list(bs))
            N = 4000
            x = n.rsample(torch.Size((N,))).double() - mu.double()
            x = x.reshape(N, -1)
            ev.append(dict(op="between", case=case, fn="noise-support", v=[fx(x.min(), 1e6), fx(x.max(), 1e6)], lo=-500100, hi=500100))
            ev.append(dict(op="between", case=case, fn="noise-mean", v=[fx(t, 1e6) for t in x.mean(0)], lo=-30000, hi=30000))
            ev.append(dict(op="between", case=case, fn="noise-variance", v=[fx(t, 1e6) for t in x.var(0)], lo=74000, hi=93000))
            ev.append(dict(op="between", case=case, fn="noise-reaches-ends", v=[fx(t, 1e6) for t in (x.max(0).values - x.min(0).values)], lo=980000, hi=1000300))
            if x.shape[1] > 1:
                cc = np.corrcoef(x.numpy().T)
                off = cc[~np.eye(len(cc), dtype=bool)]
                ev.append(dict(op="between", case=case, fn="noise-independent-across-batch", v=[fx(t, 1e6) for t in off], lo=-120000, hi=120000))
            cc = np.corrcoef(x[:-1, 0].numpy(), x[1:, 0].numpy())[0, 1]
            ev.append(dict(op="between", case=case, fn="noise-independent-across-samples", v=[fx(cc, 1e6)], lo=-120000, hi=120000))
            # expansion keeps the law
            want = [2, 3] + list(bs)
            ok, e, err = core.guarded(n.expand, torch.Size(want))
            if not ok:
                ev.append(dict(op="refuse", case=case, fn="expand", err=err, want=""))
            else:
                shape("expand", case, e.batch_shape, want)
                fact("expand-keeps-noise", case, hasattr(e, "prob"))
                if hasattr(e, "prob"):
                    pt = mu + 0.3
                    approx("expand-prob", case, e.prob(pt.expand(want)), torch.ones(want).numpy(), 1000)
                    spread = e.rsample() - mu
                    ev.append(dict(op="between", case=case, fn="expand-noise", v=[fx(t, 1e6) for t in spread.reshape(-1).tolist()], lo=-500100, hi=500100))
                    fact("expand-noise-present", case, float(spread.abs().max()) > 1e-3)
    # expansion to as many dimensions as before
    for k, (bs, want) in enumerate([((1, 3), (4, 3)), ((1,), (6,)), ((3, 1), (3, 5)), ((2, 3), (2, 3)), ((1, 1), (4, 2)), ((5,), (5,))]):
        mu = torch.tensor([rng.uniform(-40, 40) for _ in range(int(np.prod(bs)))]).reshape(bs)
        for n, nm in ((NoisyNormal(mu, torch.full_like(mu, 1e-6)), "normal"), (UniformNoise(D.Laplace(mu, torch.full_like(mu, 1e-6))), "laplace")):
            case = f"{nm}-expand-{'x'.join(map(str, bs))}"
            ok, e, err = core.guarded(n.expand, torch.Size(want))
            if not ok:
                ev.append(dict(op="refuse", case=case, fn="expand", err=err, want=""))
                continue
            shape("expand", case, e.batch_shape, want)
            fact("expand-keeps-noise", case, hasattr(e, "prob"))
            if hasattr(e, "prob"):
                approx("expand-prob", case, e.prob((mu + 0.3).expand(want)), np.ones(want), 1000)
                approx("expand-mean", case, e.mean, mu.expand(want).double().numpy(), 100, 1e-3)
                torch.manual_seed(rng.randrange(1 << 30))
                spread = e.rsample(torch.Size((50,))) - mu
                shape("expand-rsample", case, spread.shape, (50,) + want)
                ev.append(dict(op="between", case=case, fn="expand-noise", v=[fx(t, 1e6) for t in spread.reshape(-1).tolist()], lo=-500100, hi=500100))
                fact("expand-noise-present", case, float(spread.abs().max()) > 0.2)
                distinct = len({round(float(t), 7) for t in spread[0].reshape(-1)})
                fact("expand-noise-independent", case, distinct >= min(2, int(np.prod(want))) and distinct > int(np.prod(want)) - 2)
    # base spread is kept and samples are differentiable in the parameters
    torch.manual_seed(rng.randrange(1 << 30))
    mu = torch.tensor([3.0, -2.0], requires_grad=True)
    s = torch.tensor([2.0, 0.5], requires_grad=True)
    x = NoisyNormal(mu, s).rsample(torch.Size((20000,)))
    xd = x.detach().double()
    approx("sample-mean", "spread", xd.mean(0), [3.0, -2.0], 30000000, 1.0)
    approx("sample-variance", "spread", xd.var(0), [4 + 1 / 12, 0.25 + 1 / 12], 60000000, 0.1)
    ok, _, err = core.guarded(lambda: x.sum().backward())
    ev.append(dict(op="refuse", case="rsample-grad", fn="rsample-differentiable", err=err, want=""))
    if ok:
        approx("rsample-grad-loc", "spread", mu.grad, [20000.0, 20000.0], 1000, 1.0)
        z = s.grad / 20000
        ev.append(dict(op="between", case="rsample-grad-scale", fn="rsample-grad-scale", v=[fx(t, 1e6) for t in z.tolist()], lo=-60000, hi=60000))
        s2 = torch.tensor([2.0], requires_grad=True)
        y = NoisyNormal(torch.tensor([0.0]), s2).rsample(torch.Size((2000,)))
        (y ** 2).mean().backward()
        approx("rsample-grad-energy", "spread", s2.grad, [4.0], 60000000, 1.0)
    fact("sample-has-no-gradient", "spread", not NoisyNormal(mu, s).sample(torch.Size((3,))).requires_grad)
    ctx.assumptions.append("sampling clauses are statistical with bounds of at least six standard errors")
    ctx.validate("DistTrace", ev)
