"""C10 cumulative, survival and tail functions."""
import math

from .. import core
from ..core import ranks, rel


def run(ctx):
    import numpy as np
    import scipy.special as sp
    import scipy.stats as st
    import torch
    import torch.distributions as D
    import neuralcompression.functional as F

    ctx.design("DistLaws")
    ev = []
    rng = ctx.rng

    def approx(fn, case, got, ref, tol, floor=0.0, ok=True):
        got = got.detach().double().reshape(-1).tolist() if hasattr(got, "detach") else got
        ref = np.asarray(ref, dtype=np.float64).reshape(-1).tolist()
        if len(got) != len(ref):
            ev.append(dict(op="shape", case=case, fn=fn, got=[len(got)], want=[len(ref)]))
            return
        ev.append(dict(op="approx", case=case, fn=fn, ok=ok, tol=tol, v=[rel(a, b, floor) for a, b in zip(got, ref)]))

    special = [-1e4, -300.0, -100.0, -40.0, -20.5, -20.0, -19.0, -15.0, -14.1, -13.9, -12.0, -10.5, -10.0, -9.99, -9.0, -8.0, -5.5, -5.0,
               -3.0, -1.5, -1.0, -0.999, -0.5, -1e-3, 0.0, 1e-3, 0.5, 0.999, 1.0, 1.001, 2.0, 3.0, 4.99, 5.0, 5.01, 6.0, 7.9, 8.0, 8.1, 9.0,
               12.0, 13.9, 30.0, 100.0, 1e4]
    batches = [special] + [[rng.uniform(-s, s) for _ in range(60)] for s in (1, 4, 12, 22, 200)] * ctx.pick(1, 6)
    for dt, name in ((torch.float32, "f32"), (torch.float64, "f64")):
        for bi, xs in enumerate(batches):
            xs = sorted(xs)
            x = torch.tensor(xs, dtype=dt)
            xd = x.double().numpy()
            x.requires_grad_(True)
            y = F.ndtr(x)
            # ndtr is documented/tested in single precision; relative accuracy holds down to its underflow
            keep = [i for i, v in enumerate(xd) if v > -12.5]
            approx("ndtr", f"{name}-b{bi}", y[keep], sp.ndtr(xd[keep]), 20000, 0.0)
            low = [i for i, v in enumerate(xd) if v <= -12.5]
            if low:
                approx("ndtr-underflow", f"{name}-b{bi}", y[low], sp.ndtr(xd[low]), 2000, 1e-30)
            ev.append(dict(op="order", case=f"{name}-b{bi}", fn="ndtr", dir=1, rank=ranks(y.tolist())))
            ly = F.log_ndtr(x)
            approx("log_ndtr", f"{name}-b{bi}", ly, sp.log_ndtr(xd), 500, 0.1)
            big = [i for i, v in enumerate(xd) if v > 5.0]
            if big:
                approx("log_ndtr-upper", f"{name}-b{bi}", ly[big], sp.log_ndtr(xd[big]), 6000, 1e-30)
            ly.sum().backward()
            approx("log_ndtr-gradient", f"{name}-b{bi}", x.grad, np.exp(st.norm.logpdf(xd) - sp.log_ndtr(xd)), 8000, 1e-3)
            shp = torch.tensor(xs[:12], dtype=dt).reshape(3, 2, 2)
            for f in (F.ndtr, F.log_ndtr):
                ev.append(dict(op="shape", case=f"{name}-b{bi}", fn=f.__name__, got=list(f(shp).shape), want=[3, 2, 2]))
    # arbitrarily far out: -x*x/2 and -x are the logarithm and its slope there
    for dt, name, top in ((torch.float32, "f32", 18), (torch.float64, "f64", 150)):
        far = [-(10 ** e) * m for e in ([4, 5, 6, 8, 10, 12, 13, 15, 17, top] + [rng.uniform(4, top) for _ in range(6)]) for m in (1.0, rng.uniform(0.5, 1))]
        for grad in (True, False):
            x = torch.tensor(far, dtype=dt, requires_grad=grad)
            y = F.log_ndtr(x)
            xd = x.detach().double().numpy()
            approx("log_ndtr-far", f"{name}-{grad}", y / torch.tensor(-xd * xd / 2), np.ones(len(far)), 500)
            if grad:
                y.sum().backward()
                approx("log_ndtr-far-gradient", name, x.grad / torch.tensor(-xd), np.ones(len(far)), 8000)
            up = F.log_ndtr(-x)
            fact_ok = bool((up == 0).all())
            ev.append(dict(op="fact", case=f"{name}-{grad}", fn="log_ndtr-far-up-is-zero", holds=fact_ok))
            if grad:
                x.grad = None
                up.sum().backward()
                ev.append(dict(op="fact", case=name, fn="log_ndtr-far-up-gradient-is-zero", holds=bool((x.grad == 0).all())))
    for dt in (torch.float16, torch.int64, torch.int32, torch.bfloat16):
        ok, _, err = core.guarded(F.log_ndtr, torch.ones(3).to(dt))
        ev.append(dict(op="refuse", case=f"log_ndtr-{dt}", fn="log_ndtr-dtype", err=err, want="TypeError"))

    # ---- Normal cdf / survival with location and scale, broadcasting
    for k in range(ctx.pick(14, 80)):
        n, m = rng.choice([(1, 5), (4, 1), (3, 7)])
        loc = np.array([[rng.choice([0.0, rng.uniform(-50, 50), rng.uniform(-1, 1)])] for _ in range(n)]).astype(np.float32)
        sc = np.array([[10 ** rng.uniform(-2, 2)] for _ in range(n)]).astype(np.float32)
        z = np.array([[rng.choice([rng.uniform(-3, 3), rng.uniform(-9, 9), rng.uniform(-35, 35)]) for _ in range(m)] for _ in range(n)])
        x = (loc + sc * z).astype(np.float64)
        xt, lt, stt = torch.tensor(x), torch.tensor(loc).double(), torch.tensor(sc).double()
        d = D.Normal(lt, stt)
        zz = (x - lt.numpy()) / stt.numpy()
        approx("normal-log_cdf", f"normal{k}", F.log_cdf(xt, d), sp.log_ndtr(zz), 500, 0.1)
        approx("normal-log_survival", f"normal{k}", F.log_survival_function(xt, d), sp.log_ndtr(-zz), 500, 0.1)
        approx("normal-survival", f"normal{k}", F.survival_function(xt, d), sp.ndtr(-zz), 20000, 1e-30)
        hi = [[float(v)] for v in (-0.2, 3.0)]
        approx("survival-complements-cdf", f"normal{k}", F.survival_function(xt, d).double() + d.cdf(xt).double(), np.ones_like(x), 100)
        ev.append(dict(op="shape", case=f"normal{k}", fn="log_cdf", got=list(F.log_cdf(xt, d).shape), want=[n, m]))
        for tm in (0.5, 0.1, 2 ** -8, 1e-4):
            a, b = F.lower_tail(d, tm), F.upper_tail(d, tm)
            q = st.norm.ppf(tm / 2)
            tol = 100000 if tm > 1e-3 else 1000000
            approx("normal-lower_tail", f"normal{k}-{tm}", (a - lt) / stt, np.full((n, 1), q), tol, 1.0)
            approx("normal-upper_tail", f"normal{k}-{tm}", (b - lt) / stt, np.full((n, 1), -q), tol, 1.0)
            ev.append(dict(op="fact", case=f"normal{k}-{tm}", fn="tails-carry-no-gradient", holds=not (a.requires_grad or b.requires_grad)))
    lg = torch.tensor(0.3, requires_grad=True)
    t = F.upper_tail(D.Normal(lg, 1.0), 0.1)
    t2 = F.lower_tail(D.Normal(lg, 1.0), 0.1)
    ev.append(dict(op="fact", case="learned-loc", fn="tails-carry-no-gradient", holds=not t.requires_grad and not t2.requires_grad))

    # ---- every other distribution: logs and complements of its own cdf
    def others():
        yield "laplace", D.Laplace(rng.uniform(-3, 3), rng.uniform(0.2, 4)), None
        yield "cauchy", D.Cauchy(rng.uniform(-3, 3), rng.uniform(0.2, 4)), None
        yield "gumbel", D.Gumbel(rng.uniform(-3, 3), rng.uniform(0.2, 4)), None
        lo = rng.uniform(-5, 5)
        yield "uniform", D.Uniform(lo, lo + rng.uniform(0.3, 6)), None
        yield "exponential", D.Exponential(rng.uniform(0.2, 4)), 0.0
        yield "gamma", D.Gamma(rng.uniform(0.5, 4), rng.uniform(0.2, 4)), 0.0
        yield "lognormal", D.LogNormal(rng.uniform(-1, 1), rng.uniform(0.2, 1)), 0.0
        yield "mixture", D.MixtureSameFamily(D.Categorical(torch.tensor([0.3, 0.7])), D.Normal(torch.tensor([-2.0, 3.0]), torch.tensor([0.7, 1.5]))), None

    for k in range(ctx.pick(4, 20)):
        for name, d, support in others():
            torch.manual_seed(rng.randrange(1 << 30))
            x = d.sample((40,)).sort().values
            c = d.cdf(x).double().numpy()
            inner = [i for i in range(40) if 1e-3 < c[i] < 1 - 1e-3]
            if not inner:
                continue
            x, c = x[inner], c[inner]
            lc, ls, s = F.log_cdf(x, d), F.log_survival_function(x, d), F.survival_function(x, d)
            approx("log_cdf", f"{name}{k}", lc, np.log(c), 200000, 1e-2)
            approx("log_survival", f"{name}{k}", ls, np.log1p(-c), 200000, 1e-2)
            approx("survival", f"{name}{k}", s, 1 - c, 200000, 1e-3)
            ev.append(dict(op="order", case=f"{name}{k}", fn="log_cdf", dir=1, rank=ranks([round(v, 5) for v in lc.tolist()])))
            ev.append(dict(op="order", case=f"{name}{k}", fn="log_survival", dir=-1, rank=ranks([round(v, 5) for v in ls.tolist()])))
            if name in ("laplace", "cauchy", "gumbel", "uniform", "lognormal", "exponential"):
                for tm in (0.5, 0.05):
                    lo, hi = F.lower_tail(d, tm), F.upper_tail(d, tm)
                    approx("mass-below-lower_tail", f"{name}{k}-{tm}", d.cdf(lo), [tm / 2], 2000000, 1e-2)
                    approx("mass-above-upper_tail", f"{name}{k}-{tm}", 1 - d.cdf(hi), [tm / 2], 2000000, 1e-2)
    # deep in the lower tail the logarithm of a cdf that is still representable stays accurate
    class Logistic(D.Distribution):
        arg_constraints = {}

        def cdf(self, value):
            return torch.sigmoid(value)

    for dt in (torch.float32, torch.float64):
        ps = [10 ** -rng.uniform(5, 35) for _ in range(8)] + [1e-9, 1e-10, 1e-12, 1e-20, 1e-30]
        w = 2.0 ** rng.randint(-2, 3)
        x = torch.tensor([p * w for p in ps], dtype=dt)
        approx("log_cdf-deep", f"uniform-{dt}", F.log_cdf(x, D.Uniform(torch.tensor(0.0, dtype=dt), torch.tensor(w, dtype=dt))),
               [math.log(v / w) for v in x.tolist()], 3000, 0.1)
        x = torch.tensor([-rng.uniform(10, 80) for _ in range(8)] + [-30.0, -60.0], dtype=dt)
        approx("log_cdf-deep", f"logistic-{dt}", F.log_cdf(x, Logistic()), [v - math.log1p(math.exp(v)) for v in x.tolist()], 3000, 0.1)
    # out-of-support uniform
    u = D.Uniform(-1.0, 3.0)
    approx("log_cdf", "uniform-outside", F.log_cdf(torch.tensor([-5.0, -1.0, 1.0, 3.0, 9.0]), u), [-math.inf, -math.inf, math.log(0.5), 0.0, 0.0], 200, 1e-3)

    # ---- tails when only a cdf is known (iterative estimate)
    for k in range(ctx.pick(2, 8)):
        w = torch.tensor([0.4, 0.6])
        mu = torch.tensor([[-2.0 - k, 1.0], [0.5, 4.0 + k], [3.0, 6.0], [-7.0, -5.0]])
        d = D.MixtureSameFamily(D.Categorical(w.expand(4, 2)), D.Normal(mu, torch.tensor([0.7, 1.2]).expand(4, 2)))
        for tm in (0.3, 2 ** -8):
            lo, hi = F.lower_tail(d, tm), F.upper_tail(d, tm)
            for nm, v, c in (("lower", lo, d.cdf(lo)), ("upper", hi, 1 - d.cdf(hi))):
                ev.append(dict(op="shape", case=f"mixture-{nm}{k}-{tm}", fn="estimated_tail", got=list(v.shape), want=[4]))
                approx(f"mass-beyond-estimated-{nm}_tail", f"mixture{k}-{tm}", c, [tm / 2] * 4, 15000000 if tm > 0.01 else 30000000, 0.0)
                ev.append(dict(op="fact", case=f"mixture-{nm}{k}", fn="tails-carry-no-gradient", holds=not v.requires_grad))

    class NoCdf(D.Distribution):
        arg_constraints = {}

    ok, _, err = core.guarded(F.lower_tail, NoCdf(), 0.1)
    ok, _, err2 = core.guarded(F.upper_tail, NoCdf(), 0.1)
    ev.append(dict(op="refuse", case="nocdf", fn="tails-need-cdf", err=err, want="NotImplementedError"))
    ev.append(dict(op="refuse", case="nocdf", fn="tails-need-cdf", err=err2, want="NotImplementedError"))

    # ---- estimate_tails directly: finds func(x) = target for monotone functions on both sides
    for k in range(ctx.pick(5, 24)):
        c, s = rng.uniform(-4, 4), rng.uniform(0.6, 2)
        tgt = rng.uniform(0.15, 0.85)
        shape = rng.choice([(3,), (2, 2), (1,)])
        got = F.estimate_tails(lambda v: torch.sigmoid((v - c) / s), tgt, torch.Size(shape), device="cpu")
        ref = c + s * math.log(tgt / (1 - tgt))
        ev.append(dict(op="shape", case=f"est{k}", fn="estimate_tails", got=list(got.shape), want=list(shape)))
        if abs(ref) > 0.3:
            ev.append(dict(op="between", case=f"est{k}", fn="estimate_tails", v=[core.fx(v - ref, 1e6) for v in got.detach().reshape(-1).tolist()], lo=-60000, hi=60000))

    # ---- log_expm1
    for k in range(ctx.pick(6, 30)):
        xs = sorted([10 ** rng.uniform(-6, 3) for _ in range(30)] + [14.9, 14.999, 15.0, 15.001, 20.0, 80.0, 90.0, 1e5])
        for dt in (torch.float32, torch.float64):
            x = torch.tensor(xs, dtype=dt, requires_grad=True)
            y = F.log_expm1(x)
            xd = x.detach().double().numpy()
            ref = np.where(xd > 30, xd, np.log(np.expm1(np.minimum(xd, 30))))
            approx("log_expm1", f"log_expm1-{k}-{dt}", y, ref, 3000, 0.1)
            ev.append(dict(op="order", case=f"log_expm1-{k}-{dt}", fn="log_expm1", dir=1, rank=ranks([round(v, 5) for v in y.tolist()])))
            y.sum().backward()
            approx("log_expm1-gradient", f"log_expm1-{k}-{dt}", x.grad, np.where(xd > 30, 1.0, 1 / -np.expm1(-np.minimum(xd, 30))), 10000)

    # ---- quantization offset: distance of the mean to the nearest integer, no gradient
    for k in range(ctx.pick(20, 100)):
        m = rng.choice([rng.randint(-9, 9) / 4, rng.randint(-900, 900) / 64, float(rng.randint(-5, 5)), rng.randint(-99, 99) / 2])
        for d in (D.Normal(torch.tensor([m, -m]), 1.0), D.Laplace(torch.tensor([m, -m]), 3.0)):
            o = F.quantization_offset(d)
            q = [a - round(a) for a in (m, -m)]
            approx("quantization_offset", f"offset{m}", o, q, 10, 1.0)
    lg = torch.tensor(0.3, requires_grad=True)
    ev.append(dict(op="fact", case="learned", fn="offset-carries-no-gradient", holds=not F.quantization_offset(D.Normal(lg, 1.0)).requires_grad))

    class NoMean:
        pass

    approx("quantization_offset", "nomean", F.quantization_offset(NoMean()).reshape(1), [0.0], 0, 1.0)
    ctx.assumptions.append("single precision accuracy (the library evaluates ndtr in float32); tails of non-Normal laws judged where their own cdf is representable")
    ctx.validate("DistTrace", ev)
