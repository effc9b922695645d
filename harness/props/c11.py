"""C11 soft rounding and lower bounding."""
import math

from .. import core
from ..core import fx, ranks, rel


def run(ctx):
    import torch
    import neuralcompression.functional as F

    ctx.design("Surrogates")
    ev, rng = [], ctx.rng

    def approx(fn, case, got, ref, tol, floor=1.0):
        got = got.detach().double().reshape(-1).tolist() if hasattr(got, "detach") else list(got)
        ev.append(dict(op="approx", case=case, fn=fn, ok=len(got) == len(ref), tol=tol, v=[rel(a, b, floor) for a, b in zip(got, ref)]))

    def soft(x, a):
        m = math.floor(x) + 0.5
        return m + math.tanh(a * (x - m)) / (2 * math.tanh(a / 2))

    def soft_inv(y, a):
        m = math.floor(y) + 0.5
        t = (y - m) * 2 * math.tanh(a / 2)
        if abs(t) >= 1:
            return m + math.copysign(0.5, t)
        return m + max(-0.5, min(0.5, math.atanh(t) / a))

    alphas = [0.0, 1e-13, 1e-4, 9.9e-4, 2e-3, 0.05, 0.5, 1.0, 2.0, 3.7, 5.0, 7.5, 12.0, 25.0, 60.0, 300.0] + [10 ** rng.uniform(-2.5, 2) for _ in range(ctx.pick(4, 30))]
    for ai, a in enumerate(alphas):
        for dt in (torch.float32, torch.float64):
            case = f"alpha{a:.4g}-{'f32' if dt == torch.float32 else 'f64'}"
            off = rng.randint(-20, 20)
            xs = sorted([off + rng.uniform(-2, 2) for _ in range(50)] + [off + k / 8 for k in range(-16, 17)] + [off + 0.5 - 1e-3, off + 0.5 + 1e-3])
            x = torch.tensor(xs, dtype=dt, requires_grad=True)
            xd = x.detach().double().tolist()
            ident = a < 1e-3
            y = F.soft_round(x, a)
            yd = y.detach().double().tolist()
            # float32 argument rounding is amplified by the slope (about a/2 at half-integers)
            unit = 3e-7 * (abs(off) + 3) if dt == torch.float32 else 3e-7
            ref = [v if ident else soft(v, a) for v in xd]
            slack = [unit * (1 + (0 if ident else a * (1 - math.tanh(a * (v - math.floor(v) - 0.5)) ** 2) / (2 * math.tanh(a / 2)))) + 1e-6 for v in xd]
            ev.append(dict(op="between", case=case, fn="soft-round-value", v=[fx((p - q) / s, 1000) for p, q, s in zip(yd, ref, slack)], lo=-4000, hi=4000))
            ev.append(dict(op="order", case=case, fn="soft-round", dir=1, rank=ranks([round(v, 5) for v in yd])))
            ev.append(dict(op="shape", case=case, fn="soft-round", got=list(F.soft_round(x.reshape(-1, 1)[:6].reshape(2, 3), a).shape), want=[2, 3]))
            ints = torch.tensor([float(k) for k in range(-6, 7)] + [k + 0.5 for k in range(-6, 7)], dtype=dt)
            if a < 20:
                approx("soft-round-fixes-half-integers", case, F.soft_round(ints, a), ints.tolist(), 300 if dt == torch.float32 else 100)
            y.sum().backward()
            gr = x.grad.double().tolist()
            gref = [1.0 if ident else a * (1 - math.tanh(a * (v - math.floor(v) - 0.5)) ** 2) / (2 * math.tanh(a / 2)) for v in xd]
            gs = [1e-4 + unit * a * (a + 1) * 2 + (1e-6 * a * a) for _ in xd]
            ev.append(dict(op="between", case=case, fn="soft-round-gradient", v=[fx((p - q) / s, 1000) for p, q, s in zip(gr, gref, gs)], lo=-4000, hi=4000))
            # inverse
            z = F.soft_round_inverse(x.detach(), a)
            zd = z.double().tolist()
            zref = [v if ident else soft_inv(v, a) for v in xd]
            keep = [i for i, v in enumerate(xd) if ident or abs(v - math.floor(v) - 0.5) * 2 < 0.999]
            zs = []
            for i in range(len(xd)):
                if ident:
                    zs.append(unit + 1e-6)
                else:
                    t = (xd[i] - math.floor(xd[i]) - 0.5) * 2 * math.tanh(a / 2)
                    zs.append((unit * 2 + 1e-6) * (1 + 2 * math.tanh(a / 2) / a / max(1e-7, 1 - t * t)) + 1e-6)
            ev.append(dict(op="between", case=case, fn="inverse-value", v=[fx((zd[i] - zref[i]) / zs[i], 1000) for i in keep], lo=-4000, hi=4000))
            ev.append(dict(op="order", case=case, fn="inverse", dir=1, rank=ranks([round(v, 4) for v in zd])))
            ev.append(dict(op="between", case=case, fn="inverse-stays-in-cell", v=[fx(p - q, 1e6) for p, q in zip(zd, xd)], lo=-500100 - int(unit * 2e6), hi=500100 + int(unit * 2e6)))
            ev.append(dict(op="fact", case=case, fn="inverse-finite-at-integers", holds=bool(torch.isfinite(F.soft_round_inverse(torch.arange(-4, 5).to(dt), a)).all())))
            if a <= 6:
                inner = x.detach()[[i for i, v in enumerate(xd) if 0.02 < v - math.floor(v) < 0.98]]
                back = F.soft_round_inverse(F.soft_round(inner, a), a)
                amp = 1.0 if ident else max(1.0, 2 * math.tanh(a / 2) / a * math.cosh(a / 2) ** 2)
                ev.append(dict(op="between", case=case, fn="inverse-inverts", v=[fx((p - q) / (8 * amp * (unit + 5e-7)), 1000) for p, q in zip(back.double().tolist(), inner.double().tolist())], lo=-4000, hi=4000))
                fwd = F.soft_round(F.soft_round_inverse(inner, a), a)
                ev.append(dict(op="between", case=case, fn="inverse-is-inverted", v=[fx((p - q) / (8 * (1 + a) * (unit + 5e-7)), 1000) for p, q in zip(fwd.double().tolist(), inner.double().tolist())], lo=-4000, hi=4000))
            # conditional mean: centre of the unit interval of values whose soft rounding is within 1/2
            c = F.soft_round_conditional_mean(x.detach(), a)
            cref = [v if ident else soft_inv(v - 0.5, a) + 0.5 for v in xd]
            ck = [i for i, v in enumerate(xd) if ident or abs(v - 0.5 - math.floor(v - 0.5) - 0.5) * 2 < 0.999]
            cs = []
            for i in range(len(xd)):
                if ident:
                    cs.append(unit + 1e-6)
                else:
                    w = xd[i] - 0.5
                    t = (w - math.floor(w) - 0.5) * 2 * math.tanh(a / 2)
                    cs.append((unit * 2 + 1e-6) * (1 + 2 * math.tanh(a / 2) / a / max(1e-7, 1 - t * t)) + 1e-6)
            cd = c.double().tolist()
            ev.append(dict(op="between", case=case, fn="conditional-mean-value", v=[fx((cd[i] - cref[i]) / cs[i], 1000) for i in ck], lo=-4000, hi=4000))
    # the identity threshold is a parameter
    for eps in (1e-3, 0.1, 3.0):
        for a in (eps * 0.99, eps * 1.01):
            x = torch.tensor([0.2, 1.3, -2.4, 5.9], dtype=torch.float64)
            want = x.tolist() if a < eps else [soft(v, a) for v in x.tolist()]
            approx("soft-round-threshold", f"eps{eps}-a{a:.4g}", F.soft_round(x, a, eps), want, 200)
            want = x.tolist() if a < eps else [soft_inv(v, a) for v in x.tolist()]
            approx("inverse-threshold", f"eps{eps}-a{a:.4g}", F.soft_round_inverse(x, a, eps), want, 20000)

    # ---- lower bound: exact integers
    for k in range(ctx.pick(90, 500)):
        mode = ["disconnected", "identity", "identity_if_towards"][k % 3]
        kind = ["float", "scalar", "row", "full", "int"][k % 5]
        r, c = rng.choice([(1, 5), (3, 4), (2, 8)])
        dt = rng.choice([torch.float32, torch.float64, torch.float16])
        xs = [[rng.randint(-4, 4) for _ in range(c)] for _ in range(r)]
        us = [[rng.choice([-3, -2, -1, 0, 1, 2, 5]) for _ in range(c)] for _ in range(r)]
        if kind in ("float", "scalar", "int"):
            b0 = rng.randint(-3, 3)
            bs = [[b0] * c] * r
            bound = float(b0) if kind == "float" else (torch.tensor(float(b0)) if kind == "scalar" else torch.tensor(b0))
        elif kind == "row":
            row = [rng.randint(-3, 3) for _ in range(c)]
            bs, bound = [row] * r, torch.tensor(row, dtype=torch.float32)
        else:
            bs = [[rng.randint(-3, 3) for _ in range(c)] for _ in range(r)]
            bound = torch.tensor(bs, dtype=torch.float32)
        x = torch.tensor(xs, dtype=dt, requires_grad=True)
        if hasattr(bound, "dtype") and bound.is_floating_point():
            bound.requires_grad_(True)

        def go():
            y = F.lower_bound(x, bound, mode) if k % 7 or mode != "identity_if_towards" else F.lower_bound(x, bound)
            y.backward(torch.tensor(us, dtype=dt))
            return y

        ok, y, err = core.guarded(go)
        flat = lambda m: [int(v) for row in m for v in row]  # noqa: E731
        e = dict(op="bound", case=f"lb{k}-{mode}-{kind}", mode=mode, x=flat(xs), b=flat(bs), u=flat(us), ok=ok, err=err, y=[], dx=[], dtype=True, bgrad=True)
        if ok:
            e.update(y=flat(y.tolist()), dx=flat(x.grad.tolist()), dtype=y.dtype == dt,
                     bgrad=getattr(bound, "grad", None) is None or not bool(bound.grad.abs().sum()))
        ev.append(e)
    # bounds and values that are not binary fractions: the bound counts in the precision of the input
    for k in range(ctx.pick(24, 120)):
        mode = ["identity", "identity_if_towards", "disconnected"][k % 3]
        dt = [torch.float64, torch.float32, torch.float64][(k // 3) % 3]
        n = rng.choice([3, 7])
        b0 = rng.choice([1, 3, 7, -1, -3, 11])
        xi = [rng.choice([b0, rng.randint(-14, 14)]) for _ in range(n)]
        us = [rng.choice([-3, -1, 1, 2]) for _ in range(n)]
        grid = torch.tensor([i / 10 for i in range(-20, 21)], dtype=dt).tolist()
        back = lambda v: grid.index(v) - 20 if v in grid else 999  # noqa: E731
        x = torch.tensor([i / 10 for i in xi], dtype=dt, requires_grad=True)
        bound = b0 / 10 if k % 2 else torch.tensor(b0 / 10, dtype=dt)

        def go():
            y = F.lower_bound(x, bound, mode)
            y.backward(torch.tensor(us, dtype=dt))
            return y

        ok, y, err = core.guarded(go)
        e = dict(op="bound", case=f"lb-tenths{k}-{mode}", mode=mode, x=xi, b=[b0] * n, u=us, ok=ok, err=err, y=[], dx=[], dtype=True, bgrad=True)
        if ok:
            e.update(y=[back(v) for v in y.tolist()], dx=[int(v) for v in x.grad.tolist()], dtype=y.dtype == dt)
        ev.append(e)
    for bad in ("", "Identity", "none", "towards"):
        _, _, err = core.guarded(F.lower_bound, torch.ones(2), torch.tensor(0.0), bad)
        ev.append(dict(op="refuse", case=f"mode-{bad}", fn="lower-bound-mode", err=err, want="ValueError"))
    ctx.validate("SurrogatesTrace", ev)
