"""C05 mean/scale-conditioned integer coder of the video codec."""
import math

from .. import core
from ..core import digest, fx


def run(ctx):
    import torch
    from projects.torch_vct.neural.bottlenecks import GsnConditionalLocScaleShift as Gsn

    ctx.design("TableCoding")
    ev = []
    rng, g = ctx.rng, ctx.torch_gen(5)
    configs = [(10, 32, 0.01, 2 ** -8), (4, 16, 0.01, 2 ** -8), (1, 8, 0.05, 2 ** -6), (7, 21, 0.1, 2 ** -10), (20, 40, 0.01, 2 ** -4)]

    def table_of(mod):
        for s in mod.modules():
            if getattr(s, "quantized_cdf", None) is not None and hasattr(s, "cdf_length"):
                return s
        return None

    def gaussian(k, loc, sc):
        # bin mass of N(loc, sc) on [k-1/2, k+1/2], computed in the lighter tail
        v = abs(k - loc)
        c = lambda t: 0.5 * math.erfc(-t / math.sqrt(2))  # noqa: E731
        return c((0.5 - v) / sc) - c((-0.5 - v) / sc)

    def soft(s):
        return s + 1.0 if s > 0 else 1.0 / (1.0 - s)

    def sidx(s, ns, smin):
        return (math.log(soft(s) + smin) - math.log(smin)) / math.log(256.0 / smin + 1) * (ns - 1)

    def sval(i, ns, smin):
        return math.exp(i / (ns - 1) * math.log(256.0 / smin + 1) + math.log(smin))

    for ci, (nm, ns, smin, tail) in enumerate(configs):
        a = Gsn(num_scales=ns, num_means=nm, min_scale=smin, tail_mass=tail)
        b = Gsn(num_scales=ns, num_means=nm, min_scale=smin, tail_mass=tail)
        tag = f"cfg{ci}"
        r1 = a.update(force=False)
        t = table_of(a)
        d1 = digest(t.quantized_cdf, t.offset, t.cdf_length) if t is not None else ""
        r2 = a.update(force=False)
        t = table_of(a)
        d2 = digest(t.quantized_cdf, t.offset, t.cdf_length) if t is not None else ""
        r3 = a.update(force=True)
        t = table_of(a)
        d3 = digest(t.quantized_cdf, t.offset, t.cdf_length) if t is not None else ""
        ev.append(dict(op="update", case=tag + "-update", first=bool(r1), second=bool(r2), forced=bool(r3), same=d1 == d2,
                       same2=d1 == d3))
        b.update()
        a.eval()
        b.eval()
        # ---- tables
        if t is not None:
            n = len(t.cdf_length)
            rows = sorted(set([0, 1, n - 1, n // 2, ns - 1] + [rng.randrange(n) for _ in range(ctx.pick(24, 150))]))
            for r in rows:
                L = int(t.cdf_length[r])
                cdf = [int(v) for v in t.quantized_cdf[r][:L]]
                off = int(t.offset[r])
                loc = (r // ns) / nm - (0.5 if nm != 1 else 0.0)
                sc = sval(r % ns, ns, smin)
                ref = [int(round(65536 * gaussian(off + i, loc, sc))) for i in range(L - 2)]
                if n != nm * ns:
                    ref = []
                ev.append(dict(op="table", case=f"{tag}-row{r}", cdf=cdf, off=off, ref=ref, over=int(65536 * tail), tailinv=int(1 / tail)))
        # ---- round trips
        shapes = [(1, 3, 5), (2, 4), (3, 1, 2, 2), (1, 2), (1, 16, 4)]
        for k in range(ctx.pick(30, 200)):
            shape = shapes[k % len(shapes)]
            n = int(torch.tensor(shape).prod())
            kind = k % 10
            u = 1024
            if kind == 0:      # in-table values
                mm = [rng.randint(-20 * u, 20 * u) for _ in range(n)]
                xx = [v + rng.randint(-3 * u, 3 * u) for v in mm]
                ss = [rng.uniform(0, 3) for _ in range(n)]
            elif kind == 1:    # far tails
                mm = [rng.randint(-5 * u, 5 * u) for _ in range(n)]
                xx = [rng.choice([-1, 1]) * rng.randint(50 * u, 4000 * u) for _ in range(n)]
                ss = [rng.uniform(-50, 3) for _ in range(n)]
            elif kind == 2:    # exact ties on values
                mm = [rng.randint(-6, 6) * u // 2 for _ in range(n)]
                xx = [rng.randint(-9, 9) * u // 2 for _ in range(n)]
                ss = [rng.uniform(-4, 4) for _ in range(n)]
            elif kind == 3:    # very peaked
                mm = [rng.randint(-4 * u, 4 * u) for _ in range(n)]
                xx = [rng.randint(-8 * u, 8 * u) for _ in range(n)]
                ss = [-10.0 ** rng.uniform(0, 6) for _ in range(n)]
            elif kind == 4:    # wider than the widest table
                mm = [rng.randint(-300 * u, 300 * u) for _ in range(n)]
                xx = [rng.randint(-2000 * u, 2000 * u) for _ in range(n)]
                ss = [10.0 ** rng.uniform(1, 5) for _ in range(n)]
            elif kind == 5:    # huge integers
                u = 2
                mm = [rng.randint(-300000, 300000) * 2 for _ in range(n)]
                xx = [rng.randint(-900000, 900000) for _ in range(n)]
                ss = [rng.uniform(-2, 200) for _ in range(n)]
            elif kind == 6:    # fractional parts that hit the table boundaries
                mm = [rng.randint(-3, 3) * u + rng.choice([-512, -511, 511, 512, 0, 102, 103]) for _ in range(n)]
                xx = [rng.randint(-6 * u, 6 * u) for _ in range(n)]
                ss = [rng.choice([-1e-3, 0.0, 1e-3, 1.0, -1.0]) for _ in range(n)]
            elif kind == 9:    # wide tables, likely values
                ss = [rng.uniform(15, 240) for _ in range(n)]
                mm = [rng.randint(-100 * u, 100 * u) for _ in range(n)]
                xx = [v + int(u * t * rng.uniform(-1.5, 1.5)) for v, t in zip(mm, ss)]
            elif kind == 7:
                mm = [0] * n
                xx = [0] * n
                ss = [0.0] * n
            else:
                mm = [rng.randint(-50 * u, 50 * u) for _ in range(n)]
                xx = [rng.randint(-60 * u, 60 * u) for _ in range(n)]
                ss = [rng.uniform(-3, 20) for _ in range(n)]
            x = (torch.tensor(xx, dtype=torch.float64) / u).float().reshape(shape)
            m = (torch.tensor(mm, dtype=torch.float64) / u).float().reshape(shape)
            s = torch.tensor(ss, dtype=torch.float32).reshape(shape)
            case = f"{tag}-k{k}-kind{kind}-{'x'.join(map(str, shape))}"
            with torch.no_grad():
                ok, val, err = core.guarded(a.compress, x.clone(), s.clone(), m.clone())
                e = dict(op="roundtrip", case=case, u=u, x=xx, m=mm, B=shape[0], ok=ok, err=err, nstr=0, dec=[], rep=[], dev=0,
                         s1="", s2="", d1="", d2="", solo=True, intable=False, bits=0, ideal=0)
                if ok:
                    rep, strings = val
                    ok, dec, err = core.guarded(a.decompress, list(strings), s.clone(), m.clone())
                    e.update(ok=ok, err=err)
                if ok:
                    _, st2 = b.compress(x.clone(), s.clone(), m.clone())
                    dec2 = b.decompress(list(strings), s.clone(), m.clone())
                    lik = a(x.clone(), s.clone(), m.clone(), training=False)[1].double()
                    dd, rr = dec.double(), rep.double()
                    e.update(nstr=len(strings), dec=[int(v) for v in dd.reshape(-1).round().tolist()],
                             rep=[int(v) for v in rr.reshape(-1).round().tolist()],
                             dev=int(bool((dd != dd.round()).any()) or bool((rr != rr.round()).any())),
                             s1=digest(*[bytes(q) for q in strings]), s2=digest(*[bytes(q) for q in st2]),
                             d1=digest(dec), d2=digest(dec2), intable=kind in (0, 7, 9) and ns >= 16,
                             bits=8 * sum(map(len, strings)), ideal=int(-lik.log2().sum()))
                    for i in range(shape[0]):
                        one = a.decompress([strings[i]], s[i:i + 1].clone(), m[i:i + 1].clone())
                        e["solo"] = e["solo"] and torch.equal(one, dec[i:i + 1])
                ev.append(e)
            # ---- forward in both modes
            if k % 2 == 0:
                ok, val, err = core.guarded(a, x.clone(), s.clone(), m.clone(), training=False)
                xg = x.clone().requires_grad_(True)
                ok2, tval, err2 = core.guarded(a, xg, s.clone(), m.clone(), training=True)
                e = dict(op="forward", case=case + "-fwd", u=u, x=xx, m=mm, ok=ok and ok2, err=err + err2, out=[], tout=[], grad=0,
                         tlo=0, thi=0)
                if ok and ok2:
                    tval[0].sum().backward()
                    tl = tval[1].detach()
                    e.update(out=[int(v) for v in val[0].detach().double().round().reshape(-1).tolist()],
                             tout=[int(v) for v in tval[0].detach().double().round().reshape(-1).tolist()],
                             grad=0 if float((xg.grad - 1).abs().max()) < 1e-5 else 1,
                             tlo=1 if float(tl.min()) > 0 else 0, thi=fx(tl.max(), 1e6))
                ev.append(e)
        # ---- likelihood = Gaussian bin mass
        for k in range(ctx.pick(14, 80)):
            mean = rng.choice([0.0, 0.25, -0.3, 7.4, -12.45, 100.1, rng.uniform(-30, 30)])
            sp = rng.choice([-5.0, -1.0, 0.0, 0.7, 3.0, rng.uniform(-10, 12), 60.0, -100.0, -1000.0])
            if k % 3 == 2:
                sp = rng.choice([100.0, 150.0, rng.uniform(64, 260), 250.0, 1000.0])
            base = round(mean)
            ks = list(range(base - 45, base + 46))
            x = torch.tensor(ks, dtype=torch.float32)
            with torch.no_grad():
                p = a(x, torch.full_like(x, sp), torch.full_like(x, mean), training=False)[1].double()
            off = (torch.tensor(mean) - round(mean)).item()
            mi = min(max((off + 0.5) * nm, 0), nm - 1)
            loc = mi / nm - (0.5 if nm != 1 else 0.0)
            si = min(max(round(sidx(sp, ns, smin)), 0), ns - 1)
            sc = sval(si, ns, smin)
            frac = sidx(sp, ns, smin) % 1.0
            if abs(frac - 0.5) < 1e-3:
                continue
            ref = [gaussian(v - base, loc, sc) for v in ks]
            ev.append(dict(op="pmf", case=f"{tag}-pmf-m{mean:.3f}-s{sp:.3f}", p=[fx(v, 1e6) for v in p.tolist()],
                           ref=[fx(v, 1e6) for v in ref], covers=sc < 10,
                           lp=[fx(-math.log2(max(v, 1e-30)), 1e4) for v in p.tolist()], lref=[fx(-math.log2(max(v, 1e-30)), 1e4) for v in ref]))
    ctx.assumptions.append("strings carry at least two symbols: the external rANS extension overruns its buffer on a single in-table symbol")
    ctx.validate("TableCodingTrace", ev)
