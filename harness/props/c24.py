"""C24 Accounting: information content, PSNR, pickled size, flop counts."""
import logging
import math
import os
import pickle
from collections import namedtuple

from ..core import fx, guarded

Payload = namedtuple("Payload", ["strings", "shape"])


def run(ctx):
    import numpy as np
    import torch
    import torch.nn as nn
    import torch.nn.functional as F

    from neuralcompression.functional import count_flops, information_content
    from neuralcompression.metrics import calc_psnr, calc_psnr_numpy, pickle_size_of

    logging.disable(logging.ERROR)
    ctx.design("Account")
    ev, rng = [], ctx.rng
    gen = ctx.torch_gen(24)

    # ---- information content
    for t in range(ctx.pick(150, 1200)):
        B, N = rng.choice([1, 2, 4]), rng.choice([1, 3, 8])
        k = torch.randint(0, 45, (B, N), generator=gen)
        p = 2.0 ** (-k.double())
        if t % 2:
            p = p.float()
        lg = rng.choice([1, 2, 4, 0])
        kw = {1: dict(base=2.0), 2: dict(base=4), 4: dict(base=16.0), 0: {}}[lg]
        lg = lg or 1
        red = rng.choice(["sum", "batch_el", "none", None])
        shp = [(B, N), (B, N, 1), (B, 1, N, 1)][t % 3]
        if t % 5 == 0 and N > 1:
            q = p.t().contiguous().t()
            q = q if len(shp) == 2 else q.unsqueeze(-1).repeat(1, 1, 2)[..., :1]
        elif t % 5 == 1:  # not contiguous in any order
            q = torch.cat([p, p], 1)[:, :N]
            q = q.unsqueeze(-1) if t % 2 else q
        elif t % 5 == 2 and N == 8:
            q = p.view(B, 2, 4).transpose(1, 2)
            k = k.view(B, 2, 4).transpose(1, 2).reshape(B, N)
        else:
            q = p.view(shp)
        ok, v, err = guarded(information_content, q, **kw, **({} if red is None else dict(reduction=red)))
        red = red or "sum"
        want = {"sum": [], "batch_el": [B], "none": list(q.shape)}[red]
        ev.append(dict(op="info", case=f"{tuple(q.shape)}-{red}-{kw}-{t}", err=err, k=k.tolist(), red=red, shape=list(v.shape) if ok else [], want=want, got=[fx(x * lg, 1000) for x in v.reshape(-1)] if ok else [], tol=2 + (3 if t % 2 else 0)))
    for r in ("mean", "batch", ""):
        _, _, err = guarded(information_content, torch.rand(2, 3), reduction=r)
        ev.append(dict(op="refuse", fn="information-reduction", case=r, err=err, want="ValueError"))
    p = torch.rand(2, 3, 4, generator=gen).double() * 0.9 + 0.05
    p.requires_grad_(True)
    information_content(p, reduction="batch_el").sum().backward()
    ev.append(dict(op="fact", fn="information-gradient", case="grad", holds=torch.allclose(p.grad, -1 / (p.detach() * math.log(2)))))

    # ---- PSNR
    for t in range(ctx.pick(150, 1200)):
        shp = rng.choice([(1, 1, 2, 3), (2, 3, 2, 2), (1, 3, 4, 4)])
        kind = ["uint8", "uint8", "float32", "float64", "int16", "int64"][t % 6]
        far = t % 4 == 0
        a = torch.randint(0, 256, shp, generator=gen)
        b = torch.randint(0, 256, shp, generator=gen) if far else (a + torch.randint(-3, 4, shp, generator=gen)).clamp(0, 255)
        if t % 17 == 0:
            b = a.clone()
        dr = rng.choice([None, 255.0, 1.0])
        div = 255.0 if (dr == 1.0 and kind.startswith("float")) else 1.0
        kinds = (kind, kind) if t % 9 else (kind, "float64")
        for lib in ("torch", "numpy"):
            cast = lambda z, kd: (z.double() / div).to(getattr(torch, kd)) if kd.startswith("float") else z.to(getattr(torch, kd))  # noqa: E731
            x, y = cast(a, kinds[0]), cast(b, kinds[1])
            if lib == "numpy":
                x, y = x.numpy(), y.numpy()
            keep = (x.copy(), y.copy()) if lib == "numpy" else (x.clone(), y.clone())
            with np.errstate(divide="ignore"):
                ok, v, err = guarded(calc_psnr if lib == "torch" else calc_psnr_numpy, x, y, **({} if dr is None else dict(data_range=dr)))
            r2 = (255.0 if dr is None else dr) ** 2
            v = float(v) if ok else 0.0
            imp = r2 * 10 ** (-v / 10) * a.numel() * div * div if ok and not math.isinf(v) else 0.0
            same = (lambda p, q: bool(np.array_equal(p, q))) if lib == "numpy" else torch.equal
            ev.append(dict(op="psnr", case=f"{lib}-{kinds}-{dr}-{t}", err=err, a=a.reshape(-1).tolist(), b=b.reshape(-1).tolist(), inf=bool(ok and v == math.inf), implied=fx(imp, 1), kept=same(x, keep[0]) and same(y, keep[1])))

    # ---- pickled size
    tmp = os.path.join(ctx.scratch, "obj.pickle")
    objs = []
    for t in range(ctx.pick(40, 200)):
        n = rng.choice([0, 1, 100, 255, 256, 300, 70000])
        s = bytes(rng.getrandbits(8) for _ in range(n))
        objs.append(rng.choice([[s], s, Payload([[s], [s[: n // 2]]], (n, 3)), {"a": [s, s], "n": n}, torch.arange(n % 500), [np.arange(n % 300)], None, n, [torch.rand(2, 3)[:, :1]], (s, s, "é" * (n % 50)), [bytes(s), bytearray(s)]]))
    for t, o in enumerate(objs):
        ok, v, err = guarded(pickle_size_of, o)
        ok2, v2, _ = guarded(pickle_size_of, o)
        with open(tmp, "wb") as f:
            pickle.dump(o, f)
        ev.append(dict(op="shape", fn="pickled-size", case=f"{type(o).__name__}-{t}", got=[int(v), int(v2)] if ok and ok2 and isinstance(v, int) else err, want=[os.path.getsize(tmp)] * 2))

    # ---- flop counts: random programs, histories of calls with and without options
    class Prog(nn.Module):
        def __init__(self, steps):
            super().__init__()
            self.steps = steps
            self.mods = nn.ModuleList([s[2] for s in steps if isinstance(s[2], nn.Module)])

        def forward(self, x):
            for _, _, fn in self.steps:
                x = fn(x)
            return x

    UN = dict(abs=torch.abs, neg=torch.neg, sign=torch.sign, exp=torch.exp, log=torch.log, log2=torch.log2, log10=torch.log10, sqrt=torch.sqrt, rsqrt=torch.rsqrt, reciprocal=torch.reciprocal, sigmoid=torch.sigmoid, tanh=torch.tanh, erfc=torch.erfc,
              softplus=F.softplus, relu=torch.relu, sin=torch.sin, cumsum=lambda x: torch.cumsum(x, 1), cos=torch.cos, clamp=lambda x: torch.clamp(x, -1, 1))

    def build():
        B, Dm = rng.choice([1, 2, 3]), rng.choice([1, 2, 4])
        start, prog, steps = (B, Dm), [], []
        for _ in range(rng.choice([1, 2, 4, 7])):
            kind = rng.choice(["un", "un", "bin", "bin", "inplace", "linear", "pow", "bcast", "rsub", "matmul", "share", "est_inplace"])
            if kind == "un":
                nm = rng.choice(sorted(UN))
                steps.append((nm, None, UN[nm]))
                prog.append(dict(name=nm, base=nm, n=B * Dm))
            elif kind == "bin":
                nm = rng.choice(["add", "sub", "mul", "div"])
                c = rng.choice([2.5, None])
                steps.append((nm, None, (lambda x, nm=nm, c=c: getattr(torch, nm)(x, x if c is None else c))))
                prog.append(dict(name=nm, base=nm, n=B * Dm))
            elif kind == "bcast" and Dm == 1:
                nm, e = rng.choice(["add", "mul", "div", "sub"]), rng.choice([2, 3])
                o = torch.rand(1, e) + 0.5
                steps.append((nm, None, (lambda x, nm=nm, o=o: getattr(torch, nm)(x, o))))
                Dm = e
                prog.append(dict(name=nm, base=nm, n=B * Dm))
            elif kind == "inplace":
                nm = rng.choice(["add_", "mul_", "sub_", "div_"])
                steps.append((nm, None, (lambda x, nm=nm: getattr(x.clone(), nm)(2.0))))
                prog += [dict(name="clone", base="clone", n=B * Dm), dict(name=nm, base=nm[:-1], n=B * Dm)]
            elif kind == "est_inplace":
                nm = rng.choice(["exp_", "sqrt_", "tanh_", "sigmoid_"])
                steps.append((nm, None, (lambda x, nm=nm: getattr(x.clone(), nm)())))
                prog += [dict(name="clone", base="clone", n=B * Dm), dict(name=nm, base=nm[:-1], n=B * Dm)]
            elif kind == "linear":
                o = rng.choice([1, 3, 5])
                steps.append(("linear", None, nn.Linear(Dm, o, bias=bool(rng.randrange(2)))))
                prog.append(dict(name="linear", base="linear", n=B * Dm * o))
                Dm = o
            elif kind == "share":
                m = nn.Linear(Dm, Dm)
                for _ in range(2):
                    steps.append(("linear", None, m))
                    prog.append(dict(name="linear", base="linear", n=B * Dm * Dm))
            elif kind == "pow":
                steps.append(("pow", None, lambda x: x.pow(2)))
                prog.append(dict(name="pow", base="pow", n=B * Dm))
            elif kind == "rsub":
                steps.append(("rsub", None, lambda x: 1 - x))
                prog.append(dict(name="rsub", base="rsub", n=B * Dm))
            elif kind == "matmul":
                o = rng.choice([2, 3])
                w = torch.rand(Dm, o)
                steps.append(("matmul", None, (lambda x, w=w: x @ w)))
                prog.append(dict(name="matmul", base="matmul", n=B * Dm * o))
                Dm = o
        return Prog(steps) if steps else None, torch.rand(*start) + 0.5, prog

    for t in range(ctx.pick(60, 500)):
        m, x, prog = build()
        if m is None:
            continue
        names = sorted({o["name"] for o in prog} | {"exp", "mul", "cumsum"})
        sd = {k: v.clone() for k, v in m.state_dict().items()}
        for c in range(3):
            est = bool(rng.randrange(2))
            over = [] if rng.random() < 0.5 else [[nm, rng.choice([0, 7, 1000])] for nm in rng.sample(names, min(2, len(names)))]
            kw = {}
            if est or c == 2:
                kw["use_single_flop_estimates"] = est
            if over or c == 2:
                kw["counter_overrides"] = {f"aten::{nm}": (lambda i, o, v=v: v) for nm, v in over}
            m.train(bool(c % 2))
            okeys = sorted(kw.get("counter_overrides", {}))
            inp = [x] if c % 2 else (x,)
            ok, r, err = guarded(count_flops, m, inp, **kw)
            e = dict(op="flops", case=f"{t}-{c}", err=err, prog=prog, est=est, over=over, total=0, by=[], unsup=[], kept=m.training == bool(c % 2) and all(torch.equal(v, sd[k]) for k, v in m.state_dict().items()) and okeys == sorted(kw.get("counter_overrides", {})))
            if ok:
                st = lambda s: s[6:] if s.startswith("aten::") else s  # noqa: E731
                e.update(total=int(r[0]), by=[[st(a), int(b)] for a, b in r[1].items()], unsup=[[st(a), int(b)] for a, b in r[2].items()])
            ev.append(e)
    # convolutions of the library's own layers
    from neuralcompression.layers import SimplifiedGDN

    for t in range(ctx.pick(10, 60)):
        ci, co, ks, st_, pd = rng.choice([1, 3]), rng.choice([2, 5]), rng.choice([1, 3]), rng.choice([1, 2]), rng.choice([0, 1])
        conv = nn.Conv2d(ci, co, ks, stride=st_, padding=pd)
        x = torch.rand(2, ci, 6, 7)
        y = conv(x)
        ok, r, err = guarded(count_flops, nn.Sequential(conv, SimplifiedGDN(co)), [x])
        n = y.numel()
        prog = [dict(name="conv", base="conv", n=n * ci * ks * ks), dict(name="abs", base="abs", n=n), dict(name="conv", base="conv", n=n * co), dict(name="div", base="div", n=n)]
        e = dict(op="flops", case=f"conv-{t}", err=err, prog=prog, est=False, over=[], total=0, by=[], unsup=[], kept=True)
        if ok:
            st = lambda s: s[6:] if s.startswith("aten::") else s  # noqa: E731
            # the layer's in-place parameter projection is traced as clamps, which are ignored or reported
            e.update(total=int(r[0]), by=[[st(a), int(b)] for a, b in r[1].items()], unsup=[])
        ev.append(e)
    ctx.validate("AccountTrace", ev)
    ctx.assumptions += ["fvcore counts products; probabilities are powers of two down to 2^-44"]
