"""C31 bits-back codec: batches go on a random message and come off it again, last first; rates are the evidence bound."""
import hashlib
import math
import multiprocessing as mp
import os
import random
import shutil
import sys
import tempfile

from .. import core


def load():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for d in (os.path.join(core.REPO, "projects", "bits_back_diffusion"), os.path.join(here, "shims"), os.path.join(here, "shims_bb")):
        if d not in sys.path:
            sys.path.insert(0, d)
    from bits_back_diffusion import codec

    return codec


def _hex(a):
    import numpy as np

    a = np.ascontiguousarray(np.asarray(a))
    return hashlib.sha1(str(a.shape).encode() + a.astype("int64").tobytes()).hexdigest()[:14]


def _model(mod, seed, steps, shape, lo, hi, kind):
    """a hierarchy whose every distribution depends on step, channel and what it is conditioned on"""
    import numpy as np

    r = np.random.default_rng(seed)
    ch = (1, shape[1], 1, 1)
    a, b, c, d, e = (r.uniform(x, y, (steps + 1,) + ch) for x, y in ((0.3, 0.9), (-0.7, 0.7), (0.5, 1.3), (-0.8, 0.8), (0.55, 0.95)))
    mid, half = (lo + hi) / 2, (hi - lo) / 2

    class Model(mod.BaseHLVModel):
        def __init__(self):
            super().__init__(steps)
            self.calls, self.datas = [], []

        def infer_fn(self, data):
            self.datas.append(np.array(data))
            return mod.GaussianParams(mean=0.5 * d[steps] * (data - mid) / half, stdd=np.broadcast_to(e[steps], data.shape) * 1.0)

        def prior(self, latent, step):
            if step == 0:
                s = 0.0 if kind == "sharp" else half * c[0] * 0.25
                return mid + half * np.tanh(a[0] * latent + b[0]), np.broadcast_to(s, latent.shape) * 1.0
            return a[step] * latent + b[step], c[step] * (1 + 0.2 * np.sin(latent))

        def post(self, latent, step, data):
            m, s = self.prior(latent, step)
            return m + 0.5 * d[step] * (data - mid) / half, s * e[step]

        def generate_fn(self, latent, step, data=None):
            latent = np.asarray(latent)
            self.calls.append((int(step), data is not None, np.array(latent)))
            if data is not None:
                self.datas.append(np.array(data))
            m, s = self.prior(latent, step) if data is None else self.post(latent, step, data)
            return mod.GaussianParams(mean=m, stdd=s)
    return Model()


def _logn(x, m, s):
    import numpy as np

    return (-0.5 * ((x - m) / s) ** 2 - np.log(s) - 0.5 * math.log(2 * math.pi)) / math.log(2)


def _ideal(model, data, lo, hi, prec, obs):
    """bits the evidence bound asks for, from the latents the model was shown"""
    import numpy as np
    from scipy.stats import norm

    T = model.steps
    z = {}
    for step, with_data, lat in model.calls:
        if not with_data:
            z[step + 1] = lat
    if set(z) != set(range(1, T + 1)):
        return None
    level = lo + data * (hi - lo) / (2 ** prec - 1)
    q = model.infer_fn(level)
    bits = np.sum(_logn(z[T], q.mean, q.stdd) - _logn(z[T], 0.0, 1.0))
    for k in range(1, T):
        bits += np.sum(_logn(z[k], *model.post(z[k + 1], k, level)) - _logn(z[k], *model.prior(z[k + 1], k)))
    m, s = model.prior(z[1], 0)
    w = (hi - lo) / (2 ** prec - 1) / 2
    up = np.where(data == 2 ** prec - 1, 1.0, norm.cdf(level + w, m, s))
    dn = np.where(data == 0, 0.0, norm.cdf(level - w, m, s))
    return bits - np.sum(np.log2(np.maximum(up - dn, 2.0 ** -obs)))


def _size(msg):
    """information on the stack: heads to the fraction of a bit, and the words of the tail"""
    import numpy as np

    head, tail = msg
    n, out = 0, float(np.sum(np.log2(np.asarray(head, dtype=float))))
    while len(tail):
        n, tail = n + len(tail[0]), tail[1]
    return out + 32 * n


def _flat(c):
    import craystack as cs

    return cs.flatten(c.message)


def _history(job):
    mod = load()
    import numpy as np
    from craystack import bb_ans

    rng, npr = random.Random(job["seed"]), np.random.default_rng(job["seed"])
    np.random.seed(job["seed"] % (1 << 31))
    shape, lo, hi, prec, steps = tuple(job["shape"]), job["lo"], job["hi"], job["prec"], job["steps"]
    size, top = int(np.prod(shape)), 2 ** prec - 1
    model = _model(mod, job["seed"], steps, shape, lo, hi, job["kind"])
    kw = dict(latent_prec=job["latent"], prior_prec=job["prior"], obs_prec=job["obs"], data_prec=prec, data_min=lo, data_max=hi, track=job["track"],
              initial_len=2000 + 4 * size * steps if job["long"] else None)
    tmp, cod, ev, count = tempfile.mkdtemp(prefix="verif_c31_"), {}, [], {}
    slots, saved = {}, {}

    def emit(op, i, ok=True, **k):
        c = cod[i]
        stats, tracked = [], job["track"]
        if ok and op != "save" and int(c.data_count) > 0:
            s = c.statistics()
            per = float(c.data_count) * size * 100
            stats = [int(s.samples), *(int(round(float(v) * per)) for v in (s.rate_total, s.rate_used, s.rate_effective))]
            tracked = s.rate_effective_push is not None and s.rate_effective_pop is not None
            if tracked:
                tracked = len(s.rate_effective_push) == len(s.rate_effective_pop) == steps + 1
                stats += [int(round(float(np.sum(v)) * per)) for v in (s.rate_effective_push, s.rate_effective_pop)]
            else:
                stats += [0, 0]
        flat = _flat(c)
        e = dict(op=op, id=i, case=f"{job['case']}-{len(ev)}-{op}", ok=ok, err="", first=False, to=_hex(flat), bytes=int(flat.nbytes), count=int(c.data_count), stats=stats,
                 track=job["track"], tracked=tracked, batch=shape[0], returned=True, same=True, low=0, slot="", data="", seen=True, smooth=False, net=0, ideal=0, lanes=size,
                 inrange=True)
        e["from"] = ""
        e.update(k)
        ev.append(e)
        return e

    before = []

    def level():
        before.append(draw())
        return before[-1].copy()

    def draw():
        m = rng.choice(["uniform", "low", "high", "mix", "flat", "again", "again"])
        if m == "again":                           # an earlier batch with its values in other places
            m = "uniform" if not before else m
        if m == "again":
            x = rng.choice(before)
            return npr.permutation(x.ravel()).reshape(shape) if rng.random() < 0.5 else x[:, :, :, ::-1].copy()
        if m == "flat":
            return np.full(shape, rng.randint(0, top))
        if m == "mix":
            return npr.choice([0, top], size=shape)
        d = npr.integers(0, top + 1, size=shape)
        return d // 3 if m == "low" else top - d // 3 if m == "high" else d

    def apply(op, i):
        c = cod[i]
        was = _hex(_flat(c))
        del model.calls[:], model.datas[:], bb_ans.lows[:]
        if op == "encode":
            x = level().astype(rng.choice(["int32", "int64"])) if not saved.get(i) or rng.random() < 0.5 else saved[i].pop()
            pre, s0 = _hex(x), _size(c.message)
            ok, out, err = core.guarded(c.encode, x)
            if not ok:
                return emit(op, i, ok=False, err=err, data=pre, **{"from": was})
            want = lo + x * (hi - lo) / top
            seen = all(d.shape == shape and np.allclose(d, want, atol=1e-6 * (hi - lo)) for d in model.datas)
            ideal = _ideal(model, np.array(x), lo, hi, prec, job["obs"])
            smooth = job["kind"] == "smooth" and job["prior"] >= 8 and job["latent"] - job["prior"] >= 8 and job["obs"] - prec >= 10
            flat = core.guarded(lambda: __import__("craystack").flatten(out))[1]
            e = emit(op, i, data=pre, same=_hex(x) == pre, seen=seen and ideal is not None, smooth=smooth, net=int(1000 * (_size(c.message) - s0)),
                     ideal=int(1000 * ideal) if smooth and ideal is not None and math.isfinite(ideal) else 0, low=bb_ans.lows[-1] if bb_ans.lows else 0, **{"from": was})
            e["returned"] = flat is not None and _hex(flat) == e["to"]
            return e
        ok, out, err = core.guarded(c.decode)
        if not ok:
            return emit(op, i, ok=False, err=err, **{"from": was})
        x = np.asarray(out[1])
        e = emit(op, i, data=_hex(x), inrange=bool(x.shape == shape and x.min() >= 0 and x.max() <= top), **{"from": was})
        e["returned"] = _hex(__import__("craystack").flatten(out[0])) == e["to"]
        saved.setdefault(i, []).append(x)          # what was taken off can go on again
        return e

    try:
        for i in ("a", "b"):
            if i == "b" and kw["initial_len"]:
                kw["initial_len"] += 37            # loading brings the other's size with it
            cod[i], count[i] = mod.BitsBackCodec(model, shape, **kw), 0
            emit("new", i, first=i == "a")
        for k in range(job["n"]):
            i = rng.choice(["a", "a", "b"])
            op = rng.choices(["encode", "decode", "save", "load", "refused"], [5, 4, 2, 2, 1])[0]
            if op == "load" and not slots:
                op = "encode"
            if op in ("encode", "decode"):
                n = int(cod[i].data_count)
                op = "decode" if n >= 4 else "encode" if n <= 0 else op
                if not apply(op, i)["ok"]:
                    return ev
            elif op == "save":
                slot = rng.choice(["s", "t"])
                path = os.path.join(tmp, f"{slot}{k}.npz")
                ok, _, err = core.guarded(lambda: np.savez(path, **cod[i].state_dict()))
                emit("save", i, ok=ok, err=err, slot=slot)
                slots[slot] = path
            elif op == "load":
                slot = rng.choice(sorted(slots))
                ok, _, err = core.guarded(lambda: cod[i].load_state_dict(np.load(slots[slot])))
                saved[i] = []
                if not emit("load", i, ok=ok, err=err, slot=slot)["ok"]:
                    return ev
            else:
                x = level()
                how = rng.choice(["below", "above", "shape", "more", "flatshape", "perm"])
                at = tuple(rng.randrange(s) for s in shape)
                if how == "below":
                    x[at] = -1
                elif how == "above":
                    x[at] = top + 1
                elif how == "shape":
                    x = np.swapaxes(x, 1, 3)[:, :, :, :1] if shape[1] > 1 or shape[3] > 1 else np.zeros((2,) + shape, dtype=int)
                elif how == "more":
                    x = np.concatenate([x, x])
                elif how == "perm":                # as many values, another shape
                    x = x.reshape(shape[::-1])
                else:
                    x = x.reshape(-1)
                if how in ("shape", "more", "flatshape", "perm") and x.shape == shape:
                    x = np.zeros(shape + (1,), dtype=int)
                e = emit("refused", i, err=core.guarded(cod[i].encode, x)[2])
                e.update(to=_hex(_flat(cod[i])), count=int(cod[i].data_count))
                if not e["err"]:
                    return ev
        for i in ("a", "b"):                       # down to the random message
            for _ in range(12):
                if int(cod[i].data_count) <= 0:
                    break
                if not apply("decode", i)["ok"]:
                    return ev
        return ev
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _construct(job):
    mod = load()
    m = _model(mod, 1, 2, (1, 1, 1, 1), -1.0, 1.0, "smooth")
    out = []
    for s, want in (((1, 3, 2, 2), ""), ((3, 2, 2), "ValueError"), ((1, 1, 3, 2, 2), "ValueError"), ((4,), "ValueError"), ((), "ValueError")):
        out.append(dict(op="construct", case=f"shape{len(s)}", err=core.guarded(mod.BitsBackCodec, m, s)[2], want=want))
    return out


def _quantize(job):
    mod = load()
    import numpy as np

    m = _model(mod, 1, 2, (1, 1, 1, 1), -1.0, 1.0, "smooth")
    rng, out = np.random.default_rng(job["seed"]), []
    for lo, hi in ((-1.0, 1.0), (0.0, 1.0), (0.0, 255.0), (-0.5, 0.5), (-2.0, 3.0), (-1, 1), (100.0, 101.0), (-4.0, -1.0)):
        for prec in (1, 2, 3, 5, 8, 10):
            c = mod.BitsBackCodec(m, (1, 1, 1, 1), prior_prec=2, data_prec=prec, data_min=lo, data_max=hi)
            n, st = 2 ** prec, (hi - lo) / (2 ** prec - 1)
            lv = np.arange(n)
            for dt in ("float64", "float32"):
                vals = (lo + lv * st).astype(dt)
                x = rng.uniform(lo, hi, 300)
                x = x[np.abs(((x - lo) / st) % 1 - 0.5) > 1e-3].astype(dt)
                pre = vals.copy()
                ok, q, err = core.guarded(c.quantize, vals)
                ok2, qx, err2 = core.guarded(c.quantize, x)
                e = dict(op="quantize", case=f"{lo}..{hi}-{prec}-{dt}", ok=ok and ok2, err=err or err2)
                if e["ok"]:
                    e.update(levels=bool(np.array_equal(q, lv)), nearest=bool(np.all(np.abs(lo + qx * st - x.astype(float)) <= st * 0.5001)),
                             int=np.asarray(q).dtype.kind in "iu", same=bool(np.array_equal(vals, pre)))
                out.append(e)
    return out


def _bins(job):
    mod = load()
    import numpy as np
    from craystack import codecs, rans
    from scipy.stats import norm

    rng = np.random.default_rng(job["seed"])
    prec, cprec, shape = job["prec"], job["cprec"], tuple(job["shape"])
    n = 2 ** prec
    if job["arrays"]:
        sh = (shape[-1],) if len(shape) == 2 else (shape[1],) + (1,) * (len(shape) - 2)
        lo = rng.uniform(-3, 1, sh)
        hi = lo + rng.uniform(0.5, 4, sh)
    else:
        lo, hi = job["lo"], job["hi"]
    span = np.broadcast_to(np.asarray(hi, float) - lo, shape)
    mean = np.broadcast_to(np.asarray(lo, float), shape) + span * rng.uniform(-0.2, 1.2, shape)
    stdd = span * np.exp(rng.uniform(math.log(job["smin"]), math.log(2.0), shape))
    ok, c, err = core.guarded(mod.diag_gaussian_unif_bins, mean, stdd, lo, hi, cprec, prec)
    e = dict(op="bins", case=job["case"], ok=ok, err=err)
    if not ok:
        return [e]
    kind, enc, dec, used = codecs.made[-1]
    f, starts = [], []
    for s in range(n):
        st, fr = enc(np.full(shape, s))
        f.append(np.asarray(fr).ravel())
        starts.append(np.asarray(st).ravel())
    f, starts = np.stack(f, -1), np.stack(starts, -1)
    lev = np.broadcast_to(np.asarray(lo, float), shape)[..., None] + np.arange(n) * (span / (n - 1))[..., None]
    w = (span / (n - 1) / 2)[..., None]
    mass = norm.cdf(lev + w, mean[..., None], stdd[..., None]) - norm.cdf(lev - w, mean[..., None], stdd[..., None])
    mass[..., 0] = norm.cdf(lev[..., 0] + w[..., 0], mean, stdd)
    mass[..., -1] = norm.sf(lev[..., -1] - w[..., 0], mean, stdd)
    mass = mass.reshape(-1, n) * (1 << cprec)
    msg = rans.random_message(100, shape)
    x = rng.integers(0, n, shape)
    ok2, m2, _ = core.guarded(c.push, msg, x)
    back = ok2
    if ok2:
        ok3, r, _ = core.guarded(c.pop, m2[0])
        back = ok3 and np.array_equal(r[1], x) and rans.message_equal(r[0], msg)
    e.update(freq=f.tolist(), total=1 << cprec, consecutive=bool(np.all(starts[:, 0] == 0) and np.all(starts[:, 1:] == starts[:, :-1] + f[:, :-1])),
             mass=np.rint(1000 * mass).astype(int).tolist(), top=[[s + 1 for s in range(n) if np.rint(r[s]) >= np.rint(r).max() - 1] for r in mass], back=bool(back), prec=int(used), wantprec=cprec)
    return [e]


def _diffmodel(job):
    mod = load()
    import numpy as np
    import torch

    rng = np.random.default_rng(job["seed"])
    steps, log, clip, op, step = job["steps"], job["log"], job["clip"], job["which"], job["step"]
    shape = (2, 3, 2, 2)
    g = torch.Generator().manual_seed(job["seed"])
    means = {k: torch.randn(shape, generator=g) for k in ("q", "p", "post")}
    var = {k: torch.rand(shape, generator=g) + 0.1 for k in means}
    lvar = {k: torch.randn(shape, generator=g) for k in means}        # not the variance's own: they may be clipped
    calls = []
    net = torch.nn.Linear(1, 1)

    class D:
        num_timesteps = steps

        def q_mean_variance(self, x_start, t):
            calls.append(("q", dict(x_start=x_start, t=t)))
            return means["q"], var["q"], lvar["q"]

        def p_mean_variance(self, model, x, t, clip_denoised=True, denoised_fn=None, model_kwargs=None):
            calls.append(("p", dict(x=x, t=t, model=model, clip=clip_denoised)))
            y = means["p"] + 0 * net.weight.sum()
            return {"mean": y, "variance": var["p"], "log_variance": lvar["p"], "pred_xstart": y}

        def q_posterior_mean_variance(self, x_start, x_t, t):
            calls.append(("post", dict(x_start=x_start, x_t=x_t, t=t)))
            return means["post"], var["post"], lvar["post"]
    m = mod.DiffusionModel(net, D(), use_log_variance=log, clip_denoised=clip)
    data, lat = rng.uniform(-1, 1, shape), rng.normal(size=shape)
    if op == "q":
        ok, r, err = core.guarded(m.infer_fn, data)
    else:
        ok, r, err = core.guarded(m.generate_fn, lat, step, **({"data": data} if op == "post" else {}))
    e = dict(op="model", case=f"{op}-T{steps}-s{step}-log{log}-clip{clip}", ok=ok, err=err)
    if not ok:
        return [e]
    k, a = calls[-1]

    def eq(t, v):
        return torch.is_tensor(t) and np.array_equal(t.numpy(), v.astype("float32"))
    args = {"q": lambda: eq(a["x_start"], data), "p": lambda: eq(a["x"], lat) and a["model"] is net,
            "post": lambda: eq(a["x_start"], data) and eq(a["x_t"], lat)}
    want = torch.exp(0.5 * lvar[op]) if log else torch.sqrt(var[op])
    t = sorted({int(v) for v in a["t"].reshape(-1)})
    e.update(called=k, want=op, t=t, wantt=[steps - 1 if op == "q" else step], args=bool(k == op and args[op]() and a["t"].numel() == shape[0]),
             mean=isinstance(r.mean, np.ndarray) and np.array_equal(r.mean, means[op].numpy()),
             stdd=isinstance(r.stdd, np.ndarray) and np.allclose(r.stdd, want.numpy(), rtol=1e-6), steps=int(m.steps), wantsteps=steps,
             clip=bool(a.get("clip", clip)), wantclip=clip)
    return [e]


def _run(job):
    return {"history": _history, "construct": _construct, "quantize": _quantize, "bins": _bins, "model": _diffmodel}[job["op"]](job)


def run(ctx):
    ctx.design("BitsBackChain")
    rng = ctx.rng
    jobs = [dict(op="construct"), dict(op="quantize", seed=rng.randrange(1 << 30))]
    ranges = [(-1.0, 1.0), (-1.0, 1.0), (0.0, 1.0), (-0.5, 0.5), (0.0, 255.0), (-2.0, 3.0)]
    for k in range(ctx.pick(60, 1600)):
        lo, hi = rng.choice(ranges)
        prior = rng.choice([2, 5, 8, 9, 10])
        jobs.append(dict(op="history", seed=rng.randrange(1 << 30), case=f"h{k}", shape=rng.choice([(2, 3, 2, 2), (1, 1, 1, 1), (1, 3, 2, 4), (3, 2, 1, 2), (1, 2, 3, 1)]), lo=lo, hi=hi,
                         prec=rng.choice([8, 8, 1, 3, 5]), steps=rng.choice([1, 2, 3, 4, 6]), latent=rng.choice([prior + 8, 18, 18]), prior=prior, obs=rng.choice([24, 18, 24]),
                         track=k % 2 == 0, long=k % 3 != 1, kind=["smooth", "smooth", "smooth", "sharp"][k % 4], n=rng.choice([10, 18])))
    for k in range(ctx.pick(60, 1000)):
        lo, hi = rng.choice(ranges)
        prec = rng.choice([1, 2, 4, 5])
        jobs.append(dict(op="bins", seed=rng.randrange(1 << 30), prec=prec, cprec=rng.choice([12, 16, 20]), shape=rng.choice([(3, 2), (1, 2, 2, 1), (2, 3, 1, 1)]), arrays=k % 3 == 0,
                         lo=lo, hi=hi, smin=rng.choice([0.05, 0.3]), case=f"bins{k}-p{prec}"))
    for steps in (1, 2, 7):
        for log in (False, True):
            for which in ("q", "p", "post"):
                for step in sorted({0, steps // 2, steps - 1}):
                    jobs.append(dict(op="model", seed=rng.randrange(1 << 30), steps=steps, log=log, clip=rng.random() < 0.5, which=which, step=step))
    with mp.get_context("fork").Pool(8) as pool:
        ev = [e for r in pool.map(_run, jobs, chunksize=2) for e in r]
    ctx.validate("BitsBackTrace", ev)
    ctx.assumptions.append("craystack and improved_diffusion are not installed: their documented behaviour is provided by numpy stand-ins")
