"""C29 batched arithmetic coder of the jax project: every message comes back, or is refused."""
import hashlib
import math
import multiprocessing as mp
import os
import sys

from .. import core

TOT = 1 << 16


def _load():
    from .. import jaxshim

    jaxshim.install()
    d = os.path.join(core.REPO, "projects", "jax_entropy_coders")
    if d not in sys.path:
        sys.path.insert(0, d)
    import jax_arithmetic_coder

    return jax_arithmetic_coder


def _table(freqs):
    out = [0]
    for f in freqs:
        out.append(out[-1] + f)
    return out


def _adaptive(counts):
    import numpy as np

    c = np.concatenate([[0.0], np.cumsum(np.asarray(counts, dtype=np.float64))])
    return np.round(c / c[-1] * TOT).astype(np.int64)


def _models(kind):
    """(cdf_fun, inverse_cdf_fun): fixed tables, or counts that follow the message"""
    import jax.numpy as jnp

    def look(cdf, symbol):
        return cdf[symbol], cdf[symbol + 1]

    if kind == "fixed":
        def cdf_fun(symbol, st):
            return (*look(st[0], symbol), st)

        def inv_fun(value, st):
            s = jnp.argmin(value >= st[0]) - 1
            return (*look(st[0], s), s, st)
        return cdf_fun, inv_fun

    def cdf_of(st):
        return jnp.array(_adaptive(st[0])).astype(jnp.uint32)

    def cdf_fun(symbol, st):
        return (*look(cdf_of(st), symbol), (st[0].at[symbol].add(st[1]), st[1]))

    def inv_fun(value, st):
        cdf = cdf_of(st)
        s = jnp.argmin(value >= cdf) - 1
        return (*look(cdf, s), s, (st[0].at[s].add(st[1]), st[1]))
    return cdf_fun, inv_fun


def _ideal(kind, st, msg):
    import numpy as np

    if kind == "fixed":
        return sum(-math.log2((st[s + 1] - st[s]) / TOT) for s in msg)
    counts, tot = list(st), 0.0
    for s in msg:
        c = _adaptive(counts)
        tot -= math.log2((int(c[s + 1]) - int(c[s])) / TOT)
        counts[s] += 24
    return tot


def _states(kind, tabs):
    import jax.numpy as jnp
    import numpy as np

    if kind == "fixed":
        return (jnp.array(np.array(tabs, dtype=np.uint32)),)
    return (jnp.array(np.array(tabs, dtype=np.int64)), jnp.array(np.full(len(tabs), 24, dtype=np.int64)))


def _hex(b):
    return hashlib.sha1(bytes(b)).hexdigest()[:12] + f":{len(b)}"


def _one(job):
    import numpy as np

    jac = _load()
    import jax.numpy as jnp

    kind, tabs, msgs, over, case = job["kind"], job["tabs"], job["msgs"], job["over"], job["case"]
    fs, inv = _models(kind)
    B, n = len(msgs), len(msgs[0])
    e = dict(op="encode", case=case, msg=msgs, cap=int(over * n), ok=False, err="", bytes=[], alone=[], need=[], dok=False, dec=[],
             ideal=[int(1000 * _ideal(kind, t, m)) for t, m in zip(tabs, msgs)])
    for m, t in zip(msgs, tabs):
        ok, c, err = core.guarded(jac.encode, jnp.array(np.array([m], dtype=np.uint8)), fs, _states(kind, [t]), 4.0 + 8.0 / n)
        if not ok:
            e["err"] = err
            return e
        e["alone"].append(_hex(c[0]))
        e["need"].append(len(c[0]))
    arr = jnp.array(np.array(msgs, dtype=np.uint8))
    ok, c, err = core.guarded(jac.encode, arr, fs, _states(kind, tabs), over)
    e.update(ok=ok, err=err)
    if not ok:
        return e
    e["bytes"] = [_hex(b) for b in c]
    e["dok"], d, e["derr"] = core.guarded(jac.decode, list(c), jnp.array(np.array([n] * B)), inv, _states(kind, tabs))
    if e["dok"]:
        e["dec"] = [[int(s) for s in row] for row in d]
    return e


def _mixed(job):
    import numpy as np

    jac = _load()
    import jax.numpy as jnp

    fs, inv = _models(job["kind"])
    e = dict(op="mixed", case=job["case"], msg=job["msgs"], ok=False, err="", dec=[], islist=False)
    data = []
    for m, t in zip(job["msgs"], job["tabs"]):
        ok, c, e["err"] = core.guarded(jac.encode, jnp.array(np.array([m], dtype=np.uint8)), fs, _states(job["kind"], [t]), 4.0 + 8.0 / len(m))
        if not ok:
            return e
        data.append(c[0])
    e["ok"], d, e["err"] = core.guarded(jac.decode, data, jnp.array(np.array([len(m) for m in job["msgs"]])), inv, _states(job["kind"], job["tabs"]))
    if e["ok"]:
        e.update(dec=[[int(s) for s in row] for row in d], islist=isinstance(d, list))
    return e


def _run(job):
    return _mixed(job) if job["op"] == "mixed" else _one(job)


def _freqs(rng, K, style):
    if style == "skew":
        w = [1] * K
        w[rng.randrange(K)] = TOT - K + 1
        return w
    if style == "middle":                    # one symbol astride the middle of the range
        a = TOT // 2 - rng.choice([1, 1, 2, 5, 100])
        return [a, TOT - 2 * a, a] + ([] if K <= 3 else [0] * (K - 3))
    if style == "powers":
        w = [1 << rng.randrange(15) for _ in range(K)]
    elif style == "eighths":
        w = [0] * K
        for _ in range(8):
            w[rng.randrange(K)] += 1
        return [x * (TOT // 8) for x in w]
    else:
        w = [rng.random() + 1e-4 for _ in range(K)]
    s = sum(w)
    f = [max(1, int(x / s * TOT)) for x in w]
    f[f.index(max(f))] += TOT - sum(f)
    return f


def run(ctx):
    ctx.design("RangeCoder")
    ctx.design("RangeCoder", "RangeCoder2.cfg")
    rng = ctx.rng
    jobs = []

    def draw(f, n, mode):
        live = [s for s, x in enumerate(f) if x]
        if mode == "rare":
            r = min(live, key=lambda s: f[s])
            return [r if rng.random() < 0.8 else rng.choice(live) for _ in range(n)]
        if mode == "typical":
            return rng.choices(live, [f[s] for s in live], k=n)
        if mode == "first":
            return [live[0]] * n
        if mode == "last":
            return [live[-1]] * n
        return [rng.choice(live) for _ in range(n)]

    for k in range(ctx.pick(340, 3000)):
        style = ("rand", "skew", "middle", "powers", "eighths")[k % 5]
        n = rng.choice([1, 1, 2, 3, 4, 5, 8, 13])
        B = rng.choice([1, 1, 2, 3])
        mode = rng.choice(["rare", "typical", "uniform", "first", "last"])
        tabs, msgs = [], []
        for _ in range(B):
            f = _freqs(rng, 3 if style == "middle" else rng.choice([1, 2, 3, 5, 9]), style)
            if tabs:
                f = f[:len(tabs[0]) - 1] + [0] * (len(tabs[0]) - 1 - len(f))
                f[0] += TOT - sum(f)
            msgs.append([1] * n if style == "middle" and rng.random() < 0.6 else draw(f, n, mode))
            tabs.append(_table(f))
        if any(any(t[s] == t[s + 1] for s in m) for t, m in zip(tabs, msgs)):
            continue
        jobs.append(dict(op="encode", kind="fixed", tabs=tabs, msgs=msgs, over=rng.choice([1.5, 1.0, 2.0, 4.0]) + rng.choice([0, 0, 1.0 / n, 2.0 / n]),
                         case=f"fixed-{style}-{mode}-{k}-B{B}-n{n}"))
    # hundreds of bits pending at once
    for k, n in enumerate([18, 21, 40] + ctx.pick([], [70, 300])):
        f = [TOT // 2 - 1, 2, TOT // 2 - 1]
        for tail in ([], [0], [2], [2, 0, 1]):
            jobs.append(dict(op="encode", kind="fixed", tabs=[_table(f)] * 2, msgs=[[1] * (n - len(tail)) + tail, [1] * (n - 1) + [0]], over=3.0, case=f"pending-n{n}-{len(tail)}{sum(tail)}"))
    # wide alphabets and long messages
    for k, (K, n) in enumerate([(256, 30), (200, 12), (2, 120), (5, 80), (256, 3)]):
        f = _freqs(rng, K, "rand")
        jobs.append(dict(op="encode", kind="fixed", tabs=[_table(f)] * 2, msgs=[draw(f, n, "typical"), draw(f, n, "uniform")], over=1.5, case=f"wide-K{K}-n{n}"))
    for k in range(ctx.pick(24, 200)):
        K, n, B = rng.choice([2, 3, 6, 20]), rng.choice([1, 4, 9, 25]), rng.choice([1, 2, 3])
        jobs.append(dict(op="encode", kind="adaptive", tabs=[[rng.randint(1, 41) for _ in range(K)] for _ in range(B)],
                         msgs=[[rng.randrange(K) for _ in range(n)] for _ in range(B)], over=rng.choice([1.5, 3.0]), case=f"adaptive-{k}-K{K}-n{n}-B{B}"))
    for k in range(ctx.pick(24, 160)):
        B = rng.choice([2, 3, 4])
        f = [_freqs(rng, 4, rng.choice(["rand", "skew", "powers"])) for _ in range(B)]
        lens = [rng.choice([1, 2, 5, 11])] * B if k % 6 == 0 else [rng.choice([1, 2, 5, 11]) for _ in range(B)]
        jobs.append(dict(op="mixed", kind="fixed", tabs=[_table(x) for x in f], msgs=[draw(x, n, rng.choice(["rare", "typical", "uniform"])) for x, n in zip(f, lens)],
                         case=f"mixed-{k}-{'-'.join(map(str, lens))}"))
    with mp.get_context("fork").Pool(8) as pool:
        ev = pool.map(_run, jobs, chunksize=4)
    if not any(not e["ok"] for e in ev if e["op"] == "encode"):
        raise core.Machinery("no message too long for its buffer was tried")
    ctx.validate("RangeTrace", ev)
    ctx.assumptions.append("jax is not installed: the coder runs on a numpy stand-in with jax's promotion, wrap-around, clamped reads and dropped writes")
