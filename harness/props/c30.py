"""C30 stack coder of the jax project: messages appended to a buffer come off it again, last first, bits-back included."""
import hashlib
import math
import multiprocessing as mp
import os
import random
import sys

from .. import core


def _load():
    from .. import jaxshim

    jaxshim.install()
    d = os.path.join(core.REPO, "projects", "jax_entropy_coders")
    if d not in sys.path:
        sys.path.insert(0, d)
    import craystack

    return craystack


def _hex(*arrs):
    import numpy as np

    h = hashlib.sha1()
    for a in arrs:
        a = np.ascontiguousarray(np.asarray(a))
        h.update(str((a.shape, str(a.dtype))).encode() + a.tobytes())
    return h.hexdigest()[:14]


def _freqs(rng, K, P, style):
    tot = 1 << P
    K = min(K, tot)
    if style == "skew" and K < tot:
        w = [1] * K
        w[rng.randrange(K)] = tot - K + 1
        return w
    if style == "holes" and K > 2:
        live = sorted(rng.sample(range(K), max(1, K // 2)))
        f = _freqs(rng, len(live), P, "rand")
        out = [0] * K
        for i, x in zip(live, f):
            out[i] = x
        return out
    if style == "flat" and tot % K == 0:
        return [tot // K] * K
    w = [rng.random() ** (6 if style == "steep" else 1) + 1e-6 for _ in range(K)]
    s = sum(w)
    f = [max(1, int(x / s * tot)) for x in w]
    while sum(f) > tot:
        f[f.index(max(f))] -= 1
    f[f.index(max(f))] += tot - sum(f)
    return f


def _cdf(f):
    out = [0]
    for x in f:
        out.append(out[-1] + x)
    return out


def _draw(rng, f, mode):
    live = [s for s, x in enumerate(f) if x]
    if mode == "rare":
        return min(live, key=lambda s: f[s]) if rng.random() < 0.8 else rng.choice(live)
    if mode == "typical":
        return rng.choices(live, [f[s] for s in live])[0]
    return {"first": live[0], "last": live[-1]}.get(mode, rng.choice(live))


def _codec(cs, kind, tabs, P, dtype):
    """tabs: [item][lane] frequencies"""
    import jax.numpy as jnp
    import numpy as np

    cdf = jnp.array(np.array([[_cdf(f) for f in t] for t in tabs], dtype=np.uint32))
    if kind == "table":
        return cs.fixed_array_cdf_codec(cdf, precision=P, message_dtype=dtype)

    def look(c, s):
        return jnp.take_along_axis(c, s[..., None], -1)[..., 0]

    def fwd(s, st):
        return look(st[0], s), look(st[0], s + 1), (st[0], st[1] + 1)

    def inv(v, st):
        s = jnp.argmin(jnp.expand_dims(v, -1) >= st[0], axis=-1) - 1
        return look(st[0], s), look(st[0], s + 1), s, (st[0], st[1] + 1)
    return cs.default_rans_codec(fwd, inv, (cdf, jnp.array(np.zeros(len(tabs), dtype=np.int64))), P, dtype)


def _history(job):
    cs = _load()
    import jax.numpy as jnp
    import numpy as np

    rng = random.Random(job["seed"])
    B, depth, L = job["B"], job["depth"], job["L"]
    levels, ev = [], []
    buf, ideal, symbols, room = None, [0.0] * B, 0, 0
    for d in range(depth):
        if d:
            L = rng.randint(1, L)
        n, P = rng.choice([1, 2, 3, 5, 8, 12]), rng.choice([16, 16, 16, 12, 8, 4, 20, 24, 2])
        K = rng.choice([1, 2, 3, 5, 17])
        style, mode = rng.choice(["rand", "skew", "steep", "holes", "flat"]), rng.choice(["rare", "typical", "uniform", "first", "last"])
        fs = [[_freqs(rng, K, P, style) for _ in range(L)] for _ in range(B)]
        K = max(len(f) for t in fs for f in t)
        fs = [[f + [0] * (K - len(f)) for f in t] for t in fs]
        msg = [[[_draw(rng, fs[b][i], mode) for i in range(L)] for _ in range(n)] for b in range(B)]
        dtype, kind = rng.choice(["int64", "int32", "uint8"]), rng.choice(["table", "table", "function"])
        for b in range(B):
            ideal[b] += sum(-math.log2(fs[b][i][msg[b][t][i]] / (1 << P)) for t in range(n) for i in range(L))
        symbols += n * L * (1 if P <= 16 else 60)
        room += 4 * n * L + 4 * L
        arr = jnp.array(np.array(msg, dtype=np.int64))
        cap = room + rng.choice([0, 1, 7, 40])
        pre = _hex(arr, *(buf or []))
        codec = _codec(cs, kind, fs, P, dtype)
        ok, val, err = core.guarded(cs.encode, arr, codec, tail_capacity=cap, start_buffers=buf)
        e = dict(op="level", case=f"{job['case']}-{d}-{kind}-L{L}-n{n}-P{P}-{style}-{mode}", ok=ok, err=err, dok=False, derr="", items=B, nbuf=0, lanes=job["L"],
                 msg=msg, dec=[], dtype="", want=dtype, rest="", before="" if buf is None else _hex(*buf), alone="", coded="", same=False, st=[], stwant=[],
                 bits=[], ideal=[int(1000 * v) for v in ideal], symbols=symbols)
        ev.append(e)
        if not ok:
            return ev
        e.update(nbuf=len(val[0]), bits=[8 * len(b) for b in val[0]], same=_hex(arr, *(buf or [])) == pre, coded=_hex(*val[0]))
        if kind == "function":
            e.update(stwant=[n] * B, st=[int(v) for v in val[1][1]])
        alone = []
        for b in range(B):
            ok1, v1, err1 = core.guarded(cs.encode, arr[b:b + 1], _codec(cs, kind, fs[b:b + 1], P, dtype), tail_capacity=cap, start_buffers=None if buf is None else buf[b:b + 1])
            if ok1:
                alone.append(v1[0][0])
        e["alone"] = _hex(*alone)
        levels.append((e, codec, n, L, room, kind))
        buf = list(val[0])
    for e, codec, n, L, need, kind in reversed(levels):
        pre = _hex(*buf)
        e["dok"], val, e["derr"] = core.guarded(cs.decode, buf, n, (L,), codec, tail_capacity=need + rng.choice([0, 3]))
        if not e["dok"]:
            return ev[:ev.index(e) + 1]
        dec, rest, st = val
        e.update(dec=[[[int(v) for v in r] for r in m] for m in np.asarray(dec)], dtype=str(np.asarray(dec).dtype), rest=_hex(*rest), same=e["same"] and _hex(*buf) == pre)
        if kind == "function":
            e["st"] = [a if a == int(b) else -1 for a, b in zip(e["st"], st[1])]
        if e["before"] == "":
            e["before"] = _empty(cs, B, L)
        buf = list(rest)
    # levels above a failed one were not decoded
    return ev


_EMPTY = {}


def _empty(cs, B, L):
    """what remains when the only message has been taken off, with another message"""
    import jax.numpy as jnp
    import numpy as np

    if (B, L) not in _EMPTY:
        c = _codec(cs, "table", [[[1 << 15, 1 << 14, 1 << 14]] * L] * B, 16, "int64")
        arr = jnp.array(np.ones((B, 3, L), dtype=np.int64))
        _EMPTY[B, L] = _hex(*cs.decode(cs.encode(arr, c, tail_capacity=64 * L)[0], 3, (L,), c, tail_capacity=64 * L)[1])
    return _EMPTY[B, L]


def _bitsback(job):
    cs = _load()
    import jax.numpy as jnp
    import numpy as np

    rng = random.Random(job["seed"])
    L, n, KX, KZ, P = job["L"], job["n"], job["KX"], job["KZ"], 16
    tot = 1 << P
    ps = rng.choice(["rand", "steep"])
    fz = [_freqs(rng, KZ, P, rng.choice(["rand", "steep", "flat"])) for _ in range(L)]
    fq = [_freqs(rng, KZ, P, rng.choice(["rand", "steep", "skew"])) for _ in range(KX)]
    fx = [_freqs(rng, KX, P, ps if job["ample"] else "skew") for _ in range(KZ)]
    if job["mode"] == "dry":                 # hardly any information per symbol: the tail is used up again and again
        fz, fq = ([_freqs(rng, KZ, P, "rand") for _ in range(m)] for m in (L, KX))
        w = rng.choice([100, 1000])
        fx = [[tot - (KX - 1) * w] + [w] * (KX - 1) for _ in range(KZ)]
    cap = 6 * n * L + 300
    msg = [[[(rng.randrange(KX) if rng.random() < 0.03 else 0) if job["mode"] == "dry" else _draw(rng, fx[rng.randrange(KZ)], job["mode"]) for _ in range(L)]
            for _ in range(n)] for _ in range(job["B"])]
    pz, qz, px = (jnp.array(np.array([_cdf(f) for f in t], dtype=np.uint32)) for t in (fz, fq, fx))
    seen = []

    def post(s):
        return cs.fixed_array_cdf_codec(qz[s], allow_empty_pops=not job["ample"] or job["allow"])

    def obs(z):
        seen.append([int(v) for v in np.asarray(z)])
        return cs.fixed_array_cdf_codec(px[z], message_dtype=job["dtype"])
    codec = cs.bitsback_ans_codec(cs.fixed_array_cdf_codec(pz), post, obs, (L,), job["dtype"])
    buf = None
    if job["ample"]:
        filler = _codec(cs, "table", [[[256] * 256] * L] * job["B"], 16, "int64")
        junk = jnp.array(np.array([[[rng.randrange(256) for _ in range(L)] for _ in range(2 * n + 12)] for _ in range(job["B"])], dtype=np.int64))
        buf = cs.encode(junk, filler, tail_capacity=6 * n * L + 200)[0]
    under = None
    if job["under"]:                         # a short message lies beneath: a few bytes, then nothing
        under = [[[rng.randrange(256) for _ in range(L)] for _ in range(rng.choice([1, 1, 2]))]] * job["B"]
        ucodec = _codec(cs, "table", [[rng.choice([[256] * 256, _freqs(rng, 256, 16, "steep")]) for _ in range(L)]] * job["B"], 16, "int64")
        buf = cs.encode(jnp.array(np.array(under)), ucodec, tail_capacity=200)[0]
    arr = jnp.array(np.array(msg, dtype=np.int64))
    pre = _hex(arr, *(buf or []))
    ok, val, err = core.guarded(cs.encode, arr, codec, tail_capacity=2 * cap, start_buffers=buf)
    e = dict(op="bitsback", case=job["case"], ok=ok, err=err, dok=False, derr="", ample=job["ample"], msg=msg, dec=[], dtype="", want=job["dtype"], rest="",
             before="" if buf is None else _hex(*buf), under=under or [], undec=[], net=[], elbo=[], symbols=n * L, lanes=L, same=False)
    if not ok:
        return [e]
    zs = list(seen)
    e["same"] = _hex(arr, *(buf or [])) == pre
    if job["ample"] and len(zs) == n * job["B"]:        # observed in coding order: item by item, last symbol first
        for b in range(job["B"]):
            bits = 0.0
            for t in range(n):
                for i in range(L):
                    x, z = msg[b][n - 1 - t][i], zs[b * n + t][i]
                    bits += math.log2(fq[x][z] / tot) - math.log2(fx[z][x] / tot) - math.log2(fz[i][z] / tot)
            e["elbo"].append(int(1000 * bits))
            e["net"].append(8 * (len(val[0][b]) - len(buf[b])))
    e["dok"], d, e["derr"] = core.guarded(cs.decode, list(val[0]), n, (L,), codec, tail_capacity=2 * cap)
    if e["dok"]:
        e.update(dec=[[[int(v) for v in r] for r in m] for m in np.asarray(d[0])], dtype=str(np.asarray(d[0]).dtype), rest=_hex(*d[1]))
        if under:
            ok2, d2, e["derr"] = core.guarded(cs.decode, list(d[1]), len(under[0]), (L,), ucodec, tail_capacity=2 * cap)
            e["undec"] = [[[int(v) for v in r] for r in m] for m in np.asarray(d2[0])] if ok2 else []
    return [e]


def _reject(job):
    cs = _load()
    import jax.numpy as jnp
    import numpy as np

    c = _codec(cs, "table", [[[256] * 256] * 2], 16, "int64")
    arr = jnp.array(np.full((1, 9, 2), 7, dtype=np.int64))
    buf = cs.encode(arr, c, tail_capacity=100)[0]
    out = []
    for cap in (0, 3, 9, len(buf[0]) - 9):
        _, _, err = core.guarded(cs.decode, list(buf), 9, (2,), c, tail_capacity=cap)
        out.append(dict(op="reject", case=f"decode-cap{cap}", err=err, want=["ValueError"]))
        _, _, err = core.guarded(cs.encode, arr, c, tail_capacity=cap, start_buffers=list(buf))
        out.append(dict(op="reject", case=f"append-cap{cap}", err=err, want=["ValueError"]))
    return out


def _run(job):
    return {"history": _history, "bitsback": _bitsback, "reject": _reject}[job["op"]](job)


def run(ctx):
    ctx.design("RansStack")
    ctx.design("RansStack", "RansStack3.cfg")
    if ctx.tier != "quick":
        ctx.design("RansStack", "RansStack2.cfg")
    rng = ctx.rng
    jobs = [dict(op="reject")]
    for k in range(ctx.pick(160, 1500)):
        jobs.append(dict(op="history", seed=rng.randrange(1 << 30), B=rng.choice([1, 1, 2, 3]), depth=1 + k % 4, L=rng.choice([1, 2, 3, 4, 6]), case=f"h{k}"))
    for k in range(ctx.pick(120, 1200)):
        ample = k % 3 == 0
        jobs.append(dict(op="bitsback", seed=rng.randrange(1 << 30), B=rng.choice([1, 1, 2]), L=rng.choice([1, 2, 3, 5]), n=rng.choice([1, 4, 10, 24]),
                         KX=rng.choice([2, 3, 5]), KZ=rng.choice([2, 3, 9, 60, 400]), ample=ample, under=False, allow=rng.random() < 0.5, dtype=rng.choice(["int64", "int32", "uint8"]),
                         mode="dry" if k % 3 == 1 else rng.choice(["first", "last", "typical", "rare"]), case=f"bb{k}{'-ample' if ample else ''}"))
        if jobs[-1]["mode"] == "dry":
            jobs[-1].update(under=rng.random() < 0.7, n=rng.choice([1, 2, 5]) if rng.random() < 0.7 else rng.randint(10, 40), KZ=rng.randint(3, 400), L=rng.randint(2, 5))
    with mp.get_context("fork").Pool(8) as pool:
        ev = [e for r in pool.map(_run, jobs, chunksize=3) for e in r]
    ctx.validate("RansTrace", ev)
    ctx.assumptions.append("jax is not installed: the coder runs on a numpy stand-in with jax's promotion, wrap-around, clamped slices and stable sorting")
