"""C13 accumulating metrics (FID, SwAV FID, KID, MS-SSIM, DISTS)."""
import contextlib
import copy
import io

from .. import core
from ..core import fx, rel


def fid_ref(a, b):
    import numpy as np
    from scipy import linalg

    s1, s2 = np.cov(a, rowvar=False), np.cov(b, rowvar=False)
    d = a.mean(0) - b.mean(0)
    # tr sqrt(s1 s2) through the symmetric square root
    r = linalg.sqrtm(s1)
    r = (r + r.T).real / 2
    w = np.linalg.eigvalsh(r @ s2 @ r)
    return float(d @ d + np.trace(s1) + np.trace(s2) - 2 * np.sqrt(np.clip(w, 0, None)).sum())


def mmd_ref(x, y, degree, gamma, coef):
    import numpy as np

    gamma = 1.0 / x.shape[1] if gamma is None else gamma
    k = lambda p, q: (p @ q.T * gamma + coef) ** degree  # noqa: E731
    m = len(x)
    kx, ky, kxy = k(x, x), k(y, y), k(x, y)
    return (kx.sum() - np.trace(kx) + ky.sum() - np.trace(ky)) / (m * (m - 1)) - 2 * kxy.sum() / (m * m)


def ssim_ref(x, y, data_range, win, k1, k2, std, factors):
    """MS-SSIM per image, double precision, direct sums."""
    import numpy as np

    i = np.arange(win) - win // 2
    g = np.exp(-0.5 * (i / std) ** 2)
    g /= g.sum()

    def filt(a):
        h, w = a.shape
        t = np.stack([np.convolve(r, g[::-1], mode="valid") for r in a])
        return np.stack([np.convolve(c, g[::-1], mode="valid") for c in t.T]).T

    def down(a):
        h, w = a.shape
        a = np.pad(a, ((0, h % 2), (0, w % 2)), mode="edge")
        return (a[::2, ::2] + a[1::2, ::2] + a[::2, 1::2] + a[1::2, 1::2]) / 4

    out = []
    for im in range(x.shape[0]):
        ch = []
        for c in range(x.shape[1]):
            p, q = x[im, c].astype(float), y[im, c].astype(float)
            val = 1.0
            for s, f in enumerate(factors):
                if s:
                    p, q = down(p), down(q)
                c1, c2 = (k1 * data_range) ** 2, (k2 * data_range) ** 2
                up, uq = filt(p), filt(q)
                vp, vq, vpq = filt(p * p) - up ** 2, filt(q * q) - uq ** 2, filt(p * q) - up * uq
                cs = (2 * vpq + c2) / (vp + vq + c2)
                lum = (2 * up * uq + c1) / (up ** 2 + uq ** 2 + c1)
                v = (lum * cs).mean() if s == len(factors) - 1 else cs.mean()
                val *= max(v, 0.0) ** f
            ch.append(val)
        out.append(float(np.mean(ch)))
    return out


def run(ctx):
    import numpy as np
    import torch
    import torch.nn as nn
    import neuralcompression.functional as ncF
    import neuralcompression.metrics._dists as md
    import neuralcompression.metrics._fid as mf
    import neuralcompression.metrics._fid_swav as ms
    import neuralcompression.metrics._kid as mk
    from neuralcompression.metrics import (DeepImageStructureTextureSimilarity, FrechetInceptionDistance, FrechetInceptionDistanceSwAV,
                                           KernelInceptionDistance, MultiscaleStructuralSimilarity)

    edges = ctx.graph("MetricAcc")
    ev, rng = [], ctx.rng
    npr = ctx.np_rng(13)

    class Feat(nn.Module):  # stand-in backbone: four statistics of the picture it is shown
        def __init__(self, *a, **k):
            super().__init__()
            self.seen = k.get("features_list")

        def forward(self, x):
            x = x.double()
            return torch.stack([x[:, 0].mean((1, 2)), x[:, 1].mean((1, 2)), x[:, 2, 0].mean(1), x[:, 0, 0, 0] - x[:, 1, -1, -1]], 1).float()

    class Pair(nn.Module):
        def __init__(self, *a, **k):
            super().__init__()

        def forward(self, a, b, *_, **__):
            return (a - b).abs().mean((1, 2, 3)) + a[:, 0, 0, 0] / 4

    mf.NoTrainInceptionV3 = mk.NoTrainInceptionV3 = ms.NoTrainSwAV = Feat
    md.NoTrainDists = Pair

    def feats(x):
        return Feat()(x).double().numpy()

    def batches(salt):
        return {s: {b: torch.from_numpy(npr.integers(0, 256, (b + 1, 3, 4, 5), dtype=np.uint8)) for b in range(1, 5)} for s in "rf"}

    mean, std = torch.tensor([0.485, 0.456, 0.406]).view(3, 1, 1), torch.tensor([0.228, 0.224, 0.225]).view(3, 1, 1)
    kinds = ["fid", "fid-normalize", "swav", "swav-plain", "ssim", "dists-mean", "dists-sum"]
    shift = 2
    for kind in kinds:
        data = batches(kind)

        def make(n):
            if kind.startswith("fid"):
                return FrechetInceptionDistance(feature=rng.choice([64, 192, 768, 2048]), normalize=kind == "fid-normalize")
            if kind.startswith("swav"):
                return FrechetInceptionDistanceSwAV(normalize=kind == "swav")
            if kind == "ssim":
                return MultiscaleStructuralSimilarity(window_size=3, power_factors=(0.4, 0.6))
            return DeepImageStructureTextureSimilarity(reduction=kind.split("-")[1])

        two = kind.split("-")[0] in ("fid", "swav", "kid")
        imgs = {b: (torch.rand(b, 3, 11, 14, generator=ctx.torch_gen(b)), torch.rand(b, 3, 11, 14, generator=ctx.torch_gen(50 + b))) for b in range(1, 5)}
        if kind == "ssim":
            imgs = {b: (x, (0.7 * x + 0.3 * y)) for b, (x, y) in imgs.items()}
        sub = edges
        walks = core.covering_walks(sub, dict(r=[], f=[]), limit=ctx.pick(600, 2600), rng=rng)
        for wi, walk in enumerate(walks):
            n = 5
            m = make(n)
            ev.append(dict(op="new", case=f"{kind}-w{wi}", kind=kind, err=""))
            for si, edge in enumerate(walk):
                a, d = edge["act"], edge["dst"]
                case = f"{kind}-w{wi}.{si}-{a['name']}"
                ctx.replayed += 1
                if a["name"] == "reset":
                    _, _, err = core.guarded(m.reset)
                    ev.append(dict(op="reset", case=case, kind=kind, err=err))
                elif a["name"] in ("real", "fake"):
                    if two:
                        x = data[a["name"][0]][a["b"]]
                        x = (x.float() + 0.5) / 255 if kind.endswith("normalize") else x
                        keep = x.clone()
                        _, _, err = core.guarded(m.update, x, a["name"] == "real") if si % 2 else core.guarded(m.update, x, real=a["name"] == "real")
                        if not torch.equal(keep, x):
                            err = "input-modified"
                    elif a["name"] == "fake":
                        _, _, err = core.guarded(m.update, *imgs[a["b"]])
                    else:
                        err = ""
                    ev.append(dict(op=a["name"], case=case, kind=kind, b=a["b"], err=err))
                else:
                    if si % 3 == 2:
                        m = copy.deepcopy(m)
                    if two:
                        sides = []
                        for s in "rf":
                            x = torch.cat([data[s][b] for b in sorted(d[s])])
                            if kind.startswith("swav"):
                                x = x.float() / 255
                                x = (x - mean) / std if kind == "swav" else x
                            sides.append(feats(x))
                        ref = [fid_ref(*sides)]
                    else:
                        bs = sorted(d["f"])
                        if kind == "ssim":
                            sc = [v for b in bs for v in ssim_ref(imgs[b][0].numpy(), imgs[b][1].numpy(), 1.0, 3, 0.01, 0.03, 1.5, (0.4, 0.6))]
                        else:
                            sc = [float(v) for b in bs for v in Pair()(*imgs[b])]
                        ref = [sum(sc) if kind == "dists-sum" else sum(sc) / len(sc)]
                    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                        ok, val, err = core.guarded(m.compute)
                    val = [] if not ok else [float(v) for v in val] if isinstance(val, (tuple, list)) else [float(val)]
                    top = max(abs(r) for r in ref)
                    ev.append(dict(op="compute", case=case, kind=kind, err=err if err or len(val) == len(ref) else "wrong-arity", r=d["r"], f=d["f"],
                                   tol=300000, v=[rel(p, q, max(top, 0.1)) for p, q in zip(val, ref)]))

    # KID on histories that end with the same number of images on both sides
    for k in range(ctx.pick(40, 300)):
        n = rng.randint(5, 12)
        kp = dict(degree=rng.choice([1, 2, 3, 4]), gamma=rng.choice([None, 0.01, 1e-4]), coef=rng.choice([0.0, 0.5, 1.0, 2.0]))
        if k % 4 == 0:
            kp = {}
        m = KernelInceptionDistance(feature=64, subsets=rng.choice([1, 3]), subset_size=n, normalize=k % 5 == 0, **kp)
        prep = (lambda x: (x.float() + 0.5) / 255) if k % 5 == 0 else (lambda x: x)
        x, y = (torch.from_numpy(npr.integers(0, top, (n, 3, 4, 5), dtype=np.uint8)) for top in ((256, 256) if k % 2 else (3, 4)))
        ev.append(dict(op="new", case=f"kid-h{k}", kind="kid", err=""))
        for rounds in range(rng.choice([1, 2])):
            if rounds:
                m.reset()
                ev.append(dict(op="reset", case=f"kid-h{k}", kind="kid", err=""))
            todo = []
            for s, im in ((True, x), (False, y)):
                order = list(range(n))
                rng.shuffle(order)
                while order:
                    c = rng.randint(1, len(order))
                    todo.append((s, im[order[:c]]))
                    order = order[c:]
            rng.shuffle(todo)
            for s, im in todo:
                m.update(prep(im), real=s)
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                ok, val, err = core.guarded(m.compute)
            ref = mmd_ref(feats(x), feats(y), **{**dict(degree=3, gamma=None, coef=1.0), **kp})
            ev.append(dict(op="approx", case=f"kid-h{k}-n{n}", fn="kid-of-all", ok=ok, tol=300000, v=[rel(val[0], ref, 0.1), rel(val[1], 0.0, max(abs(ref), 0.1))] if ok else []))

    # many images: none is left out, and subsets may be as large as the sample
    x, y = (torch.from_numpy(npr.integers(0, top, (6000, 3, 2, 2), dtype=np.uint8)) for top in (256, 200))
    x[:900] //= 8
    for cls, nm in ((FrechetInceptionDistance, "fid"), (FrechetInceptionDistanceSwAV, "swav")):
        m = cls() if nm == "fid" else cls(normalize=False)
        for a in range(0, 6000, 1500):
            m.update(x[a:a + 1500], real=True)
            m.update(y[a:a + 1500], real=False)
        prep2 = (lambda t: t) if nm == "fid" else (lambda t: t.float() / 255)
        ref = fid_ref(feats(prep2(x)), feats(prep2(y)))
        ev.append(dict(op="approx", case=f"{nm}-many", fn=f"{nm}-of-many-images", ok=True, tol=300000, v=[rel(float(m.compute()), ref, 1e-4)]))
    m = KernelInceptionDistance(feature=64, subsets=1, subset_size=1300)
    x[:300] //= 4
    m.update(x[:1300], real=True)
    m.update(y[:1300], real=False)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        mu, sd = m.compute()
    ref = mmd_ref(feats(x[:1300]), feats(y[:1300]), 3, None, 1.0)
    ev.append(dict(op="approx", case="kid-many", fn="kid-of-many-images", ok=True, tol=30000, v=[rel(float(mu), ref, 0.1)]))
    m = KernelInceptionDistance(feature=64, subsets=1, subset_size=7)
    m.update(x[:40], real=True)
    m.update(y[:40], real=False)
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        mu, sd = m.compute()
    ev.append(dict(op="fact", case="kid-one-subset", fn="kid-one-subset-has-no-spread", holds=float(sd) == 0.0))
    # nearly black pictures are still divided by 255
    m = FrechetInceptionDistanceSwAV()
    dark, dim_ = (torch.from_numpy(npr.integers(0, top, (9, 3, 4, 5), dtype=np.uint8)) for top in (2, 2))
    dim_[:, 0] = 1
    m.update(dark, real=True)
    m.update(dim_, real=False)
    ref = fid_ref(*[feats((t.float() / 255 - mean) / std) for t in (dark, dim_)])
    ev.append(dict(op="between", case="swav-dark", fn="swav-dark-pictures", v=[fx(float(m.compute()) - ref, 1e6)], lo=-2000, hi=2000))

    # KID subsets: bounded by the samples, mean over many subsets estimates the full statistic
    a, b = npr.normal(size=(30, 4)), npr.normal(0.4, 1, size=(30, 4))
    for k in range(ctx.pick(4, 16)):
        ss = rng.choice([6, 10, 15])
        m = KernelInceptionDistance(feature=64, subsets=400, subset_size=ss)
        pics = [torch.from_numpy(np.clip(x * 20 + 100, 0, 255).astype(np.uint8)).view(-1, 4, 1, 1) for x in (a, b)]
        pics = [torch.cat([p[:, :3], p[:, 3:]], 1)[:, :3].expand(-1, -1, 2, 2).contiguous() for p in pics]
        m.update(pics[0], real=True)
        m.update(pics[1], real=False)
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            mu, sd = m.compute()
        ref = mmd_ref(feats(pics[0]), feats(pics[1]), 3, None, 1.0)
        z = (float(mu) - ref) / (float(sd) / 20 + 1e-12)
        ev.append(dict(op="between", case=f"kid-subset{k}-{ss}", fn="kid-mean-over-subsets", v=[fx(z, 1000)], lo=-7000, hi=7000))
        ev.append(dict(op="fact", case=f"kid-subset{k}-{ss}", fn="kid-spread-over-subsets", holds=float(sd) > 0))
        m2 = KernelInceptionDistance(feature=64, subsets=4, subset_size=31)
        m2.update(pics[0], real=True)
        m2.update(pics[1], real=False)
        ok, _, _ = core.guarded(m2.compute)
        ev.append(dict(op="fact", case=f"kid-too-large{k}", fn="kid-subset-larger-than-samples-refused", holds=not ok))
    for bad in (0, 63, 100, 4096):
        _, _, err = core.guarded(FrechetInceptionDistance, feature=bad)
        ev.append(dict(op="refuse", case=f"feature{bad}", fn="fid-feature", err=err, want="ValueError"))
    for cls in (FrechetInceptionDistance, FrechetInceptionDistanceSwAV):
        _, _, err = core.guarded(cls, normalize="yes")
        ev.append(dict(op="refuse", case=f"normalize-{cls.__name__}", fn="normalize", err=err, want="ValueError"))
    _, _, err = core.guarded(DeepImageStructureTextureSimilarity, reduction="none")
    ev.append(dict(op="refuse", case="dists-reduction", fn="dists-reduction", err=err, want="ValueError"))

    # identical sides give zero distance; symmetric; the two sides are not mixed up
    for k in range(ctx.pick(6, 40)):
        data = batches(k)
        x = torch.cat(list(data["r"].values()))
        y = torch.cat(list(data["f"].values()))
        vals = []
        for p, q in ((x, x), (x, y), (y, x)):
            m = FrechetInceptionDistance()
            for s, t in ((p, True), (q, False)):
                cut = rng.randint(1, len(s) - 1)
                m.update(s[:cut], t)
                m.update(s[cut:], t)
            vals.append(float(m.compute()))
        ev.append(dict(op="between", case=f"fid-laws{k}", fn="fid-of-identical-sides", v=[fx(vals[0], 1e4)], lo=-100, hi=100))
        ev.append(dict(op="approx", case=f"fid-laws{k}", fn="fid-symmetric", ok=True, tol=20000, v=[rel(vals[1], vals[2], 1.0)]))
    # single-image updates
    m = FrechetInceptionDistance()
    for i in range(6):
        m.update(x[i:i + 1], True)
        m.update(y[i:i + 1], False)
    ev.append(dict(op="approx", case="fid-single", fn="fid-one-image-at-a-time", ok=True, tol=100000, v=[rel(m.compute(), fid_ref(feats(x[:6]), feats(y[:6])), 1.0)]))

    # DISTS refuses what is not an RGB batch in [0, 1], and does not count it
    good = torch.rand(2, 3, 8, 8, generator=ctx.torch_gen(5))
    for nm, u in (("above", good * 1.01 + 0.5), ("just-above", good.clone().index_put_((torch.tensor([1]), torch.tensor([2]), torch.tensor([3]), torch.tensor([4])), torch.tensor([1.0 + 1e-4]))),
                  ("just-below", good.clone().index_put_((torch.tensor([0]), torch.tensor([1]), torch.tensor([7]), torch.tensor([0])), torch.tensor([-1e-4]))), ("below", good - 0.5), ("grey", good[:, :1]), ("three-d", good[0]), ("four-channels", torch.rand(2, 4, 8, 8))):
        for side in (0, 1):
            m = DeepImageStructureTextureSimilarity()
            m.update(good, good.flip(3))
            before = float(m.compute())
            _, _, err = core.guarded(m.update, *((u, good) if side == 0 else (good, u)))
            ev.append(dict(op="refuse", case=f"dists-{nm}-{side}", fn="dists-input", err=err, want="ValueError"))
            ev.append(dict(op="approx", case=f"dists-{nm}-{side}", fn="dists-refused-not-counted", ok=True, tol=2000, v=[rel(m.compute(), before, 0.01)]))

    # MS-SSIM itself
    for k in range(ctx.pick(40, 250)):
        win, scales = rng.choice([(1, 2), (3, 3), (5, 2), (7, 1), (3, 1), (11, 2)]) if k % 13 else (1, 6)
        fac = tuple(rng.uniform(0.1, 0.6) for _ in range(scales))
        lo = win * 2 ** (scales - 1)
        h, w, n, c = rng.randint(lo, lo + 9), rng.randint(lo, lo + 9), rng.choice([1, 2, 3]), rng.choice([1, 3, 4])
        dr = rng.choice([1.0, 255.0, 0.5, 1000.0])
        gsd, k1, k2 = rng.choice([0.8, 1.5, 3.0]), rng.choice([0.01, 0.05]), rng.choice([0.03, 0.1])
        x = torch.from_numpy(npr.random((n, c, h, w))) * dr
        y = (x * rng.uniform(0.3, 1) + torch.from_numpy(npr.random((n, c, h, w))) * dr * rng.choice([0.05, 0.3, 0.7])).clamp(0, dr)
        if k % 4 == 1:
            x, y = x - dr / 2, y - dr / 2
        kw = dict(data_range=dr, window_size=win, k1=k1, k2=k2, gaussian_std=gsd, power_factors=fac)
        ref = ssim_ref(x.numpy(), y.numpy(), dr, win, k1, k2, gsd, fac)
        case = f"ssim{k}-w{win}-s{scales}"
        for red, want in (("none", ref), ("sum", [sum(ref)]), ("mean", [sum(ref) / n])):
            ok, v, err = core.guarded(ncF.multiscale_structural_similarity, x, y, reduction=red, **kw)
            v = v.reshape(-1).tolist() if ok else []
            ev.append(dict(op="approx", case=case, fn=f"ms-ssim-{red}", ok=ok and len(v) == len(want), tol=20000, v=[rel(p, q, 0.5) for p, q in zip(v, want)]))
        s = ncF.multiscale_structural_similarity(y, x, reduction="none", **kw).tolist()
        ev.append(dict(op="approx", case=case, fn="ms-ssim-symmetric", ok=True, tol=20000, v=[rel(p, q, 0.5) for p, q in zip(s, ref)]))
        one = ncF.multiscale_structural_similarity(x, x, reduction="none", **kw).tolist()
        ev.append(dict(op="approx", case=case, fn="ms-ssim-of-identical", ok=True, tol=1000, v=[rel(p, 1.0, 1.0) for p in one]))
        ev.append(dict(op="between", case=case, fn="ms-ssim-range", v=[fx(v, 1e6) for v in s], lo=0, hi=1000010))
        mm = MultiscaleStructuralSimilarity(**kw)
        cut = rng.randint(0, n)
        for p in (slice(0, cut), slice(cut, n)):
            if x[p].shape[0]:
                mm.update(x[p], y[p])
        ev.append(dict(op="approx", case=case, fn="ms-ssim-metric-parameters", ok=True, tol=3000, v=[rel(mm.compute(), sum(ref) / n, 0.5)]))
        if win > 1:
            small = x[:, :, : win * 2 ** (scales - 1) - 2 ** (scales - 1)]
            _, _, err = core.guarded(ncF.multiscale_structural_similarity, small, small, **kw)
            ev.append(dict(op="refuse", case=case, fn="ms-ssim-too-small", err=err, want="RuntimeError"))
    # the shipped parameters
    x = torch.from_numpy(npr.random((1, 2, 176, 181)))
    y = (0.8 * x + 0.2 * torch.from_numpy(npr.random((1, 2, 176, 181))))
    ref = ssim_ref(x.numpy(), y.numpy(), 1.0, 11, 0.01, 0.03, 1.5, (0.0448, 0.2856, 0.3001, 0.2363, 0.1333))
    ev.append(dict(op="approx", case="ssim-defaults", fn="ms-ssim-defaults", ok=True, tol=20000, v=[rel(ncF.multiscale_structural_similarity(x, y), ref[0], 0.5)]))
    mm = MultiscaleStructuralSimilarity()
    mm.update(x, y)
    ev.append(dict(op="approx", case="ssim-defaults", fn="ms-ssim-defaults", ok=True, tol=200000, v=[rel(mm.compute(), ref[0], 0.5)]))
    for bad in (0, 2, -3, 10):
        _, _, err = core.guarded(ncF.multiscale_structural_similarity, x, y, window_size=bad, power_factors=(1.0,))
        ev.append(dict(op="refuse", case=f"window{bad}", fn="ms-ssim-window", err=err, want="ValueError"))
    _, _, err = core.guarded(ncF.multiscale_structural_similarity, x, y, reduction="median", power_factors=(1.0,))
    ev.append(dict(op="refuse", case="reduction", fn="ms-ssim-reduction", err=err, want="ValueError"))
    ctx.validate("MetricTrace", ev)
