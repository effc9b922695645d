"""C17 quality metrics, evaluation and test accounting of projects/illm."""
import math
import types

from .. import core, illm
from ..core import fx, rel


def run(ctx):
    import torch
    import torch.nn.functional as F
    from neuralcompression.loss_fn import BinaryCrossentropyDiscriminatorLoss, BinaryCrossentropyGeneratorLoss, MSELoss, TargetRateConfig

    edges = ctx.graph("EvalFlow")
    ns = illm.load()
    st = illm.make_stubs()
    from omegaconf import DictConfig

    from neuralcompression import HyperpriorOutput
    from neuralcompression.functional import multiscale_structural_similarity as msssim

    rng, g, ev = ctx.rng, ctx.torch_gen(17), []

    def module(k, **kw):
        cfg = TargetRateConfig(0.3, [2.0, 1.0], [5], (0.5, 2.0), [1.0, 0.5], [7])
        if k % 2:
            m = ns.gan.GANCompressionModule(model=st.Model(), target_rate_config=cfg, discriminator=st.Disc(), discriminator_loss=BinaryCrossentropyDiscriminatorLoss(),
                                            generator_loss=BinaryCrossentropyGeneratorLoss(), optimizer_config=DictConfig(), **kw)
        else:
            kw.pop("generator_weight", None)
            m = ns.target.TargetRateCompressionModule(model=st.Model(), target_rate_config=cfg, optimizer_config=DictConfig(), **kw)
        m.trainer = types.SimpleNamespace(global_step=6, current_epoch=0)
        m.patch_size = 64
        return m

    def to255(x):
        return (x.clamp(0, 1) * 255).round()

    H, W = 176, 180
    pool = []
    for i in range(6):
        n = 1 + i % 3
        x = torch.rand(n, 3, H, W, generator=g)
        y = x + (0.02 + 0.03 * i) * torch.randn(x.shape, generator=g) + (0.05 * i if i % 2 else 0)
        px, py = to255(x), to255(y)
        ms = msssim(py, px, data_range=255.0)
        b = dict(n=n, mse=fx(((py - px).double() ** 2).mean(), 1e3), lp=fx((y.clamp(0, 1) - x).abs().double().mean(), 1e6), ms=fx(ms.double().mean(), 1e6))
        pool.append((x, y, b))

    def out(y):
        z = torch.zeros(1)
        return HyperpriorOutput(y, z, z, z, z, z, z)

    def grid(n):
        c = n * (H // 64) * (W // 64)
        return c + n * ((H - 32) // 64) * ((W - 32) // 64)

    def sided(metric, xs, ys, patch):
        """pictures held per side, and whether each is (part of) the right source"""
        pure = True
        tot = []
        for held, src in ((metric.real, xs), (metric.fake, ys)):
            got = [p for b in held for p in b]
            tot.append(len(got))
            want = [to255(s).to(torch.uint8) for s in src]
            pure = pure and all(p.dtype == torch.uint8 for p in got)
            if not patch:
                pure = pure and len(got) == sum(len(w) for w in want) and all(torch.equal(p, q) for p, q in zip(got, [i for w in want for i in w]))
            else:
                bag = {core.digest(w[i][:, r:r + 64, c:c + 64]) for w in want for i in range(len(w)) for r in range(0, H - 63, 32) for c in range(0, W - 63, 32)}
                pure = pure and all(core.digest(p) in bag for p in got) and len({core.digest(p) for p in got}) == len(got)
        return dict(real=tot[0], fake=tot[1], pure=bool(pure))

    # --- all transitions of the metric bookkeeping
    total = 0
    init = dict(acc=dict(train=0, val=0, vfid=0, test=0), name="")
    # before any test set is named, then everything
    unnamed = [e for e in edges if e["src"]["name"] == "" and e["dst"]["name"] == ""]
    walks = core.covering_walks(unnamed, init, rng=rng) + core.covering_walks(edges, init, limit=ctx.pick(800, 4000), rng=rng)
    for wi, walk in enumerate(walks):
        if total > ctx.pick(900, 4500):
            break
        m = module(wi)
        ev.append(dict(op="new", case=f"w{wi}", err=""))
        held = dict(train=[], val=[], vfid=[], test=[])
        dname, mixed, bi = "", False, rng.randint(0, 5)
        for si, edge in enumerate(walk):
            a = edge["act"]["name"]
            e = dict(op=a, case=f"w{wi}.{si}-{a}", err="")
            m._rec["log"].clear()
            logged = {}
            if a in ("train", "val", "test"):
                bi = (bi + rng.choice([1, 2, 5])) % 6
                x, y, b = pool[bi]
                x0, y0 = x.clone(), y.clone()
                o = out(y) if rng.random() < 0.6 else y
                kw = dict(dataset_name=dname) if a == "test" else {}
                with torch.no_grad():
                    ok, _, err = core.guarded(m.log_quality_metrics, o, x, prefix=a, **kw)
                pw = a == "test" and ("clic" in dname or "div2k" in dname)
                b = dict(b, pics=grid(b["n"]) if pw else b["n"])
                e.update(err=err, batch=b, same=bool(torch.equal(x, x0) and torch.equal(y, y0)), mse=0, ms=0, psnrmse=0, lp=0, ds=0, hific=0)
                pre = f"{a}/{dname}_" if a == "test" else f"{a}/"
                logged = {n_: v for n_, v, _ in m._rec["log"]}

                def val(key):
                    if pre + key not in logged:
                        return float("nan")
                    v = logged[pre + key]
                    return float(v.compute()) if hasattr(v, "compute") else float(v)
                if ok:
                    e.update(mse=fx(val("mse"), 1e3), ms=fx(val("ms_ssim"), 1e6), psnrmse=fx(255.0**2 * 10 ** (-val("psnr") / 10), 1e3))
                    if a != "train":
                        e.update(lp=fx(val("lpips"), 1e6), hific=fx(val("hific_distortion"), 1e3))
                    if a == "test":
                        e.update(ds=fx(val("dists"), 1e6))
                for q in (a, "vfid") if a == "val" else (a,):
                    held[q].append((x, y, dname))
            elif a == "test_unnamed":
                # the bookkeeping must refuse a test step before the data set is named
                _, _, e["err"] = core.guarded(m.test_step, pool[0][0], 0)
                e["want"] = ["ValueError"]
            elif a == "no_dataset":
                _, _, e["err"] = core.guarded(m.log_quality_metrics, pool[1][1], pool[1][0], prefix="test")
                e["want"] = ["ValueError"]
            elif a == "bad_prefix":
                _, _, e["err"] = core.guarded(m.log_quality_metrics, pool[2][1], pool[2][0], prefix=["Train", "eval", "", "tests"][si % 4])
                e["want"] = ["ValueError"]
            elif a == "set_name":
                dname = {"clic2020": rng.choice(["clic2020", "clic_test", "div2k", "my_div2k_val"]), "photos": rng.choice(["photos", "coco"])}.get(edge["act"]["n"], edge["act"]["n"])
                e["name"] = dname
                _, _, e["err"] = core.guarded(m.update_test_dataset_name, dname)
            elif a in ("train_start", "val_start", "test_start"):
                fn = dict(train_start=m.on_train_epoch_start, val_start=m.on_validation_epoch_start, test_start=m.on_test_epoch_start)[a]
                _, _, e["err"] = core.guarded(fn)
                held = {q: [] for q in held}
            elif a == "load":
                _, _, e["err"] = core.guarded(m.on_load_checkpoint, {"state_dict": {}})
                held = {q: [] for q in held}
            elif a == "val_end":
                want = None
                if held["vfid"]:
                    want = core.guarded(lambda: float(m.eval_fid.compute()))[1]
                _, _, e["err"] = core.guarded(m.on_validation_epoch_end)
                logged = {n_: v for n_, v, _ in m._rec["log"]}
                e.update(logged="val/fid" in logged, right=want is not None and "val/fid" in logged and float(logged["val/fid"]) == want)
                held["vfid"] = []
            elif a == "test_end":
                want = {q: core.guarded(lambda t=t: float(t.compute()[0] if q == "kid" else t.compute()))[1] for q, t in (("fid", m.test_fid), ("fid_swav", m.test_fid_swav), ("kid", m.test_kid))}
                _, _, e["err"] = core.guarded(m.on_test_epoch_end)
                logged = {n_: v for n_, v, _ in m._rec["log"]}
                e.update(keys=sorted(logged), zero=all(float(v) == 0.0 for v in logged.values()), right=all(float(logged.get(f"test/{dname}_{q}", -1)) == v for q, v in want.items()))
            # what every metric holds now
            names = {d for _, _, d in held["test"]}
            if len({("clic" in d or "div2k" in d) for d in names}) <= 1:
                patch = any("clic" in d or "div2k" in d for d in names)
                e["vfid"] = sided(m.eval_fid, [h[0] for h in held["vfid"]], [h[1] for h in held["vfid"]], False)
                e["tfid"] = [sided(t, [h[0] for h in held["test"]], [h[1] for h in held["test"]], patch) for t in ([m.test_fid, m.test_fid_swav, m.test_kid] if dname else [])
                             ] if not (patch and len({id(h[0]) for h in held["test"]}) < len(held["test"])) else []
                per = H * W * 3
                counts = [["train", int(m.train_mse.total) // per], ["train", int(m.train_psnr.total) // per], ["train", int(m.train_msssim.total)], ["val", int(m.eval_mse.total) // per],
                          ["val", int(m.eval_psnr.total) // per], ["val", int(m.eval_msssim.total)], ["val", int(m.eval_lpips.n)]]
                if dname:
                    counts += [["test", int(m.test_mse.total) // per], ["test", int(m.test_msssim.total)], ["test", int(m.test_lpips.n)], ["test", int(m.test_dists.n)]]
                e["counts"] = counts
            ev.append(e)
            total += 1
            ctx.replayed += 1

    # --- evaluation steps: logged numbers, nothing moves
    def bpp(like, px):
        return -torch.log2(like.double()).flatten(1).sum(1) / px

    for k in range(ctx.pick(16, 80)):
        dlam, gw = rng.choice([1.0, 0.5, 3.0]), rng.choice([1.0, 2.0, 0.25])
        m = module(k, distortion_lam=dlam, generator_weight=gw, distortion_loss=MSELoss(rng.choice([1.0, 100.0])))
        n = 1 + k % 3
        h, w = rng.choice([(176, 180), (192, 176)])
        x = torch.rand(n, 3, h, w, generator=g)
        before = {a: t.detach().clone() for a, t in m.named_parameters()}
        m.trainer.global_step = gs = rng.choice([0, 4, 5, 6, 7, 50])
        tgt, l2 = 0.3 * (2.0 if gs < 5 else 1.0), 2.0 * (1.0 if gs < 7 else 0.5)
        m._rec["log"].clear()
        with torch.no_grad():
            ok, _, err = core.guarded(m.validation_step, x, 0)
        logged = {n_: float(v) for n_, v, _ in m._rec["log"] if not hasattr(v, "compute")}
        with torch.no_grad():
            o = m.model(x)
            px = h * w
            parts = dict(latent_bpp=o.latent_likelihoods, hyper_bpp=o.hyper_latent_likelihoods, quantized_latent_bpp=o.quantized_latent_likelihoods, quantized_hyper_bpp=o.quantized_hyper_latent_likelihoods)
            v = {a: bpp(t, px) for a, t in parts.items()}
            tot, qt = v["latent_bpp"] + v["hyper_bpp"], v["quantized_latent_bpp"] + v["quantized_hyper_bpp"]
            lam = torch.tensor([l2 if q > tgt else 0.5 for q in qt.tolist()], dtype=torch.float64)
            want = {a: float(t.mean()) for a, t in v.items()}
            want.update(total_bpp=float(tot.mean()), quantized_total_bpp=float(qt.mean()), rate_loss=float((lam * tot).mean()), target=tgt, lam2=l2)
            want["distortion_loss"] = m.distortion_loss.scale_param * float(((o.image - x).double() ** 2).mean())
            if k % 2:
                lg = m.discriminator(o.image, o.latent)
                want["generator_loss"] = float(F.binary_cross_entropy_with_logits(lg.double(), torch.ones_like(lg).double()))
                want["total_model_loss"] = dlam * want["distortion_loss"] + want["rate_loss"] + gw * want["generator_loss"]
            else:
                want["total_loss"] = dlam * want["distortion_loss"] + want["rate_loss"]
        for a, r in want.items():
            ev.append(dict(op="approx", fn="logged-" + a, case=f"eval{k}-{a}", ok=ok and f"val/{a}" in logged, v=[rel(logged.get(f"val/{a}", 0.0), r, 1e-6)], tol=200000))
        ev.append(dict(op="fact", fn="evaluation-moves-nothing", case=f"eval{k}", holds=all(torch.equal(before[a], t.detach()) for a, t in m.named_parameters()) and all(t.grad is None for t in m.parameters())))
        # test step
        name = rng.choice(["kodak", "clic2020", "photos", "div2k"])
        m.update_test_dataset_name(name)
        m.on_test_epoch_start()
        m.model.calls.clear()
        m._rec["log"].clear()
        batch = x if k % 3 else (x, torch.zeros(n))
        with torch.no_grad():
            ok, r, err = core.guarded(m.test_step, batch, 0)
        import pickle

        comp = m.model.compress(x)
        dec = m.model.decompress(comp)
        logged = {n_: v for n_, v, _ in m._rec["log"]}
        loss = m.distortion_loss.scale_param * float(((dec - x).double() ** 2).mean())
        calls = m.model.calls
        i_up = calls.index("compress") if "compress" in calls else 99
        i_c = next((i for i, c in enumerate(calls) if isinstance(c, tuple) and c[0] == "compress"), -1)
        lt = logged.get(f"test/{name}_test_distortion", float("nan"))
        mse = logged.get(f"test/{name}_mse")
        ev.append(dict(op="teststep", case=f"test{k}-{name}-n{n}", err=err, n=n, h=h, w=w, bytes=len(pickle.dumps(comp)), bits=fx(float(logged.get(f"test/{name}_bpp", -1)) * n * h * w, 1),
                       lossok=bool(ok and abs(float(lt) - loss) <= 1e-4 * loss and abs(float(r) - loss) <= 1e-4 * loss), prep=i_up < i_c or not ok,
                       decoded=bool(mse is not None and abs(float(mse.compute()) - float(((to255(dec) - to255(x)) ** 2).mean())) < 1e-2)))
        ctx.replayed += 2
    ctx.validate("EvalTrace", ev)
