"""C27 Experiments: starting, refusing, resuming; what is built and loaded before a run."""
import collections
import contextlib
import copy
import hashlib
import importlib.util
import io
import os
import shutil
import sys
import types
import warnings
from pathlib import Path

from .. import core
from ..core import covering_walks

Images = collections.namedtuple("Images", ["flow", "image1", "image2", "image2_est"])


def tree(root):
    """everything below a directory"""
    out = {}
    for d, _, fs in os.walk(root):
        out[d] = None
        for f in fs:
            out[os.path.join(d, f)] = hashlib.md5(open(os.path.join(d, f), "rb").read()).hexdigest()
    return out


def load(path, name):
    spec = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    spec.loader.exec_module(m)
    return m


@contextlib.contextmanager
def within(path):
    old = os.getcwd()
    os.makedirs(path, exist_ok=True)
    os.chdir(path)
    try:
        yield
    finally:
        os.chdir(old)


def attempt(fn, *a, **k):
    """name of what a call raised, with the user's interrupt among them"""
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return fn(*a, **k), ""
    except (Exception, KeyboardInterrupt) as e:
        return None, type(e).__name__


class Runs:
    """a trainer's part: reads what it is told to continue from, saves where it is told to"""

    def __init__(self, trainers):
        import torch

        self.torch, self.runs, self.tests, self.plan = torch, [], [], ["saved"]
        for T in trainers:
            T.on_fit, T.on_test = staticmethod(self.fit), staticmethod(self.test)

    def fit(self, trainer, model=None, *a, **k):
        cb = [c for c in trainer.callbacks if type(c).__name__ == "ModelCheckpoint"]
        ck = k.get("ckpt_path") or trainer.kwargs.get("resume_from_checkpoint")
        base = self.torch.load(str(ck))["prog"] if ck else 0
        end = self.plan[len(self.runs)] if len(self.runs) < len(self.plan) else "saved"
        r = dict(trainer=trainer, module=model, base=base, saver=cb, data=k.get("datamodule"), end=end)
        self.runs.append(r)
        d = Path(cb[0].kwargs.get("dirpath")) if cb else None
        if end != "early" and cb:
            d.mkdir(parents=True, exist_ok=True)
            self.torch.save({"prog": 100 + base}, d / f"epoch={base}-step={base * 10}.ckpt")
        if end == "saved" and cb:
            self.torch.save({"prog": base + 1}, d / "last.ckpt")
        if end != "saved":
            raise KeyboardInterrupt
        trainer.fitted = True

    def test(self, trainer, *a, **k):
        m = k.get("model", a[0] if a else None)
        self.tests.append(dict(trainer=trainer, module=m, training=m.training, name=getattr(m, "test_dataset_name", None), data=k.get("dataloaders") or k.get("datamodule"),
                               state={n: v.clone() for n, v in m.state_dict().items()}))


def look(torch, d):
    names = sorted(p.name for p in d.glob("*.ckpt")) if d.is_dir() else []
    last = d / "last.ckpt"
    return ("last" if "last.ckpt" in names else "step" if names else "empty"), (torch.load(last)["prog"] if last.exists() else 0)


def put(torch, d, state, prog):
    shutil.rmtree(d, ignore_errors=True)
    if state == "absent":
        return
    d.mkdir(parents=True)
    if state in ("step", "last"):
        torch.save({"prog": 100 + prog}, d / f"epoch={prog}-step={prog * 10}.ckpt")
    if state == "last":
        torch.save({"prog": prog}, d / "last.ckpt")


def run(ctx):
    import torch

    shims = os.path.join(core.VERIF, "harness", "shims")
    P = core.REPO + "/projects/"
    sys.path[:0] = [P + "torch_vct", P + "deep_video_compression", P + "illm", core.REPO, shims]
    from .. import illm as illm_loader

    illm_loader.load()
    import lightning.pytorch as lpl
    import pytorch_lightning as ppl
    from omegaconf import DictConfig

    ev, rng = [], ctx.rng
    edges = ctx.graph("ExpRun")
    ctx.replayed += len(edges)
    trainers = {lpl.Trainer, ppl.Trainer}
    ST = "harness.expstubs."

    # ---------------------------------------------------------------- loading
    illm = load(P + "illm/train.py", "c27_illm_train")
    import data_module
    import dvc_module
    import model_lightning

    import neuralcompression.models as ncmodels

    from .. import expstubs

    dvc_log = []

    class FakeDVC(torch.nn.Module):
        def __init__(self, **kw):
            super().__init__()
            self.kw, self.history = kw, ()

    class FakeModule(torch.nn.Module):
        device, dtype = torch.device("cpu"), torch.float32

        def __init__(self, model, **kw):
            super().__init__()
            self.given, self.kw = model, kw
            dvc_log.append(self)

        def recompose_model(self, model):
            out = FakeDVC(**model.kw)
            out.history = model.history + (self.kw.get("training_stage"),)
            self.handed = model
            return out

    class FakeVCT(torch.nn.Module):
        device = torch.device("cpu")

        def __init__(self, model, cfg):
            super().__init__()
            self.model, self.cfg = model, cfg

    keep = ncmodels.DVC, dvc_module.DvcModule, data_module.Vimeo90kSeptupletLightning, model_lightning.VCTModule
    ncmodels.DVC, dvc_module.DvcModule, data_module.Vimeo90kSeptupletLightning, model_lightning.VCTModule = FakeDVC, FakeModule, expstubs.Data, FakeVCT
    dvc = load(P + "deep_video_compression/train.py", "c27_dvc_train")
    vct = load(P + "torch_vct/model_train.py", "c27_vct_train")
    ncmodels.DVC, dvc_module.DvcModule, data_module.Vimeo90kSeptupletLightning, model_lightning.VCTModule = keep
    for m, names in ((dvc, dict(DVC=FakeDVC, DvcModule=FakeModule, Vimeo90kSeptupletLightning=expstubs.Data)), (vct, dict(VCTModule=FakeVCT))):
        for n, v in names.items():
            if hasattr(m, n):
                setattr(m, n, v)

    # ---------------------------------------------------------------- configurations
    adam = {"_target_": "torch.optim.Adam", "lr": 0.001}
    ident = {"_target_": "neuralcompression.optim.IdentitySchedule"}

    def icfg(ov=False, re=True, gan=False, **kw):
        c = dict(
            seed=3, training_mode="train", ngpu=1, data={"_target_": ST + "Data"}, model={"_target_": ST + "IModel"},
            distortion_loss={"_target_": "torch.nn.MSELoss"},
            rate_target=dict(_target_="neuralcompression.loss_fn.TargetRateConfig", target_bpp=0.14, target_factors=[1.5, 1.0], target_steps=[50], lam_levels=[0.1, 2.0], lam2_factors=[0.5, 1.0], lam2_steps=[50]),
            optimizer=dict(model_opt=adam, model_opt_schedule=ident, aux_opt=adam, aux_opt_schedule=ident, discriminator_opt=adam, discriminator_opt_schedule=ident),
            lightning_module=dict(distortion_lam=2.5, gradient_clip_val=0.7, gradient_clip_algorithm="value"),
            logger=dict(group="dev"), trainer=dict(max_steps=1000, devices=1), image_logs=dict(log_cache_dir="cache", train_log_indices=[3, 1], val_log_indices=[4, 0, 2]),
            checkpoint=dict(overwrite=ov, resume_training=re, callback=dict(dirpath="checkpoints", save_top_k=1, monitor="val/ms_ssim", mode="max", save_last=True)),
            test_dataloaders={})
        if gan:
            c["discriminator"] = dict(model={"_target_": ST + "IDisc"}, discriminator_loss={"_target_": "neuralcompression.loss_fn.BinaryCrossentropyDiscriminatorLoss"},
                                      generator_loss={"_target_": "neuralcompression.loss_fn.BinaryCrossentropyGeneratorLoss"})
        c.update(kw)
        return DictConfig(c)

    def vcfg(ov=False, re=True, **kw):
        c = dict(seed=5, ngpu=0, datamodule={"_target_": ST + "Data", "root": "x"}, model={"_target_": ST + "Net", "width": 3}, logger=dict(project="p"), trainer=dict(max_steps=77), tester=dict(devices=1),
                 checkpoint=dict(overwrite=ov, resume_training=re, callback=dict(dirpath="checkpoints", save_top_k=2, monitor="val_combined_loss_weighted", mode="min", save_last=True)))
        c.update(kw)
        return DictConfig(c)

    def dcfg(ov=False, re=True, stages=None, root=".", **kw):
        stages = stages or {"s1_a": dict(save_dir=None, module=dict(training_stage="1_motion_estimation", learning_rate=1e-4), trainer=dict(max_steps=5))}
        c = dict(data=dict(data_dir="d", num_workers=0), ngpu=kw.pop("ngpu", 0), trainer=dict(gpus=0, max_steps=9, accelerator="ddp"), model=dict(coder_channels=8),
                 module=dict(pretrained_model_name="bmshj2018-hyperprior", pretrained_model_quality_level=3, distortion_lambda=256.0, learning_rate=0.5),
                 checkpoint=dict(overwrite=ov, resume_training=re, model_checkpoint=dict(save_top_k=1, monitor="val_loss", save_last=True)),
                 logging=dict(image_seed=kw.pop("image_seed", 123), save_root=root, num_log_images=kw.pop("n", 3)), training_stages=stages)
        c.update(kw)
        return DictConfig(c)

    def settings(r, want, trainer):
        """the saver and trainer were given what the configuration says"""
        return len(r["saver"]) == 1 and all(r["saver"][0].kwargs.get(k) == v for k, v in want.items()) and all(r["trainer"].kwargs.get(k) == v for k, v in trainer.items())

    # ---------------------------------------------------------------- histories
    def one(proj, cwd, d, ov, re, end, case, cfg=None):
        R = Runs(trainers)
        R.plan = [end]
        before = tree(d)
        with within(cwd):
            if proj == "illm":
                c = cfg or icfg(ov, re)
                _, err = attempt(illm.main, c)
                want, tr = dict(c.checkpoint.callback), {}
            elif proj == "vct":
                c = cfg or vcfg(ov, re)
                _, err = attempt(vct.main, c)
                want, tr = dict(c.checkpoint.callback), dict(c.trainer)
            else:
                c = cfg or dcfg(ov, re)
                _, err = attempt(dvc.main, c)
                want, tr = dict(c.checkpoint.model_checkpoint), dict(gpus=0, max_steps=5, accelerator="ddp")
        ran = bool(R.runs)
        st, pr = look(torch, d)
        ev.append(dict(op="start", ov=ov, re=re, end=end, err=err, ran=ran, base=R.runs[0]["base"] if ran else 0, kept=tree(d) == before, dir=st, prog=pr,
                       settings=ran and settings(R.runs[0], {k: v for k, v in want.items() if k != "dirpath"}, tr) and len(R.runs) == 1, case=case))
        return R

    init = dict(dir="absent", prog=0)
    for proj in ("illm", "vct", "dvc", "dvc-dir"):
        es = [e for e in edges if not (proj == "vct" and e["act"].get("ov") and e["act"].get("re"))]
        for w, walk in enumerate(covering_walks(es, init, None, rng)):
            cwd = os.path.join(ctx.scratch, f"{proj}{w}")
            d = Path(cwd) / ("s1_a" if proj == "dvc" else "elsewhere/run" if proj == "dvc-dir" else "checkpoints")
            ev.append(dict(op="reset", dir="absent", prog=0, case=f"{proj}-{w}"))
            for k, act in enumerate(e["act"] for e in walk):
                cfg = None
                if proj == "dvc-dir":
                    cfg = dcfg(act["ov"], act["re"], {"s1_a": dict(save_dir=str(d), module=dict(training_stage="1_motion_estimation", learning_rate=1e-4), trainer=dict(max_steps=5))})
                one(proj, cwd, d, act["ov"], act["re"], act["end"], f"{proj}-walk{w}-{k}", cfg)
                if w % 2 and d.is_dir():
                    (d / "notes.txt").write_text("not a checkpoint")
            shutil.rmtree(cwd, ignore_errors=True)

    # several stages, each with a history of its own
    names = ["s1_a", "s2_b", "s3_c", "s10_d"]
    for t in range(ctx.pick(60, 400)):
        sel = rng.sample(names, rng.randrange(2, 5))
        cwd = os.path.join(ctx.scratch, f"stages{t}")
        root = rng.choice([".", "out"])
        stages, dirs, init_st = {}, {}, {}
        for s in sel:
            sd = os.path.join(cwd, "old", s) if rng.random() < 0.4 else None
            stages[s] = dict(save_dir=sd, module=dict(training_stage="t_" + s, **({"learning_rate": rng.choice([1e-4, 1e-5])} if rng.random() < 0.6 else {}), **({"num_pframes": 2} if rng.random() < 0.5 else {})),
                             trainer=dict(**({"max_steps": rng.randrange(3, 99)} if rng.random() < 0.6 else {}), **({"gradient_clip_val": 0.5} if rng.random() < 0.5 else {})))
            dirs[s] = Path(sd) if sd else Path(cwd) / root / s
            init_st[s] = (rng.choice(["absent", "absent", "empty", "step", "last", "last"]), 0)
            if init_st[s][0] == "last":
                init_st[s] = ("last", rng.randrange(1, 4))
            put(torch, dirs[s], *init_st[s])
        ov, re = rng.choice([(False, True), (False, True), (True, False), (False, False)])
        order = sorted(sel)
        plan = [rng.choice(["saved", "saved", "saved", "step", "early"]) for _ in order]
        c = dcfg(ov, re, stages, root)
        snap = copy.deepcopy({k: dict.__getitem__(c, k) for k in dict.keys(c)})
        R = Runs(trainers)
        R.plan = plan
        before = {s: tree(dirs[s]) for s in sel}
        dvc_log.clear()
        with within(cwd):
            _, err = attempt(dvc.main, c)
        done = []
        for k, s in enumerate(order):
            ran = k < len(R.runs)
            st, pr = look(torch, dirs[s])
            last = k == len(R.runs) - 1 or not ran
            ev.append(dict(op="reset", dir=init_st[s][0], prog=init_st[s][1], case=f"stages{t}"))
            e = err if last else ""
            tr = {**snap["trainer"], **stages[s]["trainer"]}
            if ran and last and k + 1 < len(order) and plan[k] == "saved":
                e = ""  # the error, if any, is the next stage's
            ev.append(dict(op="start", ov=ov, re=re, end=plan[k] if ran else "early", err=e, ran=ran, base=R.runs[k]["base"] if ran else 0, kept=tree(dirs[s]) == before[s], dir=st, prog=pr,
                           settings=ran and settings(R.runs[k], snap["checkpoint"]["model_checkpoint"], tr), case=f"stages{t}-{s}-{init_st[s][0]}"))
            if not ran or plan[k] != "saved":
                if ran:
                    done.append(s)
                break
            done.append(s)
        mods = dvc_log[: len(done)]
        hist = tuple("t_" + s for s in done)
        chain = [tuple(m.given.history) for m in mods] == [hist[:k] for k in range(len(mods))]
        chain = chain and all(getattr(m, "handed", m.given) is m.given for m in mods) and all(m.given.kw == {"coder_channels": 8} for m in mods)
        merged = [m.kw for m in mods] == [{**snap["module"], **stages[s]["module"]} for s in done] and snap == {k: dict.__getitem__(c, k) for k in dict.keys(c)}
        paths = [Path(cwd) / str(r["saver"][0].kwargs.get("dirpath")) for r in R.runs]
        ev.append(dict(op="stages", order=[m.kw.get("training_stage") for m in dvc_log], want=list(hist), chain=bool(chain), dirs=[p.resolve() for p in paths] == [dirs[s].resolve() for s in done],
                       merged=bool(merged), case=f"stages{t}-{err or 'ok'}"))
        shutil.rmtree(cwd, ignore_errors=True)

    fact = lambda fn, holds, case: ev.append(dict(op="fact", fn=fn, holds=bool(holds), case=case))  # noqa: E731
    refuse = lambda fn, err, want, case: ev.append(dict(op="refuse", fn=fn, err=err, want=want, case=case))  # noqa: E731

    # ---------------------------------------------------------------- what is logged of the DVC data
    for t in range(6):
        cwd = os.path.join(ctx.scratch, f"dlog{t}")
        seed, n = rng.randrange(1000), rng.choice([1, 3, 8])
        got = []
        for _ in range(2):
            R = Runs(trainers)
            expstubs.Data.made.clear()
            ngpu = t % 2
            with within(cwd):
                _, err = attempt(dvc.main, dcfg(True, False, image_seed=seed, n=n, ngpu=ngpu))
            cb = [c for c in R.runs[0]["trainer"].callbacks if hasattr(c, "batch")] if R.runs else []
            got.append(cb[0].batch if cb else None)
        fact("logged-clips-are-data", got[0] is not None and tuple(got[0].shape) == (n, 7, 3, 4, 4) and len({round(float(x.mean()) * 100) for x in got[0]}) == n, f"dvc-{n}")
        fact("logged-clips-repeat", got[0] is not None and got[1] is not None and torch.equal(got[0], got[1]), f"dvc-{n}")
        fact("pinned-only-with-gpu", expstubs.Data.made and expstubs.Data.made[-1].kw.get("pin_memory") == bool(ngpu) and expstubs.Data.made[-1].kw.get("frames_per_group") == 7, f"ngpu{ngpu}")
        shutil.rmtree(cwd, ignore_errors=True)

    # ---------------------------------------------------------------- illm: building
    def build(c):
        return attempt(illm.build_module, c)

    m, err = build(icfg())
    fact("module-without-discriminator", m is not None and type(m).__name__ == "TargetRateCompressionModule" and m.distortion_lam == 2.5 and m.gradient_clip_val == 0.7 and m.gradient_clip_algorithm == "value"
         and m.target_rate_config.target_bpp == 0.14 and isinstance(m.distortion_loss, torch.nn.MSELoss), "target")
    _, err = build(icfg(distortion_loss={"alpha": 1}))
    refuse("loss-without-target", err, "ValueError", "illm")
    for t in range(ctx.pick(12, 60)):
        sd = {}
        src = torch.nn.Module()
        src.model = expstubs.IModel()
        for p in src.model.parameters():
            torch.nn.init.normal_(p)
        want = {k: v.clone() for k, v in src.model.state_dict().items()}
        sd = {**src.state_dict(), "discriminator.c.weight": torch.ones(1), "model_extra": torch.ones(2), "xmodel.scale": torch.ones(1), "latent_projector.model.scale": torch.tensor(5.0)}
        path = os.path.join(ctx.scratch, f"pre{t}.ckpt")
        kind = rng.choice(["ok", "ok", "missing", "unknown"])
        if kind == "missing":
            sd.pop("model.scale")
        if kind == "unknown":
            sd["model.model.scale"] = torch.tensor(3.0)
        torch.save({"state_dict": sd, "optimizer_states": []}, path)
        where = rng.choice(["autoencoder", "projector"])
        if where == "autoencoder":
            m, err = build(icfg(gan=t % 2 == 0, pretrained_autoencoder=dict(path=path, torchhub=None) if t % 3 else dict(path=path)))
            got = m.model.state_dict() if m is not None else {}
        else:
            m, err = build(icfg(gan=True, latent_projector=dict(autoencoder={"_target_": ST + "IModel"}, projector={"_target_": ST + "Wrap"}), pretrained_latent_autoencoder=dict(path=path)))
            got = m.latent_projector.inner.state_dict() if m is not None else {}
        if kind == "ok":
            fact("pretrained-weights-loaded", set(got) == set(want) and all(torch.equal(got[k], want[k]) for k in want), f"{where}-{kind}")
        else:
            refuse("weights-that-do-not-fit", err, "RuntimeError", f"{where}-{kind}")
    for t in range(8):
        lp = dict(autoencoder={"_target_": ST + "Net"}, projector={"_target_": ST + "Wrap"})
        gan = t % 4 != 3
        m, err = build(icfg(gan=gan, **({"latent_projector": lp} if t % 2 == 0 else {})))
        if not gan:
            fact("module-without-discriminator", m is not None and type(m).__name__ == "TargetRateCompressionModule", f"{t}")
            continue
        fact("module-with-discriminator", m is not None and type(m).__name__ == "GANCompressionModule" and m.discriminator is not None and type(m.discriminator_loss).__name__.endswith("DiscriminatorLoss") and type(m.generator_loss).__name__.endswith("GeneratorLoss")
             and m.distortion_lam == 2.5 and m.gradient_clip_val == 0.7 and m.target_rate_config.target_bpp == 0.14, f"{t}")
        if t % 2 == 0:
            lpm = m.latent_projector
            fact("projector-frozen", lpm is not None and not any(x.training for x in lpm.modules()) and not any(p.requires_grad for p in lpm.parameters()) and len(list(lpm.parameters())) > 0, f"{t}")
            fact("others-trainable", all(p.requires_grad for p in m.discriminator.parameters()) and all(p.requires_grad for p in m.model.parameters()), f"{t}")
        else:
            fact("no-projector", m.latent_projector is None, f"{t}")
    # weights of the hub
    asked, real = [], torch.hub.load
    hub_model = expstubs.Net(3)
    torch.hub.load = lambda *a, **k: (asked.append((a, k)), hub_model)[1]
    try:
        m, err = build(icfg(gan=True, latent_projector=dict(autoencoder={"_target_": ST + "Net"}, projector={"_target_": ST + "Wrap"}), pretrained_latent_autoencoder=dict(path=None, torchhub=dict(github="org/repo", model="name_x"))))
        fact("hub-weights-used", m is not None and m.latent_projector.inner is hub_model and asked and list(asked[0][0][:2]) + [v for k, v in asked[0][1].items() if k in ("repo_or_dir", "model")] == ["org/repo", "name_x"], "projector")
        asked.clear()
        hub_model = expstubs.IModel()
        m, err = build(icfg(pretrained_autoencoder=dict(torchhub=dict(github="org/repo", model="name_y"))))
        fact("hub-weights-used", m is not None and m.model is hub_model and len(asked) == 1, "autoencoder")
    finally:
        torch.hub.load = real
    # number of steps, strategy, loggers
    for gan in (False, True):
        for mode in ("train", "test"):
            for steps in (1, 7, 1000):
                with within(os.path.join(ctx.scratch, "tr")):
                    m, _ = build(icfg(gan=gan))
                    c = icfg(gan=gan, training_mode=mode, trainer=dict(max_steps=steps, devices=2))
                    tr, err = attempt(illm.build_trainer, c, expstubs.Data(), m)
                n = len(m.configure_optimizers()[0])
                fact("steps-count-every-optimiser", tr is not None and tr.kwargs.get("max_steps") == steps * n and n == (3 if gan else 2) and tr.kwargs.get("devices") == 2 and c.trainer.max_steps == steps, f"gan{gan}-{steps}")
                s = tr.kwargs.get("strategy") if tr else None
                fact("strategy-allows-unused", (getattr(s, "kwargs", {}).get("find_unused_parameters") is True) if mode == "train" else s == "auto", mode)
    # same directory, same logger id; other directory, other id
    ids = []
    for cwd in ("a/run", "a/run", "b/run"):
        with within(os.path.join(ctx.scratch, "ids", cwd)):
            m, _ = build(icfg())
            tr, _ = attempt(illm.build_trainer, icfg(), expstubs.Data(), m)
            ids.append(tr.logger.kwargs.get("id") if tr and tr.logger else None)
    fact("logger-id-follows-directory", ids[0] is not None and ids[0] == ids[1] != ids[2], "illm")
    ids = []
    for cwd in ("a/run", "a/run", "b/run"):
        R = Runs(trainers)
        with within(os.path.join(ctx.scratch, "idsv", cwd)):
            attempt(vct.main, vcfg(True, False))
            ids.append(R.runs[0]["trainer"].logger.kwargs.get("id") if R.runs else None)
    fact("logger-id-follows-directory", ids[0] is not None and ids[0] == ids[1] != ids[2], "vct")

    # ---------------------------------------------------------------- illm: images to log
    cache = os.path.join(ctx.scratch, "cache")
    seen = {}
    for t in range(ctx.pick(30, 150)):
        tri, vai = rng.choice([[0, 1], [1, 0], [3, 2]]), rng.choice([[0, 1], [1, 0], [3, 2]])
        tgt = rng.choice(["Data", "Data", "Data2"])
        expstubs.Data2 = type("Data2", (expstubs.Data,), {})
        expstubs.Data.shift = 0.001 * t
        dm = expstubs.Data()
        c = icfg(data={"_target_": ST + tgt}, image_logs=dict(log_cache_dir=cache + "/sub/dir", train_log_indices=tri, val_log_indices=vai))
        cb, err = attempt(illm.build_wandb_image_logger, c, dm)
        key = (tgt, tuple(tri), tuple(vai))
        first = key not in seen
        seen.setdefault(key, 0.001 * t)
        s = seen[key]
        a = [round(float(x.mean() - s) * 100) for x in cb.train_batch] if cb else None
        b = [round(float(x.mean() - s - 0.5) * 100) for x in cb.eval_batch] if cb else None
        fact("logged-images-are-those-asked-for" if first else "logged-images-stay-the-same", a == tri and b == vai and all(float((x - x.mean()).abs().max()) < 1e-6 for x in cb.train_batch), "first" if first else "again")
    expstubs.Data.shift = 0.0
    # the callback
    import wandb
    from torchvision.utils import make_grid


    class Flat(torch.nn.Module):
        device, dtype, global_step = torch.device("cpu"), torch.float64, 41
        grad = None

        def forward(self, x):
            self.grad = torch.is_grad_enabled()
            self.seen_dtype = getattr(x, "dtype", None)
            y = x.video_tensor if hasattr(x, "video_tensor") else x
            out = y * 3 - 0.6
            if hasattr(x, "video_tensor"):
                return out, []
            return types.SimpleNamespace(image=out)

    class Log:
        def __init__(self):
            self.experiment, self.rows = self, []

        def log(self, row):
            self.rows.append(row)

    for t in range(6):
        a, b = torch.rand(2 + t % 3, 3, 4, 4), torch.rand(3, 3, 4, 4)
        cb = illm.WandbImageCallback(a, b)
        tr = lpl.Trainer(logger=Log())
        tr.global_step = 17 + t
        pm = Flat()
        hook, keys = (cb.on_validation_end, ("train_images", "eval_images")) if t % 2 else (cb.on_train_epoch_end, ("model.training_train_images", "model.training_eval_images"))
        _, err = attempt(hook, tr, pm)
        flat = {}
        steps = set()
        for r in tr.logger.rows:
            steps.add(r.get("global_step"))
            flat.update({k: v.data for k, v in r.items() if isinstance(v, wandb.Image)})
        want = {}
        for k, x in zip(keys, (a, b)):
            want[k + "/image"], want[k + "/image_compressed"] = make_grid(x.double()), make_grid((x.double() * 3 - 0.6).clamp(0, 1))
        fact("logs-input-and-clipped-output", set(flat) == set(want) and all(torch.allclose(flat[k].double(), want[k]) for k in want) and steps == {17 + t}, f"illm-{keys[0]}")
        fact("logging-learns-nothing", pm.grad is False, "illm")
    # VCT
    from datamodules.video_data_api import VideoDataset

    dm = expstubs.Data()
    cb, err = attempt(vct.build_image_logger, dm)
    fact("logged-images-are-those-asked-for", cb is not None and float(cb.train_batch.video_tensor.mean()) == 0.25 and float(cb.eval_batch.video_tensor.mean()) == 0.75, "vct")
    for t in range(4):
        a, b = torch.rand(2, 3 + t, 3, 4, 4), torch.rand(1, 9, 3, 4, 4)
        cb = vct.WandbImageCallback(VideoDataset(a), VideoDataset(b))
        tr = ppl.Trainer(logger=Log())
        pm = Flat()
        _, err = attempt(cb.on_validation_end, tr, pm)
        flat, steps = {}, set()
        for r in tr.logger.rows:
            steps.add(r.get("global_step"))
            flat.update({k: v.data for k, v in r.items() if isinstance(v, wandb.Image)})
        want = {}
        for k, x in zip(("train_images", "eval_images"), (a, b)):
            want[k + "/image"], want[k + "/image_compressed"] = make_grid(x[0], nrow=7), make_grid((x[0] * 3 - 0.6).clamp(0, 1), nrow=7)
        fact("logs-input-and-clipped-output", set(flat) == set(want) and all(flat[k].shape == want[k].shape and torch.allclose(flat[k], want[k]) for k in want) and steps == {41}, "vct")
    # DVC mosaics: clips from top to bottom, time from left to right
    for t in range(ctx.pick(10, 40)):
        B, n, h, w = rng.randrange(1, 4), rng.randrange(1, 4), 4, 6
        withflow = t % 2 == 0
        batch = torch.rand(B, 7, 3, h, w)

        class Mod:
            device, dtype, num_pframes, training_stage, global_step = torch.device("cpu"), torch.float32, n, "2_x", 91
            given = []

            def compress_iframe(self, x):
                x = x.clone()
                x[:, 0] *= 0.5
                return x, 0.0

            class model:
                @staticmethod
                def compute_batch_loss(im1, im2):
                    Mod.given.append((im1, im2))
                    return 0.0, Images(torch.zeros(B, 2, h, w) + 0.1 * len(Mod.given) if withflow else None, im1, im2, (im2 * 0.75 + im1) if t % 3 else None if t % 4 == 3 else im2 * 2.0)

        Mod.given = []
        noest = not (t % 3) and t % 4 == 3
        if noest and n > 1:
            continue
        tr = ppl.Trainer(logger=Log())
        _, err = attempt(dvc.WandbImageCallback(batch).on_validation_end, tr, Mod())
        flat, steps = {}, set()
        for r in tr.logger.rows:
            steps.add(r.get("global_step"))
            flat.update({k: v.data for k, v in r.items() if isinstance(v, wandb.Image)})
        ref, cur = [], batch[:, 0] * 0.5
        for i in range(n):
            nxt = batch[:, i + 1]
            est = None if noest else (nxt * 0.75 + cur) if t % 3 else nxt * 2.0
            ref.append((cur, nxt, est))
            cur = est
        ok = len(Mod.given) == n and all(torch.allclose(g[0], r[0]) and torch.allclose(g[1], r[1]) for g, r in zip(Mod.given, ref))
        fact("each-frame-from-the-last-estimate", ok, f"dvc-n{n}")
        mos = {}
        for j, key in enumerate(("image1", "image2", "image2_est")):
            if ref[0][j] is not None:
                m = torch.zeros(3, B * h, n * w)
                for b in range(B):
                    for i in range(n):
                        m[:, b * h:(b + 1) * h, i * w:(i + 1) * w] = ref[i][j][b]
                mos[f"log_images_stage_2_x/{key}"] = m.clamp(0, 1)
        got = {k: v for k, v in flat.items() if not k.endswith("/flow")}
        fact("mosaic-clips-down-time-right", set(got) == set(mos) and all(got[k].shape == mos[k].shape and torch.allclose(got[k], mos[k], atol=1e-6) for k in mos) and steps == {91}, f"B{B}-n{n}")
        fl = flat.get("log_images_stage_2_x/flow")
        fact("flow-mosaic", (fl is None) == (not withflow) and (fl is None or (tuple(fl.shape) == (3, B * h, n * w) and 0 <= float(fl.min()) and float(fl.max()) <= 1)), f"B{B}-n{n}")

    # ---------------------------------------------------------------- illm: tests of a trained model
    for t in range(ctx.pick(8, 40)):
        cwd = os.path.join(ctx.scratch, f"test{t}")
        src = torch.nn.Module()
        src.model = expstubs.IModel()
        for p in src.model.parameters():
            torch.nn.init.normal_(p)
        have = rng.choice(["last", "last", "last", "step", "absent"])
        os.makedirs(cwd + "/checkpoints")
        if have != "absent":
            torch.save({"prog": 7, "state_dict": {k: torch.zeros_like(v) for k, v in src.state_dict().items()}}, cwd + "/checkpoints/epoch=1.ckpt")
        if have == "last":
            torch.save({"prog": 9, "state_dict": {**src.state_dict(), "discriminator.c": torch.ones(1)}}, cwd + "/checkpoints/last.ckpt")
        n = rng.randrange(1, 4)
        names = rng.sample(["kodak", "clic2020_test", "div2k_val"], n)
        ngpu = rng.choice([0, 1, 1, 2])
        R = Runs(trainers)
        before = tree(cwd + "/checkpoints")
        with within(cwd):
            _, err = attempt(illm.main, icfg(gan=t % 2 == 0, training_mode="test", ngpu=ngpu, test_dataloaders={f"ds{i}": dict(name=x, class_params={"_target_": ST + "Loader", "tag": "data-" + x}) for i, x in enumerate(names)}))
        case = f"{have}-ngpu{ngpu}"
        fact("test-keeps-checkpoints", tree(cwd + "/checkpoints") == before and not R.runs, case)
        if have == "last" and ngpu <= 1:
            fact("tests-every-data-set", err == "" and [x["name"] for x in R.tests] == names and [[y.tag for y in x["data"]] for x in R.tests] == [["data-" + x] for x in names], case)
            fact("tests-the-last-weights", all(torch.equal(x["state"][k], v) for x in R.tests for k, v in src.state_dict().items()) and not any(x["training"] for x in R.tests), case)
        else:
            fact("no-test-of-an-untrained-model", err != "" and not R.tests, case)
            if have == "last":
                refuse("test-on-many-gpus", err, "ValueError", case)
        shutil.rmtree(cwd, ignore_errors=True)

    # ---------------------------------------------------------------- VCT: test after training, loading for use
    real = torch.distributed.destroy_process_group
    torch.distributed.destroy_process_group = lambda *a, **k: None
    try:
        for t in range(4):
            cwd = os.path.join(ctx.scratch, f"vt{t}")
            R = Runs(trainers)
            expstubs.Data.made.clear()
            with within(cwd):
                c = vcfg(True, False, ngpu=t % 2, **({"test_datamodule": {"_target_": ST + "Data", "which": "uvg"}} if t < 2 else {}))
                _, err = attempt(vct.main, c)
            fact("model-as-configured", err == "" and R.runs and R.runs[0]["module"].model.lin.in_features == 3 and R.runs[0]["module"].cfg is c and R.runs[0]["data"].kw.get("root") == "x" and R.runs[0]["data"].kw.get("pin_memory") == bool(t % 2), f"vct{t}")
            fact("tests-if-asked", len(R.tests) == (1 if t < 2 else 0) and all(not x["training"] and x["module"] is R.runs[0]["module"] and x["data"].kw.get("which") == "uvg" and x["trainer"].kwargs.get("devices") == 1 for x in R.tests), f"vct{t}")
            shutil.rmtree(cwd, ignore_errors=True)
    finally:
        torch.distributed.destroy_process_group = real
    ck = load(P + "torch_vct/utils/checkpoint_loaders.py", "c27_loaders")
    import yaml

    for t in range(ctx.pick(40, 200)):
        d = os.path.join(ctx.scratch, f"ld{t}")
        os.makedirs(d)
        kind = rng.choice(["bottleneck", "entropy", "none"])
        src = torch.nn.Module()
        src.model = expstubs.Net(3, kind)
        for p in src.model.parameters():
            torch.nn.init.normal_(p)
        src.model.norm.running_mean.fill_(0.3 + t)
        sd = {**src.state_dict(), "metric.total": torch.ones(1), "mode": torch.ones(1)}
        want = {k: v.clone() for k, v in src.model.state_dict().items()}
        fault = rng.choice(["", "", "", "", "missing", "unknown", "noconfig", "nockpt"])
        if fault == "missing":
            sd.pop("model.lin.bias")
        if fault == "unknown":
            sd["model.more"] = torch.ones(1)
        bare, copyit = rng.random() < 0.5, rng.random() < 0.5
        if fault != "nockpt":
            torch.save(sd if bare else {"state_dict": sd, "epoch": 3}, d + "/last.ckpt")
        if fault != "noconfig":
            with open(d + "/c.yaml", "w") as f:
                yaml.safe_dump({"model": {"value": {"_target_": ST + "Net", "width": 3, "kind": kind}}, "seed": {"value": 1}}, f)
        with contextlib.redirect_stderr(io.StringIO()):
            m, err = attempt(ck.load_model_checkpoint_from_config, d, "last.ckpt", d + "/c.yaml", "cpu", copyit)
        case = f"{kind}-{'bare' if bare else 'wrapped'}{'-copy' if copyit else ''}"
        if fault in ("missing", "unknown"):
            refuse("weights-that-do-not-fit", err, "RuntimeError", "vct-" + fault)
        elif fault:
            refuse("missing-file", err, "FileNotFoundError", "vct-" + fault)
        else:
            got = m.state_dict() if m is not None else {}
            fact("pretrained-weights-loaded", set(got) == set(want) and all(torch.equal(got[k], want[k]) for k in want), "vct-" + case)
            fact("loaded-for-use", m is not None and not any(x.training for x in m.modules()), "vct-" + case)
            u = getattr(m, "bottleneck", None) or getattr(m, "entropy_model", None) if m is not None else None
            fact("ready-to-code-with-these-weights", kind == "none" or (u is not None and u.updated > 0 and u.seen == float(u.w)), "vct-" + case)
            extra = [f for f in os.listdir(d) if f not in ("last.ckpt", "c.yaml")]
            good = len(extra) == int(copyit)
            if copyit and good:
                m2, err2 = attempt(ck.load_model_checkpoint_from_config, d, extra[0], d + "/c.yaml")
                good = m2 is not None and all(torch.equal(m2.state_dict()[k], want[k]) for k in want)
            fact("copy-only-if-asked", good, "vct-" + case)
        shutil.rmtree(d, ignore_errors=True)

    ctx.validate("ExpTrace", ev)
