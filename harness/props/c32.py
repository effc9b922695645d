"""C32 bits-back scripts: compression resumes wherever it died; checkpoints, time steps and reports are what they are named."""
import glob
import importlib.util
import multiprocessing as mp
import os
import random
import re
import shutil
import sys
import tempfile

from .. import core
from . import c31


class Died(BaseException):
    pass


def _mods():
    c31.load()
    import bits_back_diffusion.codec as codec
    import bits_back_diffusion.script_util as su

    return codec, su


def _script(name):
    p = os.path.join(core.REPO, "projects", "bits_back_diffusion", name)
    spec = importlib.util.spec_from_file_location("bb_" + re.sub(r"\W", "_", name), p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


class _World:
    """a scratch directory as the run's directory, and a fresh logger; `ws` processes, of which this is number `rank`"""

    def __init__(self, ws=1, rank=0):
        self.ws, self.rank = ws, rank

    def __enter__(self):
        import numpy as np
        import torch.distributed as dist
        import wandb
        from hydra import utils as hu
        from improved_diffusion import dist_util, logger

        self.tmp, self.cwd = tempfile.mkdtemp(prefix="verif_c32_"), os.getcwd()
        self.run = os.path.join(self.tmp, "run")
        os.makedirs(self.run)
        os.chdir(self.run)
        dist_util.setup_dist()
        self.dist, self.real, self.hu, self.logger = dist, (dist.get_world_size, dist.get_rank), hu, logger
        dist.get_world_size, dist.get_rank = (lambda *a: self.ws), (lambda *a: self.rank)
        hu.original_cwd = self.tmp
        self.err = np.geterr()
        self.np = np
        del wandb.logged[:], wandb.runs[:]
        self.fresh()
        return self

    def fresh(self):
        self.logger.state.update(dir=None, current=None, kvs={}, dumped=[], lines=[])
        self.np.seterr(**self.err)

    def __exit__(self, *a):
        self.dist.get_world_size, self.dist.get_rank = self.real
        self.hu.original_cwd = None
        self.np.seterr(**self.err)
        os.chdir(self.cwd)
        shutil.rmtree(self.tmp, ignore_errors=True)


def _config(w, B, interval, samples, track=False, check=True, seed=0, total=40, data_min=-1.0, steps=(20, "vlb5")):
    import numpy as np
    import torch
    from improved_diffusion.script_util import create_model
    from omegaconf import DictConfig, ListConfig

    data = np.random.default_rng(seed).integers(0, 256, (total, 3, 2, 2)).astype("uint8")
    os.makedirs(os.path.join(w.tmp, "pics"), exist_ok=True)
    np.save(os.path.join(w.tmp, "pics", "data.npy"), data)
    net = create_model()
    with torch.no_grad():
        for p, v in zip(net.parameters(), (0.6, 0.1)):
            p.fill_(v)
    torch.save(net.state_dict(), os.path.join(w.tmp, "weights.pt"))
    pics = dict(_target_="improved_diffusion.image_datasets.load_data", data_dir="pics", batch_size=B, image_size=2, class_cond=False)
    cfg = dict(data=dict(val=dict(pics, deterministic=True), train=dict(pics, deterministic=False)), model=dict(_target_="improved_diffusion.script_util.create_model", image_size=2),
               diffusion=dict(_target_="bits_back_diffusion.script_util.create_gaussian_diffusion", steps=steps[0], timestep_respacing=steps[1]),
               evaluator=dict(clip_denoised=True, num_samples=samples, model_path="weights.pt"), check=check, save_interval=interval, decode_checkpoint=None, encode_checkpoint=None,
               codec=dict(_target_="bits_back_diffusion.codec.BitsBackCodec", model=dict(_target_="bits_back_diffusion.codec.DiffusionModel", use_log_variance=False),
                          data_shape=ListConfig([B, 3, 2, 2]), latent_prec=14, prior_prec=6, obs_prec=18, data_prec=8, data_min=data_min, data_max=1.0, clip_stdd=1e-6, track=track))
    return DictConfig(cfg), data


def _start(w, main, codec_mod, cfg, at, B, tamper=None):
    """one start of the script that dies before step `at`; -> (fired, raised)"""
    import copy

    import numpy as np
    from improved_diffusion import image_datasets

    fired, work = [], {"encode": 0, "decode": 0}

    def die(op, k):
        if at and not fired and at["op"] == op and at["k"] == k:
            fired.append(1)
            raise Died()
    image_datasets.hook[0] = lambda n: die("encode", n)
    saves = {"savez": np.savez, "savez_compressed": np.savez_compressed}
    dec, encode = codec_mod.BitsBackCodec.decode, codec_mod.BitsBackCodec.encode

    def counted(self, x):
        work["encode"] += 1
        return encode(self, x)

    def saver(real):
        def f(path, *a, **k):
            m = re.match(r"(encode-ckpt|decode-ckpt|batch)(-?\d+)", os.path.basename(str(path)))
            if m:
                v = abs(int(m[2]))
                die({"encode-ckpt": "save", "decode-ckpt": "mark", "batch": "write"}[m[1]], v if m[1] == "batch" else v // B)
            return real(path, *a, **k)
        return f

    def decode(self):
        die("decode", int(self.data_count) - 1)
        work["decode"] += 1
        m, x = dec(self)
        if tamper is not None and int(self.data_count) == tamper:
            x = np.array(x)
            x.flat[-1] ^= 1
        return m, x
    np.savez, np.savez_compressed = saver(saves["savez"]), saver(saves["savez_compressed"])
    codec_mod.BitsBackCodec.decode, codec_mod.BitsBackCodec.encode = decode, counted
    w.work = work
    w.fresh()
    try:
        main(copy.deepcopy(cfg))
        return bool(fired), False, ""
    except Died:
        return True, True, ""
    except Exception as e:  # noqa: BLE001
        return bool(fired), True, repr(e)[:200]
    finally:
        np.savez, np.savez_compressed = saves["savez"], saves["savez_compressed"]
        codec_mod.BitsBackCodec.decode, codec_mod.BitsBackCodec.encode = dec, encode
        image_datasets.hook[0] = None


def _found(w, B, data, rank=0):
    import numpy as np

    d = os.path.join(w.run, f"logging_rank{rank:03d}")

    def names(pre):
        return {int(os.path.basename(p)[len(pre):-4]): p for p in glob.glob(os.path.join(d, pre + "*.npz"))}
    enc, dec, files = names("encode-ckpt"), names("decode-ckpt"), names("batch")
    right = all(np.array_equal(np.load(p)["batch"], data[k * B:(k + 1) * B]) for k, p in files.items())
    msgs, good = {}, True
    for v, p in enc.items():
        z = np.load(p)
        msgs[v // B] = z["flat_message"]
        good &= v % B == 0 and int(z["data_count"]) * B == v
    for v, p in dec.items():
        z = np.load(p)
        r = abs(v) // B
        good &= v <= 0 and int(z["data_count"]) == r and (r not in msgs or np.array_equal(msgs[r], z["flat_message"]))
    return sorted(v // B for v in enc), sorted(abs(v) // B for v in dec), sorted(files), right, bool(good)


def _walk(job):
    codec, su = _mods()
    import numpy as np

    main = _script("encode.py").main
    N, B, interval = job["cfg"]
    rng = random.Random(job["seed"])
    ws = rng.choice([1, 1, 2])
    rank = rng.randrange(ws)
    np.random.seed(job["seed"] % (1 << 31))
    ev = [dict(op="begin", case=job["case"], cfg=job["cfg"])]
    with _World(ws, rank) as w:
        cfg, data = _config(w, B, interval, rng.randint((N - 1) * B * ws + 1, N * B * ws), track=rng.random() < 0.5, seed=job["seed"])
        for i, act in enumerate(job["walk"]):
            at = act["at"] if act["at"]["op"] != "none" else None
            died, raised, err = _start(w, main, codec, cfg, at, B)
            enc, dec, files, right, good = _found(w, B, data, rank)
            ev.append(dict(op="run", case=f"{job['case']}-{i}-{act['at']['op']}{act['at']['k']}", died=died, raised=raised, err=err, n=act["n"], enc=enc, dec=dec, files=files, right=right,
                           digests=good, encodes=w.work["encode"], decodes=w.work["decode"]))
            if raised and not died:
                break
    return ev


def _log(job):
    codec, su = _mods()
    import numpy as np

    main = _script("encode.py").main
    N, B, track = job["N"], job["B"], job["track"]
    with _World() as w:
        cfg, data = _config(w, B, job["I"], N * B, track=track, check=False, seed=job["seed"])
        rates = []
        stat = codec.BitsBackCodec.statistics

        def statistics(self):
            s = stat(self)
            rates.append(s)
            return s
        codec.BitsBackCodec.statistics = statistics
        try:
            died, raised, err = _start(w, main, codec, cfg, {"op": "encode", "k": job["cut"]} if job["cut"] else None, B)
            if died:
                del rates[:]
                died, raised, err = _start(w, main, codec, cfg, None, B)
        finally:
            codec.BitsBackCodec.statistics = stat
        enc, dec, files, right, good = _found(w, B, data)
        rows = [dict(r) for r in w.logger.state["dumped"]]
        d = os.path.join(w.run, "logging_rank000")
        ratefiles = [p for p in ("rates-push.npz", "rates-pop.npz") if os.path.exists(os.path.join(d, p))]
        ok = track and len(ratefiles) == 2
        if ok:
            by = {int(s.samples): s for s in rates}
            mine = [by[int(r["samples"])] for r in rows if int(r["samples"]) in by]
            for p, key in (("rates-push.npz", "rate_effective_push"), ("rates-pop.npz", "rate_effective_pop")):
                z, a = np.load(os.path.join(d, p)), np.stack([getattr(s, key) for s in mine])
                ok = ok and all(z[k].shape == a.shape[1:] and np.allclose(z[k], f(axis=0)) for k, f in (("mean", a.mean), ("stdd", a.std), ("min", a.min), ("max", a.max)))
        first = N - len(rows)
        start = max([0] + [k for k in range(1, job["cut"]) if k * B % job["I"] < B]) if job["cut"] else 0
        return [dict(op="log", case=job["case"], rows=len(rows), want=N - start, samples=[int(r.get("samples", -1)) for r in rows], wantsamples=[B * k for k in range(start + 1, N + 1)], track=track,
                     rates=bool(ok), ratefiles=bool(ratefiles), raised=raised, first=first),
                dict(op="nocheck", case=job["case"], ok=not raised, files=files, enc=enc, want=[k for k in range(1, N + 1) if k == N or k * B % job["I"] < B])]


def _tamper(job):
    codec, su = _mods()
    with _World() as w:
        cfg, data = _config(w, job["B"], 100, job["N"] * job["B"], seed=job["seed"])
        died, raised, err = _start(w, _script("encode.py").main, codec, cfg, None, job["B"], tamper=job["k"])
        return [dict(op="tamper", case=f"tamper-{job['k']}of{job['N']}", raised=raised, err=err)]


def _space(job):
    codec, su = _mods()
    out = []
    for kind, n, arg in job["items"]:
        spec = f"{kind}{arg}" if kind != "sections" else arg
        ok, v, err = core.guarded(su.space_timesteps, n, ",".join(map(str, arg)) if kind == "sections" and job["text"] else spec)
        out.append(dict(op="space", case=f"{kind}-{n}-{arg}", kind=kind, n=n, want=arg if kind != "sections" else 0, counts=arg if kind == "sections" else [],
                        steps=sorted(int(x) for x in v) if ok else [], err=err))
    return out


def _diffusion(job):
    codec, su = _mods()
    import numpy as np
    from improved_diffusion import gaussian_diffusion as gd

    rng = random.Random(job["seed"])
    b = {k: rng.random() < 0.5 for k in ("kl", "rls", "xstart", "learn", "small", "rescale")}
    n, sched = rng.choice([8, 20, 50]), rng.choice(["linear", "cosine"])
    spec = rng.choice(["", "vlb8" if n > 8 else "vlb4", [n // 2], None])
    ok, d, err = core.guarded(su.create_gaussian_diffusion, steps=n, learn_sigma=b["learn"], sigma_small=b["small"], noise_schedule=sched, use_kl=b["kl"], predict_xstart=b["xstart"],
                              rescale_timesteps=b["rescale"], rescale_learned_sigmas=b["rls"], timestep_respacing=spec)
    e = dict(op="diffusion", case=f"{n}-{sched}-{spec}", ok=ok, err=err)
    if ok:
        g = d.given
        e.update(**{k: b[k] for k in ("kl", "rls", "xstart", "learn", "small")}, loss=g["loss_type"].name, mean=g["model_mean_type"].name, var=g["model_var_type"].name, rescale=bool(g["rescale_timesteps"]),
                 wantrescale=b["rescale"], betas=bool(np.allclose(g["betas"], gd.get_named_beta_schedule(sched, n))),
                 kept=set(d.use_timesteps) == (set(range(n)) if not spec else su.space_timesteps(n, spec)))
    return [e]


def _pick(job):
    codec, su = _mods()
    from omegaconf import DictConfig, OmegaConf

    rng = random.Random(job["seed"])
    with _World() as w:
        w.logger.configure(dir="logging")
        home = os.path.join(w.run, "logging")
        other = os.path.join(w.tmp, "elsewhere")
        os.makedirs(other)
        how = rng.choice(["none", "dir", "file", "absent"])
        where = other if how in ("dir", "absent") else home
        prefix, suffix = rng.choice([("model", "pt"), ("ema", "pt"), ("encode-ckpt", "npz"), ("decode-ckpt", "npz")])
        names, paths = [], []
        for _ in range(rng.randint(0, 7)):
            p, s = rng.choice([("model", "pt"), ("ema", "pt"), ("encode-ckpt", "npz"), ("decode-ckpt", "npz"), (prefix, suffix), (prefix, suffix)])
            step = rng.choice([0, 5, 30, 200, 1000, 99999, 100000, 25])
            if p == "decode-ckpt":
                step = -(step % 100000)
            f = os.path.join(where, (f"ema_0.9999_{step:06d}" if p == "ema" else f"{p}{step:06d}") + f".{s}")
            if f not in paths:
                paths.append(f)
                names.append([p, step, s])
            if rng.random() < 0.4:                        # other files that only look like one
                g = os.path.join(where, rng.choice([f"best-{prefix}{step + 7:06d}.{suffix}", f"{prefix}{step + 7:06d}.{'npz' if suffix == 'pt' else 'pt'}"]))
                if g not in paths:
                    paths.append(g)
                    names.append(["", step + 7, ""])
        for i, f in enumerate(paths):
            open(f, "w").close()
            os.utime(f, (1000 + 17 * rng.randint(0, 50), 1000 + rng.randint(0, 50)))
        if where != home and rng.random() < 0.7:          # what lies in the own directory does not matter when another is given
            open(os.path.join(home, f"{prefix}999999.{suffix}"), "w").close()
        given, file = None, 0
        if how in ("dir", "absent"):
            given = "elsewhere" if rng.random() < 0.5 else other
        elif how == "file":
            if not paths:
                how = "none"
            else:
                file = 1 + rng.randrange(len(paths))
                given = paths[file - 1]
        key = rng.choice(["ckpt", "trainer.resume"])
        cfg = DictConfig({"ckpt": given, "trainer": {"resume": given}})
        ok, _, err = core.guarded(su.update_checkpoint, cfg, key, prefix=prefix, suffix=suffix)
        got = OmegaConf.select(cfg, key)
        chosen = 0 if got == given and how != "file" else (paths.index(str(got)) + 1 if str(got) in paths else -1)
        return [dict(op="pick", case=f"{how}-{prefix}-{len(paths)}", ok=ok, err=err, how=how, names=names, prefix=prefix, suffix=suffix, file=file, chosen=chosen)]


def _setup(job):
    codec, su = _mods()
    import torch
    from improved_diffusion.script_util import create_model

    rng = random.Random(job["seed"])
    train, ranks = rng.random() < 0.4, rng.random() < 0.5
    ws = rng.choice([1, 1, 2])
    rank = rng.randrange(ws)
    with _World(ws, rank) as w:
        cfg, data = _config(w, 2, 100, 7, seed=job["seed"])
        want = -1 if train else 600
        if not train and rng.random() < 0.6:             # a directory of averages: the furthest
            os.makedirs(os.path.join(w.tmp, "ck"))
            best = 0
            for k in rng.sample([10, 200, 3000, 999], 3):
                net = create_model()
                with torch.no_grad():
                    for p in net.parameters():
                        p.fill_(k / 1000)
                torch.save(net.state_dict(), os.path.join(w.tmp, "ck", f"ema_0.9999_{k:06d}.pt"))
                torch.save({}, os.path.join(w.tmp, "ck", f"model{k + 1:06d}.pt"))
                best = max(best, k)
            cfg.evaluator["model_path"] = "ck"
            want = best
        cfg["trainer"] = {"resume_checkpoint": None}
        if train:
            cfg.data.train["batch_size"] = 3
        ok, v, err = core.guarded(su.setup, cfg, train=train, log_ranks=ranks)
        e = dict(op="setup", case=f"train{train}-ranks{ranks}-rank{rank}of{ws}", ok=ok, err=err)
        if ok:
            model, diff, loader = v
            batch = next(loader)[0]
            e.update(weights=int(round(1000 * float(model.w.mean()))) if not train else -1, wantweights=want, training=bool(model.training and model.drop.training), train=train,
                     data=len(batch), wantdata=3 if train else 2, dir=os.path.basename(str(w.logger.get_dir())), wantdir="logging" + (f"_rank{rank:03d}" if ranks else ""),
                     writers=sum(isinstance(f, su.WandbOutputFormat) for f in w.logger.get_current().output_formats), wantwriters=int(ranks or rank == 0),
                     steps=int(diff.num_timesteps), wantsteps=5)
        return [e]


def _train(job):
    codec, su = _mods()
    import torch
    from improved_diffusion.script_util import create_model
    from omegaconf import DictConfig

    rng = random.Random(job["seed"])
    with _World() as w:
        cfg, data = _config(w, 2, 100, 7, seed=job["seed"])
        kept, ema, where = rng.choice([[], [40], [40, 300], [5, 300, 20]]), rng.choice([["0.9"], ["0.9", "0.5"]]), rng.choice(["own", "given"])
        if not kept:
            where = "own"
        d = os.path.join(w.run, "logging") if where == "own" else os.path.join(w.tmp, "prev")
        os.makedirs(d)

        def put(name, v):
            net = create_model()
            with torch.no_grad():
                for p in net.parameters():
                    p.fill_(v / 1000)
            torch.save(net.state_dict(), os.path.join(d, name))
        avg = {}
        for k in kept:
            put(f"model{k:06d}.pt", k)
            for r in ema:
                if rng.random() < 0.6:
                    avg[k, r] = k + 1
                    put(f"ema_{float(r)}_{k:06d}.pt", k + 1)
        cfg["trainer"] = DictConfig(dict(_target_="bb_trainer.make", resume_checkpoint=None if where == "own" else "prev", ema_rate=",".join(ema),
                                         schedule_sampler=dict(_target_="improved_diffusion.resample.create_named_schedule_sampler", name="s")))
        made = []
        import types

        t = types.ModuleType("bb_trainer")

        def make(**k):
            made.append(su.TrainLoop(**k))
            return made[-1]
        t.make = make
        sys.modules["bb_trainer"] = t
        ok, _, err = core.guarded(_script("train.py").main, cfg)
        e = dict(op="train", case=f"{where}-{kept}-{ema}", ok=ok and len(made) == 1, err=err)
        if e["ok"]:
            m = made[0]
            step = max(kept) if kept else 0
            val = lambda ps: int(round(1000 * float(list(ps)[0].mean())))  # noqa: E731
            e.update(weights=val(m.model.parameters()), wantweights=step, step=int(m.resume_step), wantstep=step, ema=[val(p) for p in m.ema_params],
                     wantema=[avg.get((step, r), step) for r in ema], own=all(a.data_ptr() != b.data_ptr() for ps in m.ema_params for a, b in zip(ps, m.model.parameters())),
                     ran=m.ran, wired=bool(m.settings.get("schedule_sampler") == ("s", m.diffusion) and next(m.data)[0].shape[0] == 2 and m.diffusion.num_timesteps == 5),
                     training=bool(m.model.training))
        return [e]


def _small(job):
    codec, su = _mods()
    out = []
    for x in (0, 1, 4, 6, 7, 128):
        for ws in (1, 2, 3, 4):
            with _World(ws):
                ok, v, err = core.guarded(su.divide_by_n_proc, x)
            out.append(dict(op="divide", case=f"{x}by{ws}", x=x, w=ws, out=v if ok else -1, err=err))
    for name, want in (("model000040.pt", 40), ("a/b/ema_0.9999_123456.pt", 123456), ("encode-ckpt000250.npz", 250), ("decode-ckpt-00250.npz", -250), ("x/decode-ckpt000000.npz", 0), ("model999999.pt", 999999)):
        ok, v, err = core.guarded(su.parse_resume_step_from_filename, name)
        out.append(dict(op="parse", case=name, out=v if ok else -10**6, want=want))
    return out


def _vlb(job):
    codec, su = _mods()
    import numpy as np
    import torch
    import wandb

    rng = random.Random(job["seed"])
    ws, B = rng.choice([1, 2]), rng.choice([1, 2, 3])
    with _World(ws) as w:
        n = rng.randint(1, 9)
        cfg, data = _config(w, B, 100, n, seed=job["seed"])
        clip = rng.random() < 0.5
        cfg.evaluator["clip_denoised"] = clip
        dist, real = w.dist, (w.dist.all_gather, w.dist.all_reduce)

        def all_gather(outs, t, *a, **k):           # the other process has seen terms larger by one
            for i, o in enumerate(outs):
                o.copy_(t + i)

        def all_reduce(t, *a, **k):
            t.copy_(sum(t + i * 0.25 for i in range(ws)))
        dist.all_gather, dist.all_reduce = all_gather, all_reduce
        try:
            ok, _, err = core.guarded(_script("compute_vlb.py").main, cfg)
        finally:
            dist.all_gather, dist.all_reduce = real
        e = dict(op="vlb", case=f"n{n}-B{B}-ws{ws}-clip{clip}", ok=ok, err=err)
        if not ok:
            return [e]
        nb = -(-n // (B * ws))
        x = torch.from_numpy(data[:nb * B].astype("float32") / 127.5 - 1)
        diff = su.create_gaussian_diffusion(steps=20, timestep_respacing="vlb5")
        from improved_diffusion.script_util import create_model

        net = create_model()
        net.load_state_dict(torch.load(os.path.join(w.tmp, "weights.pt")))
        net.eval()
        means, rows = [], {"vb": [], "mse": [], "xstart_mse": []}
        for i in range(nb):
            m = diff.calc_bpd_loop(net, x[i * B:(i + 1) * B], clip_denoised=clip)
            mean = m["total_bpd"].mean() / ws
            means.append(float(sum(mean + j * 0.25 for j in range(ws))))
            for k in rows:
                t = m[k] if k != "vb" else torch.cat([m["prior_bpd"][:, None], m["vb"]], 1)
                rows[k] += [(t + j).numpy()[:, ::-1] for j in range(ws)]
        good = True
        for k in rows:
            p = os.path.join(w.run, "logging", f"{k}-terms.npz")
            a = np.concatenate(rows[k])
            z = np.load(p) if os.path.exists(p) else {}
            good = good and all(s in z and z[s].shape == a.shape[1:] and np.allclose(z[s], f(axis=0), atol=1e-5) for s, f in (("mean", a.mean), ("stdd", a.std), ("min", a.min), ("max", a.max)))
        row = w.logger.state["dumped"][-1]
        e.update(samples=int(row["samples"]), wantsamples=nb * B * ws, bpd=int(round(1e5 * float(row["total_bpd"]))), wantbpd=int(round(1e5 * float(np.mean(means)))), terms=bool(good), clip=True,
                 plots=bool(wandb.logged) and set(wandb.logged[-1]) == {"vb", "mse", "xstart_mse"})
        return [e]


def _writer(job):
    codec, su = _mods()
    with _World() as w:
        ok, a, err = core.guarded(su.WandbOutputFormat, "logs")
        e = dict(op="writer", case="writer", ok=ok, err=err)
        if ok:
            run = a.run
            a.writekvs({"rate_total": 1.5, "samples": 3})
            b, c = su.WandbOutputFormat("logs"), su.WandbOutputFormat("logs2")
            os.makedirs(os.path.join(w.tmp, "run2"))
            os.chdir(os.path.join(w.tmp, "run2"))
            d = su.WandbOutputFormat("logs")              # the same name in another directory
            a.close()
            core.guarded(a.close)
            e.update(keys=sorted(run.rows[0]), wantkeys=["rate/total", "samples"], sameid=run.settings["id"] == b.run.settings["id"] and run.settings.get("resume") == "allow",
                     otherid=len({run.settings["id"], c.run.settings["id"], d.run.settings["id"]}) == 3, closed=run.finished, after=core.guarded(a.writekvs, {"x": 1})[2])
        return [e]


def _plot(job):
    codec, su = _mods()
    import numpy as np

    out, r = [], np.random.default_rng(job["seed"])
    for shape in ((5,), (4, 6), (1, 3), (7, 1)):
        d = r.normal(size=shape)
        ok, f, err = core.guarded(su.plot_evolution, d, xaxis_title="t")
        e = dict(op="plot", case=str(shape), ok=ok, err=err)
        if ok:
            mean = d if d.ndim == 1 else d.mean(0)
            n = len(mean)
            tr = {t.name: t for t in f.data}
            good = np.allclose(tr["mean"].y, mean) and list(tr["mean"].x) == list(range(n)) and f.layout.get("xaxis_title") == "t"
            if d.ndim > 1:
                for name, up, dn in (("stdd", mean + d.std(0), mean - d.std(0)), ("range", d.max(0), d.min(0))):
                    y, x = np.asarray(tr[name].y), np.asarray(tr[name].x)
                    good = good and len(y) == 2 * n and np.allclose(y[:n], up) and np.allclose(y[n:][::-1], dn) and list(x[:n]) == list(range(n)) and list(x[n:]) == list(range(n))[::-1]
            else:
                good = good and set(tr) == {"mean"}
            e["right"] = bool(good)
        out.append(e)
    return out


def _cifar(job):
    c31.load()
    import numpy as np
    import torchvision
    from PIL import Image

    rng = random.Random(job["seed"])
    tmp = tempfile.mkdtemp(prefix="verif_c32_")
    m = _script("datasets/cifar10.py")
    if not (isinstance(getattr(m, "SIZE", None), dict) and hasattr(m, "CLASSES")):
        return []
    m.SIZE = {"train": 7, "valid": 4}
    pics = {s: [(Image.fromarray(np.random.default_rng(i + 50 * (s == "train")).integers(0, 256, (32, 32, 3)).astype("uint8")), rng.randrange(10)) for i in range(k)] for s, k in m.SIZE.items()}
    real, argv = torchvision.datasets.CIFAR10, sys.argv
    torchvision.datasets.CIFAR10 = lambda root, train, download: pics["train" if train else "valid"]
    over = rng.random() < 0.5
    try:
        os.makedirs(os.path.join(tmp, "out", "train_32x32"))
        open(os.path.join(tmp, "out", "train_32x32", "mine.txt"), "w").close()
        sys.argv = ["cifar10.py", "-o", os.path.join(tmp, "out")] + (["-w"] if over else [])
        import contextlib
        import logging

        logging.disable(logging.CRITICAL)
        with open(os.devnull, "w") as null, contextlib.redirect_stderr(null):
            ok, _, err = core.guarded(m.main)
        logging.disable(logging.NOTSET)
        classes = "plane car bird cat deer dog frog horse ship truck".split()
        got = {s: sorted(os.path.basename(p) for p in glob.glob(os.path.join(tmp, "out", f"{s}_32x32", "*.png"))) for s in pics}
        want = {s: sorted(f"{classes[c]}_{i:05d}.png" for i, (_, c) in enumerate(pics[s])) for s in pics}
        if not over:
            want["train"] = []
        px = ok and got == want and all(np.array_equal(np.asarray(Image.open(os.path.join(tmp, "out", f"{s}_32x32", f))), np.asarray(pics[s][int(f[-9:-4])][0])) for s in got for f in got[s])
        return [dict(op="cifar", case=f"overwrite{over}", ok=ok, err=err, names=got["valid"] + got["train"], want=want["valid"] + want["train"], pixels=bool(px),
                     kept=os.path.exists(os.path.join(tmp, "out", "train_32x32", "mine.txt")))]
    finally:
        torchvision.datasets.CIFAR10, sys.argv = real, argv
        shutil.rmtree(tmp, ignore_errors=True)


def _run(job):
    return {"walk": _walk, "log": _log, "tamper": _tamper, "space": _space, "diffusion": _diffusion, "pick": _pick, "setup": _setup, "train": _train, "small": _small, "vlb": _vlb,
            "writer": _writer, "plot": _plot, "cifar": _cifar}[job["op"]](job)


def run(ctx):
    rng = ctx.rng
    s = lambda: rng.randrange(1 << 30)  # noqa: E731
    edges = ctx.graph("CodecRun")
    jobs = []
    for c in sorted({tuple(e["src"]["cfg"]) for e in edges}):
        mine = [e for e in edges if tuple(e["src"]["cfg"]) == c]
        for rep in range(ctx.pick(1, 6)):
            for i, w in enumerate(core.covering_walks(mine, dict(cfg=list(c), enc=[], dec=[], files=[]), rng=rng)):
                # a walk is long: cut where the directory is complete and nothing new can happen
                for j in range(0, len(w), 400):
                    jobs.append(dict(op="walk", seed=s(), cfg=list(c), walk=[e["act"] for e in w[j:j + 400]], case=f"c{'-'.join(map(str, c))}w{i}"))
                    ctx.replayed += len(w[j:j + 400])
    for k in range(ctx.pick(10, 60)):
        N = rng.randint(1, 4)
        jobs.append(dict(op="log", seed=s(), N=N, B=rng.choice([1, 2]), I=rng.choice([2, 3, 4, 100]), track=k % 2 == 0, cut=rng.choice([0, N, rng.randint(1, N)]), case=f"log{k}"))
    for N in (1, 2, 3):
        for k in range(N):
            jobs.append(dict(op="tamper", seed=s(), N=N, B=2, k=k))
    top = ctx.pick(34, 70)
    items = [(kind, n, a) for n in range(2, top) for a in range(1, n + 2) for kind in ("vlb", "ddim")]
    items += [(kind, n, a) for n, a in ((4000, 100), (4000, 250), (1000, 40), (300, 299), (4000, 63), (4000, 64), (999, 32)) for kind in ("vlb", "ddim")]
    secs = [("sections", n, [rng.randint(1, max(1, n // m)) for _ in range(m)]) for _ in range(ctx.pick(150, 1000)) for n in [rng.randint(4, 60)] for m in [rng.randint(1, 4)]]
    secs += [("sections", 300, [10, 15, 20]), ("sections", 10, [4, 4]), ("sections", 10, [6, 4]), ("sections", 11, [6, 5]), ("sections", 11, [5, 6]), ("sections", 7, [1, 1])]
    jobs += [dict(op="space", items=items[i:i + 150], text=True) for i in range(0, len(items), 150)]
    jobs += [dict(op="space", items=secs[::2], text=True), dict(op="space", items=secs[1::2], text=False)]
    for op, n in (("diffusion", ctx.pick(30, 200)), ("pick", ctx.pick(120, 900)), ("setup", ctx.pick(24, 120)), ("train", ctx.pick(24, 120)), ("vlb", ctx.pick(16, 100)), ("small", 1), ("writer", 1), ("plot", 1), ("cifar", 4)):
        jobs += [dict(op=op, seed=s()) for _ in range(n)]
    with mp.get_context("fork").Pool(8) as pool:
        ev = [e for r in pool.map(_run, jobs, chunksize=1) for e in r]
    ctx.validate("CodecRunTrace", ev)
    ctx.assumptions.append("craystack, improved_diffusion, hydra, omegaconf, wandb and plotly are not installed: stand-ins; a process dies between steps, not in the middle of writing a file")
