"""C28 Model zoo, hub and shipped configurations: names stand for what they say."""
import contextlib
import importlib
import importlib.util
import inspect
import io
import math
import os
import re
import shutil
import sys

from .. import core
from ..core import covering_walks, guarded
from ..net import Net

BASE = "https://dl.fbaipublicfiles.com/NeuralCompression/2023-muckley-msillm/"
RATES = dict(vlo1="0.00218", vlo2="0.00438", q1="0.035", q2="0.07", q3="0.14", q4="0.3", q5="0.45", q6="0.9")
MODELS = [("msillm", q) for q in RATES] + [("noganms", q) for q in RATES if q[0] == "q"] + [("vqvae", "")]


def file_of(family, q):
    return "vqvae_xcit_p8_ch64_cb1024_h8.ckpt" if family == "vqvae" else f"{family}_target_{RATES[q]}bpp.ckpt"


def name_of(family, q, via):
    if family == "vqvae":
        return ("msillm_" if via == "hub" else "") + "vqvae_xcit_p8_ch64_cb1024_h8"
    return f"{family}_quality_{q[1:] if q[0] == 'q' else q}"


def run(ctx):
    import torch
    import torch.nn.init as I

    sys.path.insert(0, core.REPO)
    for n in ("kaiming_uniform_", "uniform_", "normal_", "xavier_uniform_", "trunc_normal_", "xavier_normal_", "kaiming_normal_"):
        setattr(I, n, lambda t, *a, **k: (t.data.fill_(0.01), t)[1])  # quick, and never a published value
    os.environ["TORCH_HOME"] = os.path.join(ctx.scratch, "home")
    import neuralcompression.zoo as zoo

    spec = importlib.util.spec_from_file_location("c28_hubconf", core.REPO + "/hubconf.py")
    hub = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(hub)
    from neuralcompression.layers import NormalizeLatent, ProjectLatent, VQBottleneck
    from neuralcompression.models import HiFiCAutoencoder, VqVaeXCiTAutoencoder

    ev, rng = [], ctx.rng
    net = Net()
    torch.hub.urlopen = net.urlopen
    edges = ctx.graph("Hub")
    ctx.replayed += len(edges)

    shapes = {
        "hific": {k: (tuple(v.shape), v.dtype) for k, v in HiFiCAutoencoder(3, 220, 320, 9).state_dict().items()},
        "vqvae": {k: (tuple(v.shape), v.dtype) for k, v in VqVaeXCiTAutoencoder(
            ch=64, out_ch=3, ch_mult=[1, 2, 2, 4], num_res_blocks=2, attn_resolutions=[32], dropout=0.0, resamp_with_conv=True, in_channels=3, resolution=256, embed_dim=256, freeze_encoder=False,
            norm_type="channel", bottleneck_op=ProjectLatent(input_dim=256, output_dim=8, child=NormalizeLatent(child=VQBottleneck(codebook_size=1024, vector_length=8)))).state_dict().items()},
    }

    def page(arch, value, spoil=""):
        """a checkpoint of one value, a few kilobytes whatever the model"""
        sd = {k: torch.full((), value).to(d).expand(s) for k, (s, d) in shapes[arch].items()}
        if spoil == "missing":
            sd.pop(sorted(sd)[len(sd) // 2])
        if spoil == "unknown":
            sd["surplus.weight"] = torch.ones(2)
        if spoil == "shape":
            k = next(k for k in sd if sd[k].dim() == 4)
            sd[k] = sd[k][:, :1]
        f = io.BytesIO()
        torch.save(sd, f)
        return f.getvalue()

    value = {file_of(f, q): 2.0 + 0.5 * i for i, (f, q) in enumerate(MODELS)}
    arch = {file_of(f, q): "vqvae" if f == "vqvae" else "hific" for f, q in MODELS}

    def publish():
        net.pages.clear()
        for f, v in value.items():
            net.pages[BASE + f] = page(arch[f], v)

    def weights(m):
        """the file whose weights a model has"""
        got = {float(x.float().min()) for x in m.state_dict().values() if x.numel()} | {float(x.float().max()) for x in m.state_dict().values() if x.numel()}
        sd = {k: x for k, x in m.state_dict().items() if x.numel()}
        for f, v in value.items():
            if all(float(x.float().min()) == float(x.float().max()) == float(torch.full((), v).to(x.dtype)) for x in sd.values()):
                return f
        return "new" if not any(v in got for v in value.values()) else "mixed"

    def ask(family, q, via, how, fault, case):
        fn = getattr(hub if via == "hub" else zoo, name_of(family, q, via))
        f = file_of(family, q)
        net.clear()
        net.faults = {(BASE + x).split("://")[1]: fault for x in value} if fault != "none" else {}
        kw = {} if how == "default" else {"pretrained": how == "yes"}
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            ok, m, err = guarded(fn, **kw)
        a = "vqvae" if family == "vqvae" else "hific"
        ev.append(dict(op="load", family=family, quality=q or "none", via=via, ask=how, fault=fault, asked=list(net.asked), err="" if ok else err.split(":")[0], weights=weights(m) if ok else "",
                       arch=ok and {k: (tuple(v.shape), v.dtype) for k, v in m.state_dict().items()} == shapes[a], case=case))
        if ok and how != "no":
            fact = all(p.requires_grad for p in m.parameters()) and m.training
            ev.append(dict(op="fact", fn="trainable-as-built", holds=bool(fact), case=case))
        return m if ok else None

    def fresh():
        shutil.rmtree(os.environ["TORCH_HOME"], ignore_errors=True)
        ev.append(dict(op="reset", case="reset"))

    publish()
    # every name both ways
    fresh()
    for family, q in MODELS:
        for via in ("zoo", "hub"):
            for how in ("no", "default", "yes"):
                ask(family, q, via, how, "none", f"{name_of(family, q, via)}-{how}")
    # histories
    walks = covering_walks(edges, dict(a="none", b="none"), None, rng)
    for w, walk in enumerate(walks):
        q = rng.choice(["q1", "q2", "q3", "q4", "q5", "q6"])
        pair = [("msillm", q), ("noganms", q)] if w % 2 == 0 else rng.sample(MODELS, 2)
        fresh()
        for k, e in enumerate(walk):
            a = e["act"]
            ask(*pair[0 if a["n"] == "a" else 1], a["via"], a["ask"], a["fault"], f"walk{w}-{k}-{a['fault']}")
    # weights that do not fit are refused, never half loaded
    for spoil in ("missing", "unknown", "shape"):
        for family, q in (("msillm", "q2"), ("noganms", "q5"), ("vqvae", "")):
            fresh()
            f = file_of(family, q)
            net.pages[BASE + f] = page(arch[f], 9.0, spoil)
            net.faults = {}
            with contextlib.redirect_stderr(io.StringIO()):
                ok, m, err = guarded(getattr(zoo, name_of(family, q, "zoo")), pretrained=True)
            ev.append(dict(op="refuse", fn="weights-that-do-not-fit", err="" if ok else err.split(":")[0], want="RuntimeError", case=f"{family}-{spoil}"))
    publish()
    # weights nobody published
    for mod, fn, args in (("_msillm", "_build_msillm", ()), ("_noganms", "_build_noganms", ()), ("_msillm_vqvae", "_build_msillm_vqvae", (torch.nn.Linear(1, 1),))):
        try:
            b = getattr(importlib.import_module("neuralcompression.zoo." + mod), fn)
        except (ImportError, AttributeError):
            continue
        for bad in ("target_0.1bpp", "", "msillm_target_0.14bpp", "target_0.00218bpp" if mod == "_noganms" else "target_0.14"):
            net.clear()
            ok, m, err = guarded(b, *args, weights=bad)
            ev.append(dict(op="refuse", fn="unknown-weights", err="" if ok else err.split(":")[0], want="ValueError", case=mod))
            ev.append(dict(op="fact", fn="unknown-weights-not-asked-for", holds=not net.asked, case=mod))
    net.faults = {}
    configs(ctx, ev, hub, shapes)
    example(ctx, ev)
    ctx.validate("HubTrace", ev)


# -------------------------------------------------------------------------- shipped configurations
def resolve(v, root, seen=()):
    """${a.b} and ${eval:...} as the scripts' resolvers do"""
    if isinstance(v, dict):
        return {k: resolve(x, root) for k, x in v.items()}
    if isinstance(v, list):
        return [resolve(x, root) for x in v]
    if not isinstance(v, str):
        return v
    while True:
        m = re.search(r"\$\{([^${}]*)\}", v)
        if not m:
            return v
        body = m.group(1)
        if body.startswith("eval:"):
            x = eval(body[5:], {"__builtins__": {}})
        elif body.startswith("oc.env:") or body.startswith("now:"):
            x = "x"
        else:
            x = root
            for k in body.split("."):
                x = x[k]
            x = resolve(x, root)
        if m.group(0) == v:
            return x
        v = v[: m.start()] + str(x) + v[m.end():]


def number(v):
    """YAML 1.1 reads 1e-3 as text; hydra reads a number"""
    if isinstance(v, dict):
        return {k: number(x) for k, x in v.items()}
    if isinstance(v, list):
        return [number(x) for x in v]
    if isinstance(v, str) and re.fullmatch(r"[-+]?\d+(\.\d*)?[eE][-+]?\d+", v):
        return float(v)
    return v


def configs(ctx, ev, hub, shapes):
    import torch
    import yaml

    P = core.REPO + "/projects/"
    shims = os.path.join(core.VERIF, "harness", "shims")
    sys.path[:0] = [P + "torch_vct", P + "deep_video_compression", P + "illm", shims]
    import torchvision.transforms as tvt

    sys.modules.setdefault("torchvision.transforms.functional_tensor", getattr(tvt, "_functional_tensor", tvt))
    import hydra

    read = lambda f: number(yaml.safe_load(open(P + f)))  # noqa: E731
    listdir = lambda d: sorted(f[:-5] for f in os.listdir(P + d) if f.endswith(".yaml")) if os.path.isdir(P + d) else []  # noqa: E731
    fact = lambda fn, holds, case: ev.append(dict(op="fact", fn=fn, holds=bool(holds), case=case))  # noqa: E731

    def compose(base_dir, base, **groups):
        c = read(f"{base_dir}/{base}.yaml")
        defaults = c.pop("defaults", [])
        for d in defaults:
            if isinstance(d, dict):
                for g, n in d.items():
                    if g in groups or n is None or isinstance(n, list):
                        continue
                    groups.setdefault(g, n)
        for g, n in groups.items():
            c[g] = read(f"{base_dir}/{g}/{n}.yaml")
        return resolve(c, c)

    def make(c, *a, **k):
        ok, v, err = guarded(hydra.utils.instantiate, c, *a, **k)
        return v if ok else None

    def binds(c, **k):
        """the named class takes these arguments"""
        mod, name = c["_target_"].rsplit(".", 1)
        try:
            cls = getattr(importlib.import_module(mod), name)
            inspect.signature(cls).bind(**{**{x: y for x, y in c.items() if not x.startswith("_")}, **k})
            return True
        except (ImportError, AttributeError, TypeError):
            return False

    # ---- illm
    B = "illm/conf"
    for n in listdir(B + "/rate_target"):
        c = make(read(f"{B}/rate_target/{n}.yaml"))
        ok = c is not None and len(c.target_factors) == len(c.target_steps) + 1 and len(c.lam2_factors) == len(c.lam2_steps) + 1
        want = 1.0 if n == "notarget" else float(n.split("-")[1])
        fact("rate-target-as-named", ok and c.target_bpp == want and c.target_factors[-1] == 1.0 and c.lam2_factors[-1] == 1.0 and c.lam_levels[0] <= c.lam_levels[1], n)
    par = [torch.nn.Parameter(torch.zeros(2))]
    c = compose(B, "config")
    fact("shipped-illm-composes", {"trainer", "image_logs", "data", "model", "optimizer", "distortion_loss", "test_dataloaders", "rate_target"} <= set(c), "config")
    for n in listdir(B + "/optimizer"):
        o = compose(B, "config", optimizer=n)["optimizer"]
        for k in [k for k in o if k.endswith("_opt")]:
            opt = make(o[k], params=par)
            fact("optimiser-builds", opt is not None and k + "_schedule" in o and make(o[k + "_schedule"], optimizer=opt) is not None, f"{n}-{k}")
    m = make(c["model"])
    fact("model-of-the-zoo", m is not None and {k: (tuple(v.shape), v.dtype) for k, v in m.state_dict().items()} == shapes["hific"], "hific_autoencoder")
    for n in listdir(B + "/latent_projector"):
        l = read(f"{B}/latent_projector/{n}.yaml")
        ae = make(l["autoencoder"])
        fact("projector-of-the-zoo", ae is not None and {k: (tuple(v.shape), v.dtype) for k, v in ae.state_dict().items()} == shapes["vqvae"], n)
        pr = make(l["projector"], ae)
        for d in listdir(B + "/discriminator"):
            dc = read(f"{B}/discriminator/{d}.yaml")
            disc = make(dc["model"])
            dl, gl = make(dc["discriminator_loss"]), make(dc["generator_loss"])
            if None in (pr, disc, dl, gl):
                fact("discriminator-builds", False, d)
                continue
            x = torch.rand(1, 3, 64, 64, generator=ctx.torch_gen(3))
            with torch.no_grad():
                lab = pr(x)
                out = disc(x, torch.zeros(1, c["model"]["latent_features"], 4, 4))
            k = ae.bottleneck_op.child.child.codebook_size if hasattr(ae.bottleneck_op, "child") and hasattr(ae.bottleneck_op.child, "child") and hasattr(ae.bottleneck_op.child.child, "codebook_size") else 1024
            fact("discriminator-scores-every-label", out.shape[2] * out.shape[3] == lab.numel() and out.shape[1] == k + 1, f"{d}-{n}")
    for g in ("pretrained_autoencoder", "pretrained_latent_autoencoder"):
        for n in listdir(f"{B}/{g}"):
            t = (read(f"{B}/{g}/{n}.yaml") or {}).get("torchhub")
            if t:
                fact("hub-name-exists", callable(getattr(hub, t["model"], None)) and t["github"] == "facebookresearch/NeuralCompression", n)
                if "target0.14bpp" in n:
                    fact("hub-name-means-rate", t["model"] == "noganms_quality_3", n)
    for n in listdir(B + "/data"):
        fact("data-module-takes-its-settings", binds(compose(B, "config", data=n)["data"], val_batch_size=None), n)
    for n in listdir(B + "/test_dataloaders"):
        for k, v in read(f"{B}/test_dataloaders/{n}.yaml").items():
            fact("test-data-takes-its-settings", binds({**v["class_params"], "dataset": None}) and binds(v["class_params"]["dataset"]) and "name" in v, f"{n}-{k}")
    for n in listdir(B + "/distortion_loss"):
        fact("distortion-takes-its-settings", binds(read(f"{B}/distortion_loss/{n}.yaml")), n)
    # ---- VCT
    B = "torch_vct/config"
    for n in listdir(B + "/scheduler"):
        c = compose(B, "train_config", scheduler=n, optim="adam", datamodule="vimeo")
        opt = make(c["optim"], params=par)
        s = make(c["scheduler"], optimizer=opt) if opt else None
        fact("schedule-builds", s is not None, n)
        if s is not None:
            T = c["training_loop"]["pseudo_epochs"]
            with contextlib.redirect_stderr(io.StringIO()):
                lrs = []
                for _ in range(T + 1):
                    lrs.append(opt.param_groups[0]["lr"])
                    opt.step()
                    s.step()
            fact("learning-rates-in-range", all(math.isfinite(x) and -1e-12 <= x <= c["training_loop"]["learning_rate"] * 1.0001 for x in lrs) and max(lrs) > 0.9 * c["training_loop"]["learning_rate"], n)
    for n in listdir(B + "/optim"):
        if n != "lion":
            fact("optimiser-builds", make(compose(B, "train_config", optim=n)["optim"], params=par) is not None, n)
    for a in listdir(B + "/analysis_transform"):
        for s in listdir(B + "/synthesis_transform"):
            c = compose(B, "train_config", analysis_transform=a, synthesis_transform=s)
            m = make(c["model"])
            fact("video-model-builds", m is not None, f"{a}-{s}")
    for g in ("datamodule", "test_datamodule"):
        for n in listdir(f"{B}/{g}"):
            fact("data-module-takes-its-settings", binds(compose(B, "train_config", **{g: n})[g], pin_memory=False), n)
    # ---- DVC
    B = "deep_video_compression/config"
    import data_module
    import dvc_module
    from neuralcompression.models import DVC

    base = read(B + "/base.yaml")
    stages = base["defaults"][0]["training_stages"]
    fact("stages-in-order", stages == sorted(stages), "base")
    order = []
    sig, tsig = inspect.signature(dvc_module.DvcModule.__init__), inspect.signature(data_module.Vimeo90kSeptupletLightning.__init__)
    for s in stages:
        c = read(f"{B}/training_stages/{s}.yaml")
        ok = set(c) == {s} and {"save_dir", "module", "trainer"} <= set(c[s])
        if ok:
            kw = {**base["module"], **c[s]["module"]}
            order.append(kw.get("training_stage"))
            try:
                sig.bind(None, None, **kw)
            except TypeError:
                ok = False
            fr = kw.get("num_pframes", 1)
            ok = ok and 1 <= fr <= 6
        fact("stage-takes-its-settings", ok, s)
    fact("stages-are-those-of-the-module", order == list(dvc_module.TRAINING_STAGES), "base")
    try:
        inspect.signature(DVC).bind(**base["model"])
        tsig.bind(None, frames_per_group=7, **base["data"], pin_memory=True)
        ok = True
    except TypeError:
        ok = False
    fact("data-module-takes-its-settings", ok, "dvc")


# -------------------------------------------------------------------------- the evaluation example
def example(ctx, ev):
    import torch
    from PIL import Image

    path = core.REPO + "/projects/illm/eval_folder_example.py"
    if not os.path.exists(path):
        return
    from .. import illm as L

    L.load()
    spec = importlib.util.spec_from_file_location("c28_example", path)
    ex = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(ex)
    import torchmetrics.image as tmi

    from neuralcompression.metrics import MultiscaleStructuralSimilarity, pickle_size_of

    import numpy as np

    rng = ctx.np_rng(28)
    for t in range(ctx.pick(3, 12)):
        d = os.path.join(ctx.scratch, f"ex{t}")
        os.makedirs(d)
        n = 1 + t % 3
        pics = []
        for i in range(n):
            a = rng.integers(0, 256, (256 + 16 * i, 264 + 8 * t, 3), dtype=np.uint8)
            Image.fromarray(a).save(f"{d}/{i}.png")
            pics.append(torch.from_numpy(a).permute(2, 0, 1).unsqueeze(0).float() / 255)
        Image.fromarray(a).save(f"{d}/other.jpg")
        calls = []

        class Model(torch.nn.Module):
            def __init__(self):
                super().__init__()
                self.ready = False

            def update(self, *a, **k):
                self.ready = True

            def update_tensor_devices(self, x):
                self.dev = x

            def compress(self, x, force_cpu=True):
                calls.append((self.training, self.ready, torch.is_grad_enabled(), tuple(x.shape)))
                self.x = x
                return bytes(int(1000 * float(x.mean())))

            def decompress(self, c, force_cpu=True):
                return self.x * 1.3 - 0.1

        model, asked = Model(), []

        class Proxy:
            """torch with a stand-in for the GPU and the hub"""

            hub = type("H", (), {"load": staticmethod(lambda *a, **k: (asked.append(a), model)[1])})

            def __getattr__(self, k):
                return getattr(torch, k)

            @staticmethod
            def device(*a):
                return torch.device("cpu")

        made = {}

        def keeper(name):
            def make(*a, **k):
                made[name] = getattr(tmi, name)(*a, **k)
                made[name].kw = k
                return made[name]
            return make

        ex.torch = Proxy()
        for nm in ("FrechetInceptionDistance", "LearnedPerceptualImagePatchSimilarity"):
            if hasattr(ex, nm):
                setattr(ex, nm, keeper(nm))
        out, argv = io.StringIO(), sys.argv
        sys.argv = ["eval", d]
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                ok, _, err = guarded(ex.main)
        finally:
            sys.argv = argv
        got = {m[0]: float(m[1]) for m in re.findall(r"^([A-Z\-]+|Rate): ([-\d.e]+)$", out.getvalue(), re.M)}
        bpp, psnr, lp = [], [], []
        ms = MultiscaleStructuralSimilarity(data_range=255.0)
        for x in pics:
            y = (x * 1.3 - 0.1).clamp(0, 1)
            bpp.append(pickle_size_of(bytes(int(1000 * float(x.mean())))) * 8 / (x.shape[-1] * x.shape[-2]))
            a, b = (x * 255 + 0.5).to(torch.uint8).float(), (y * 255 + 0.5).to(torch.uint8).float()
            psnr.append(float(10 * torch.log10(255.0 ** 2 / ((a - b).double() ** 2).mean())))
            ms.update(b, a)
            lp.append(float((y - x).abs().mean()))
        avg = lambda v: sum(v) / len(v)  # noqa: E731
        want = {"Rate": avg(bpp), "PSNR": avg(psnr), "MS-SSIM": float(ms.compute()), "LPIPS": avg(lp)}
        near = lambda a, b: a is not None and abs(a - b) <= 1e-4 * max(1e-3, abs(b))  # noqa: E731
        fact = lambda fn, h: ev.append(dict(op="fact", fn=fn, holds=bool(h), case=f"example-{n}"))  # noqa: E731
        fact("example-runs", ok and "FID" in got)
        for k, v in want.items():
            fact("example-reports-" + k, near(got.get(k), v))
        fact("example-uses-a-ready-model", len(calls) == n and all(c[:3] == (False, True, False) for c in calls) and asked and "msillm_quality_3" in asked[0])
        fid = made.get("FrechetInceptionDistance")
        if fid is not None and hasattr(fid, "real"):
            fact("example-fid-sides", len(fid.real) == len(fid.fake) > 0 and all(x.dtype == torch.uint8 for x in fid.real + fid.fake)
                 and abs(float(torch.cat([x.double().flatten() for x in fid.real]).mean()) - 127) < 6 and float(torch.cat([x.double().flatten() for x in fid.fake]).std()) > float(torch.cat([x.double().flatten() for x in fid.real]).std()))
        lpips = made.get("LearnedPerceptualImagePatchSimilarity")
        if lpips is not None and hasattr(lpips, "kw"):
            fact("example-lpips-in-unit-range", lpips.kw.get("normalize") is True)
        shutil.rmtree(d, ignore_errors=True)
