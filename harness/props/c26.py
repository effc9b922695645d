"""C26 Video and training loaders: every clip once, frames in order, batches whole."""
import os
import shutil
import sys
import warnings
from fractions import Fraction

from .. import core
from ..core import guarded
from ..net import Net


def write(path, arr):
    from PIL import Image

    Image.fromarray(arr).save(path)


class Cut:
    """a clip sampler that goes where the last clip ended (whole clips of m frames)"""

    def __init__(self, m):
        self.m, self.k = m, 0

    def __call__(self, last, duration, annotation):
        from pytorchvideo.data.clip_sampling import ClipInfo

        n = round(float(duration) * 30)
        s = round(float(last) * 30 + 0.5) if last else 0
        e = s + self.m
        k, self.k = self.k, self.k + 1
        lastone = e + self.m > n
        if lastone:
            self.k = 0
        return ClipInfo(Fraction(2 * s - 1, 60) if s else Fraction(0), Fraction(2 * e - 1, 60), k, 0, lastone)

    def reset(self):
        self.k = 0


def clicvideo(ctx, ev):
    import numpy as np
    import torch
    from pytorchvideo.data.clip_sampling import make_clip_sampler
    from torch.utils.data import DataLoader, RandomSampler, SequentialSampler

    from neuralcompression.data import CLIC2020Video

    rng = ctx.rng

    def tag(sample):
        info = torch.utils.data.get_worker_info()
        sample["worker"] = 0 if info is None else info.id
        return sample

    def same(x):
        return x

    for t in range(ctx.pick(40, 250)):
        root = os.path.join(ctx.scratch, f"v{t}")
        kind = rng.choice(["cut", "cut", "uniform", "constant", "random"])
        m = rng.choice([1, 2, 3, 5]) if kind == "cut" else 15 if kind == "uniform" else rng.choice([3, 4])
        nv = rng.randrange(1, 6)
        frames = [rng.choice([m, m + 1, 2 * m, 3 * m - 1, max(1, m - 1), rng.randrange(1, 12)]) for _ in range(nv)]
        names = sorted(rng.sample(["Animation_1080P-01b3", "Animation_720P-5f", "Vlog_2160P-aa", "Sports_720P-0001", "HowTo_1080P-2d", "a", "10", "9"], nv))
        for v, (nm, n) in enumerate(zip(names, frames), 1):
            os.makedirs(os.path.join(root, nm))
            for f in rng.sample(range(n), n):
                a = np.zeros((4, 6, 3), np.uint8)
                a[..., 0], a[..., 1] = v, f
                write(os.path.join(root, nm, f"{nm}_{f:05}_y.png"), a)
                if t % 3 == 0:
                    a[...] = 255
                    write(os.path.join(root, nm, f"{nm}_{f:05}_u.png"), a[::2, ::2])
        fixed, augs = (rng.choice([1, 2, 3]), rng.choice([1, 2, 3])) if kind == "constant" else (1, 1) if kind == "random" else (0, 1)
        F = rng.choice([0, 0, 1, 2, 3, 7])

        def sampler():
            if kind == "cut":
                return Cut(m)
            d = Fraction(m, 30)
            return make_clip_sampler("constant_clips_per_video", d, fixed, augs) if kind == "constant" else make_clip_sampler(kind, d)

        seq = rng.random() < 0.5
        kw = dict(video_sampler=SequentialSampler) if seq else {}
        if F:
            kw["frames_per_clip"] = F
        if rng.random() < 0.3:
            kw["multithreaded_io"] = True
        if rng.random() < 0.5:
            kw["split"] = rng.choice(["train", "val", "test"])
        ok, ds, err = guarded(CLIC2020Video, root, sampler(), transform=tag, **kw)
        base = dict(op="epoch", frames=frames, m=m, F=F, fixed=fixed, augs=augs, seq=seq, forward=kind == "constant")
        if not ok:
            ev.append(dict(base, case=f"clicvideo{t}", err=err))
            continue
        ev.append(dict(op="fact", fn="number-of-videos", case=f"clicvideo{t}", holds=len(ds) == nv))
        workers = rng.choice([0, 0, 0, 2, 3]) if t % 4 else 2
        persistent = workers > 0 and rng.random() < 0.5
        dl = None
        for ep in range(3 if workers == 0 else 2):
            stop = rng.randrange(0, 4) if ep == 0 and rng.random() < 0.5 else None
            got, err, form = [], "", True

            def drain():
                nonlocal dl
                if workers == 0 and t % 2:
                    it = iter(ds)
                else:
                    if dl is None or not persistent:
                        dl = DataLoader(ds, batch_size=None, num_workers=workers, collate_fn=same, persistent_workers=persistent)
                    it = iter(dl)
                if stop == 0:
                    return
                for s in it:
                    got.append(s)
                    if stop is not None and len(got) >= stop:
                        return

            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                _, _, err = guarded(drain)
            play = [[] for _ in range(max(1, workers))]
            for s in got:
                x = s["video"]
                g = x[1, :, 0, 0].tolist() if x is not None and x.dim() == 4 else []
                v = int(x[0, 0, 0, 0]) if g else 0
                fine = bool(g) and x.dtype == torch.float32 and list(x.shape) == [3, len(g), 4, 6] and bool((x[0] == v).all()) and 1 <= v <= nv
                fine = fine and s["video_name"] == names[v - 1] and s["video_index"] == v - 1 and s["label"] is None
                fine = fine and all(bool((x[1, i] == g[i]).all()) for i in range(len(g)))
                form = form and fine
                play[s["worker"]].append(dict(v=v, k=int(s["clip_index"]), a=int(s["aug_index"]), f=[int(y) for y in g] or [-1]))
            if workers and stop is not None:
                if not persistent:
                    dl = None
                # what had been fetched ahead is gone with the epoch; what came is a prefix
            ev.append(dict(base, case=f"clicvideo{t}-{kind}-w{workers}-ep{ep}-stop{stop}-F{F}", err=err, play=play, whole=stop is None, form=form))
        del dl
        shutil.rmtree(root)
    for s in ("valid", "all", ""):
        os.makedirs(os.path.join(ctx.scratch, "none"), exist_ok=True)
        _, _, err = guarded(CLIC2020Video, os.path.join(ctx.scratch, "none"), Cut(1), split=s)
        ev.append(dict(op="refuse", fn="clicvideo-split", case=s, err=err, want="ValueError"))
    # ---- download
    import io
    import zipfile

    url = "https://storage.googleapis.com/clic2021_public/txt_files/video_urls.txt"
    for t, fault in enumerate(["none", "none", "short", "refused", "list"]):
        net = Net()
        root = os.path.join(ctx.scratch, f"dl{t}", "deep")
        ends = [f"https://storage.example/clic/{i}.zip" for i in range(4)]
        for i, u in enumerate(ends):
            f = io.BytesIO()
            with zipfile.ZipFile(f, "w") as z:
                b = io.BytesIO()
                from PIL import Image

                Image.new("RGB", (4, 4), (i + 1, 0, 0)).save(b, "PNG")
                z.writestr(f"vid{i}/vid{i}_00000_y.png", b.getvalue())
            net.pages[u] = f.getvalue()
        net.pages[url] = ("\n".join(ends) + ("\n" if t else "")).encode()
        if fault == "list":
            net.faults[url.split("://")[1]] = "refused"
        elif fault != "none":
            net.faults[ends[2].split("://")[1]] = fault
        old, sys.stderr = sys.stderr, open(os.devnull, "w")
        try:
            with net.plugged():
                ok, ds, err = guarded(CLIC2020Video, root, Cut(1), download=True, video_sampler=SequentialSampler)
        finally:
            sys.stderr = old
        if fault == "none":
            got = [int(s["video"][0, 0, 0, 0]) for s in ds] if ok else []
            ev.append(dict(op="fact", fn="video-download-complete", case=str(t), holds=ok and got == [1, 2, 3, 4] and sorted(u for u in net.bodies if u in ends) == ends))
        else:
            ev.append(dict(op="fact", fn="video-download-failure-raises", case=fault, holds=not ok))
        shutil.rmtree(os.path.join(ctx.scratch, f"dl{t}"), ignore_errors=True)


def pattern(h, w, item, frame):
    """red tells the column, green the row, blue the frame (high bits) and item"""
    import numpy as np

    a = np.zeros((h, w, 3), np.uint8)
    a[..., 0] = np.arange(w)[None, :]
    a[..., 1] = np.arange(h)[:, None]
    a[..., 2] = item * 8 + frame
    return a


def modules(ctx, ev):
    import numpy as np
    import torch

    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path[:0] = [core.REPO + "/projects/torch_vct", core.REPO, os.path.join(here, "shims"), core.REPO + "/projects/deep_video_compression", core.REPO + "/projects/illm"]
    import torchvision.transforms._functional_tensor as ft

    # pytorchvideo names a module of torchvision by its former name
    sys.modules.setdefault("torchvision.transforms.functional_tensor", ft)
    from data_module import Vimeo90kSeptupletLightning
    from datamodules.kinetics import KineticsDataModule
    from datamodules.uvg import UVGDataModule
    from datamodules.video_data_api import VideoDataset
    from datamodules.vimeo import VimeoDataModule
    from open_images_datamodule import OpenImagesDataModule

    rng = ctx.rng
    quiet = warnings.catch_warnings()
    quiet.__enter__()
    warnings.simplefilter("ignore")
    # ---- UVG
    for t in range(ctx.pick(6, 30)):
        root = os.path.join(ctx.scratch, f"uvg{t}")
        frames = rng.choice([[300], [300, 600], [600, 300, 300], [300, 300]])
        n = 0
        names = sorted(rng.sample(["Beauty", "Bosphorus", "HoneyBee", "Jockey", "ShakeNDry"], len(frames)))
        for nm, k in zip(names, frames):
            os.makedirs(os.path.join(root, nm))
            for i in range(k):
                a = np.zeros((2, 3, 3), np.uint8)
                a[..., 0], a[..., 1], a[..., 2] = n % 256, n // 256, 255
                write(os.path.join(root, nm, f"im{i + 1:05}.png"), a)
                n += 1
        for T in ([None] if t % 2 else []) + rng.sample([1, 2, 3, 4, 5, 6, 10, 12, 25, 50, 60, 75, 100, 150, 300], 3):
            norm = rng.random() < 0.4
            kw = {} if T is None else dict(num_frames=T)
            if norm:
                kw["normalize"] = True

            def read():
                dm = UVGDataModule(root, num_workers=rng.choice([0, 0, 2]), pin_memory=False, **kw)
                got, form, values = [], True, True
                for b in dm.test_dataloader():
                    x = b.video_tensor
                    form = form and isinstance(b, VideoDataset) and list(x.shape) == [1, T or 300, 3, 2, 3]
                    y = x * 0.225 + 0.45 if norm else x
                    values = values and float((y[0, :, 2] - 1).abs().max()) < 1e-4
                    z = (y[0] * 255).round().long()
                    values = values and bool((z == z[:, :, :1, :1]).all()) and float((y[0] * 255 - z).abs().max()) < 1e-2
                    got.append((z[:, 0, 0, 0] + 256 * z[:, 1, 0, 0]).tolist())
                return got, form, values

            ok, r, err = guarded(read)
            got, form, values = r if ok else ([], False, False)
            ev.append(dict(op="uvg", case=f"uvg{t}-{frames}-T{T}-norm{norm}", err=err, frames=frames, T=T or 300, got=got, form=form, values=values))
        shutil.rmtree(root)
    for T in (7, 8, 299, 301, 600):
        ok, _, err = guarded(UVGDataModule, ctx.scratch, num_frames=T)
        ev.append(dict(op="fact", fn="uvg-frames-must-divide-300", case=str(T), holds=not ok))
    root = os.path.join(ctx.scratch, "mixed")
    for nm, k in (("a", 70), ("b", 130)):
        os.makedirs(os.path.join(root, nm))
        for i in range(k):
            write(os.path.join(root, nm, f"{i:05}.png"), np.zeros((2, 2, 3), np.uint8))
    ok, _, err = guarded(lambda: [b for b in UVGDataModule(root, num_frames=100, num_workers=0, pin_memory=False).test_dataloader()])
    ev.append(dict(op="fact", fn="uvg-never-mixes-videos", case="70+130", holds=not ok))
    shutil.rmtree(root)

    # ---- loaders of septuplets
    def unpack(x, th, tw, H, W, centred, scaled=True):
        """x [T,3,h,w] -> item, right shape, one crop for all frames, centred crop, frames in order"""
        form = tuple(x.shape[1:]) == (3, th, tw) and x.dtype == torch.float32
        z = x * 255 if scaled else x
        blue = z[:, 2].round()
        item = int(blue[0, 0, 0].item()) // 8
        framesok = bool(((z[:, 2] - blue).abs() < 0.02).all()) and all(bool((blue[i] == item * 8 + i).all()) for i in range(len(x)))
        rigid = float((z[:, :2] - z[:1, :2]).abs().max()) < 1e-3
        ok = True
        if centred:
            top, left = int(round((H - th) / 2.0)), int(round((W - tw) / 2.0))
            want = torch.zeros(3, th, tw)
            want[0] = torch.arange(left, left + tw)[None]
            want[1] = torch.arange(top, top + th)[:, None]
            ok = float((z[:, :2] - want[:2]).abs().max()) < 1e-2
        return item, form, rigid, ok, framesok

    def load(case, loader, n, b, ordered, T, size, HW, centred, kind=None, getter=lambda x: x):
        def go():
            items, sizes, fl = [], [], [True] * 4
            for x in loader():
                if kind is not None:
                    fl[0] = fl[0] and isinstance(x, kind)
                x = getter(x)
                sizes.append(x.shape[0])
                fl[0] = fl[0] and x.dim() == 5 and x.shape[1] == T
                for y in x:
                    r = unpack(y, *size, *HW, centred)
                    items.append(r[0])
                    fl[:] = [p and q for p, q in zip(fl, r[1:])]
            return items, sizes, fl

        ok, r, err = guarded(go)
        items, sizes, fl = r if ok else ([], [], [False] * 4)
        ev.append(dict(op="load", case=case, err=err, n=n, b=b, ordered=ordered, got=items, sizes=sizes, form=fl[0], rigid=fl[1], centred=fl[2], framesok=fl[3]))

    for t in range(ctx.pick(10, 60)):
        root = os.path.join(ctx.scratch, f"vimeo{t}")
        H, W = rng.choice([(24, 32), (40, 30), (20, 20)])
        n = {"train": rng.randrange(1, 8), "test": rng.randrange(1, 8)}
        os.makedirs(root)
        for s in n:
            with open(os.path.join(root, f"sep_{s}list.txt"), "w") as f:
                for i in range(n[s]):
                    d = f"{s}/{(i * 7) % 11:04}"
                    os.makedirs(os.path.join(root, "sequences", d))
                    for k in range(7):
                        write(os.path.join(root, "sequences", d, f"im{k + 1}.png"), pattern(H, W, i, k))
                    f.write(d + "\n")
        size = rng.choice([(16, 16), (12, 20), (H, W), (16, 10)])
        tb, vb = rng.randrange(1, 5), rng.randrange(1, 5)
        nw = rng.choice([0, 0, 2])
        dm = VimeoDataModule(root, train_batch_size=tb, val_batch_size=vb, video_crop_size=size if size[0] != size[1] or t % 2 else size[0], num_workers=nw)
        dm.setup()
        from datamodules.video_data_api import VimeoDataset

        for rep in range(2):
            load(f"vct-vimeo{t}-train{rep}", dm.train_dataloader, n["train"], tb, False, 7, size, (H, W), False, VimeoDataset, lambda x: x.video_tensor)
        load(f"vct-vimeo{t}-val", dm.val_dataloader, n["test"], vb, True, 7, size, (H, W), True, VimeoDataset, lambda x: x.video_tensor)
        T = rng.randrange(1, 8)
        dm = Vimeo90kSeptupletLightning(root, frames_per_group=T, train_batch_size=tb, val_batch_size=vb, image_size=size if size[0] != size[1] or t % 2 else size[0], num_workers=nw)
        dm.setup()
        load(f"dvc-vimeo{t}-train", dm.train_dataloader, n["train"], tb, False, T, size, (H, W), True)
        load(f"dvc-vimeo{t}-val", dm.val_dataloader, n["test"], vb, True, T, size, (H, W), True)
        shutil.rmtree(root)
    # a crop larger than the picture is filled up in training
    for T in (0, 8, -1):
        _, _, err = guarded(Vimeo90kSeptupletLightning, "/x", frames_per_group=T)
        ev.append(dict(op="refuse", fn="dvc-frames-per-group", case=str(T), err=err, want="ValueError"))

    # ---- Kinetics: clips as decoded, through a stand-in for the decoder
    import pytorchvideo.data

    made = []

    class Fake(torch.utils.data.Dataset):
        def __init__(self, data_path, clip_sampler, transform=None, decode_audio=True, **k):
            made.append(dict(path=data_path, sampler=type(clip_sampler).__name__, dur=float(clip_sampler._clip_duration), audio=decode_audio))
            self.t = transform

        def __len__(self):
            return FAKE["n"]

        def __getitem__(self, i):
            v = np.stack([pattern(FAKE["H"], FAKE["W"], i, k) for k in range(FAKE["T"])])
            return self.t({"video": torch.from_numpy(v).permute(3, 0, 1, 2).float(), "audio": None, "label": 0, "video_name": "x", "video_index": i, "clip_index": 0, "aug_index": 0})

    from datamodules.video_data_api import KineticsDataset

    real = pytorchvideo.data.Kinetics
    pytorchvideo.data.Kinetics = Fake
    try:
        for t in range(ctx.pick(12, 60)):
            FAKE = dict(n=rng.randrange(1, 5), H=rng.choice([256, 260, 255 + 1]), W=rng.choice([256, 264]), T=rng.randrange(2, 8))
            if t % 8 == 3:
                FAKE.update(H=40, W=50)
            FAKE["H"] = min(FAKE["H"], 256)
            FAKE["W"] = min(FAKE["W"], 256)
            sub = [None, 3, [2, 4], 9, [5, 2], [3], [3, 6, 1], 1][t % 8]
            norm = rng.random() < 0.4
            sm = rng.choice(["uniform", "random"])
            tb, vb = (1 if isinstance(sub, list) and len(sub) > 1 else rng.randrange(1, 4)), rng.randrange(1, 4)
            made.clear()
            dm = KineticsDataModule("/data/k", train_batch_size=tb, val_batch_size=vb, clip_duration=rng.choice([1, 2]), video_num_subsampled=sub, normalize=norm, train_clip_sampler=sm, num_workers=0, pin_memory=False)
            dm.setup()
            dl = {"train": dm.train_dataloader(), "val": dm.val_dataloader(), "test": dm.test_dataloader()}
            name = {"uniform": "UniformClipSampler", "random": "RandomClipSampler"}
            want = [("train", name[sm]), ("val", name["uniform"]), ("test", name[sm])]
            ev.append(dict(op="fact", fn="kinetics-partitions", case=f"kinetics{t}", holds=[(m["path"], m["sampler"], m["dur"], m["audio"]) for m in made] == [(f"/data/k/{p}", s, float(dm.clip_duration), False) for p, s in want]))
            for part in dl:
                if FAKE["H"] < 256 and part == "val":
                    continue
                lens = [FAKE["T"]] if sub is None else [sub] if isinstance(sub, int) else sub if part == "train" else [max(sub)]

                def go():
                    good = dict(kind=True, shape=True, frames=True, rigid=True, exact=True, items=[], sizes=[])
                    for b in dl[part]:
                        good["kind"] &= isinstance(b, KineticsDataset)
                        x = b.video_tensor
                        good["sizes"].append(x.shape[0])
                        size = [FAKE["H"], FAKE["W"]] if part == "test" else [256, 256]
                        good["shape"] &= x.dim() == 5 and x.shape[1] in lens and list(x.shape[2:]) == [3] + size and x.dtype == torch.float32
                        z = (x * 0.225 + 0.45 if norm else x) * 255
                        L = x.shape[1]
                        idx = torch.linspace(0, FAKE["T"] - 1, L).clamp(0, FAKE["T"] - 1).long().tolist() if sub is not None else list(range(L))
                        for y in z:
                            i = int(y[0, 2, 0, 0].round()) // 8
                            good["items"].append(i)
                            good["frames"] &= all(float((y[k, 2] - (i * 8 + idx[k])).abs().max()) < 0.05 for k in range(L))
                            good["rigid"] &= float((y[:, :2] - y[:1, :2]).abs().max()) < 0.05
                            if part != "train":
                                ref = torch.from_numpy(pattern(FAKE["H"], FAKE["W"], i, 0)).permute(2, 0, 1).float()
                                good["exact"] &= float((y[0, :2] - ref[:2]).abs().max()) < 0.05
                    return good

                ok, g, err = guarded(go)
                g = g or dict(kind=False, shape=False, frames=False, rigid=False, exact=False, items=[], sizes=[])
                b = dict(train=tb, val=vb, test=1)[part]
                ev.append(dict(op="load", case=f"kinetics{t}-{part}-{sub}-{norm}", err=err, n=FAKE["n"], b=b, ordered=True, got=g["items"], sizes=g["sizes"], form=g["shape"] and g["kind"], rigid=g["rigid"], centred=g["exact"], framesok=g["frames"]))
    finally:
        pytorchvideo.data.Kinetics = real

    # ---- Open Images module
    from PIL import Image
    from torchvision.transforms import ToTensor

    for t in range(ctx.pick(8, 40)):
        root = os.path.join(ctx.scratch, f"oi{t}")
        n = {"train": rng.randrange(1, 9), "validation": rng.randrange(1, 9)}
        H, W = rng.choice([(20, 30), (32, 32), (40, 24)])
        for s in n:
            os.makedirs(os.path.join(root, s))
            for i in range(n[s]):
                a = np.zeros((H, W, 3), np.uint8)
                a[...] = i * 16 + (8 if s == "train" else 0)
                Image.fromarray(a).save(os.path.join(root, s, f"{i:016x}.jpg"), quality=100)
            ids = rng.sample(range(n[s]), n[s])
            open(os.path.join(root, f"list-{s}-files.txt"), "w").write("".join(f"{i:016x}.jpg\n" for i in ids))
        size = rng.choice([[16, 16], [12, 20], 16])
        bs, vb = rng.randrange(1, 5), rng.choice([None, 1, 3])
        kw = dict(image_size=size)
        mine = t % 3 == 2
        if mine:
            from torchvision.transforms import CenterCrop, Compose

            kw = dict(train_transform=Compose([CenterCrop(8), ToTensor()]), val_transform=Compose([CenterCrop(10), ToTensor()]))
        if vb is not None:
            kw["val_batch_size"] = vb
        dm = OpenImagesDataModule(root, bs, workers=rng.choice([0, 0, 2]), pin_memory=False, **kw)
        dm.setup()
        for part, loader, b in (("train", dm.train_dataloader, bs), ("val", dm.val_dataloader, vb or bs), ("test", dm.test_dataloader, vb or bs)):
            def go():
                items, sizes, form, right = [], [], True, True
                for x in loader():
                    want = ([8, 8] if part == "train" else [10, 10]) if mine else [size, size] if isinstance(size, int) else size
                    form = form and isinstance(x, torch.Tensor) and x.dtype == torch.float32 and list(x.shape[1:]) == [3] + want
                    sizes.append(x.shape[0])
                    for y in x:
                        v = int((y * 255).round()[0, 0, 0])
                        items.append(v // 16 if part != "train" else (v - 8 + 4) // 16)
                        right = right and float((y - y[0, 0, 0]).abs().max()) < 0.02 and ((v + 4) // 8) % 2 == (1 if part == "train" else 0)
                return items, sizes, form, right

            ok, r, err = guarded(go)
            items, sizes, form, right = r if ok else ([], [], False, False)
            k = n["train" if part == "train" else "validation"]
            ev.append(dict(op="load", case=f"openimages{t}-{part}", err=err, n=k, b=b, ordered=part != "train", got=items, sizes=sizes, form=form, rigid=True, centred=True, framesok=right))
        shutil.rmtree(root)
    for kw in ({}, dict(train_transform=ToTensor()), dict(val_transform=ToTensor())):
        _, _, err = guarded(OpenImagesDataModule, "/x", 2, **kw)
        ev.append(dict(op="refuse", fn="openimages-needs-image-size", case=str(sorted(kw)), err=err, want="ValueError"))
    # the default transforms: training fills up small images, validation keeps the whole shorter side
    from default_transforms import default_train_transform, default_val_transform

    for t in range(ctx.pick(30, 200)):
        H, W, s = rng.randrange(10, 60), rng.randrange(10, 60), rng.choice([8, 16, 24])
        H, W = max(H, s // 2 + 1), max(W, s // 2 + 1)
        im = Image.fromarray(pattern(H, W, 1, 1))
        okv, y, err = guarded(default_val_transform(s), im)
        if not okv:
            ev.append(dict(op="fact", fn="validation-transform", case=f"{H}x{W}-{s}-{err}", holds=False))
            continue
        z = y * 255
        short = min(H, W)
        # the picture's centre stays in the centre
        mid = [float(z[0].mean()), float(z[1].mean())]
        okc = abs(mid[0] - (W - 1) / 2) <= W / s + 1 and abs(mid[1] - (H - 1) / 2) <= H / s + 1
        span = float(z[0].max() - z[0].min()) if W <= H else float(z[1].max() - z[1].min())
        ev.append(dict(op="fact", fn="validation-transform", case=f"{H}x{W}-{s}", holds=list(y.shape) == [3, s, s] and okc and span >= 0.7 * short - 2))
        if min(H, W) > s // 2:
            okt, y, err = guarded(default_train_transform(s), im)
            ev.append(dict(op="fact", fn="training-transform", case=f"{H}x{W}-{s}", holds=okt and list(y.shape) == [3, s, s] and y.dtype == torch.float32 and float(y.min()) >= 0 and float(y.max()) <= 1 and abs(float(y[2].mean()) * 255 - 9) < 0.1))
    quiet.__exit__(None, None, None)


def run(ctx):
    import logging

    logging.disable(logging.ERROR)
    os.environ["TQDM_DISABLE"] = "1"
    ctx.design("VideoLoad")
    ev = []
    clicvideo(ctx, ev)
    modules(ctx, ev)
    ctx.validate("VideoTrace", ev)
