"""C25 Image data sets: complete genuine downloads, every listed item at its index."""
import io
import os
import shutil
import zipfile

from ..core import covering_walks, guarded
from ..net import ERRORS, Net

PARTS = {1: [1], 2: list(range(2, 24)), 3: [24]}
KODAK_SHA = "076e2a5fd4515b5fda677f15fe63dd112d266bc5"
KODAK_URL = "http://r0k.us/graphics/kodak/kodak/"
CLIC = {
    "train": ("https://data.vision.ee.ethz.ch/cvl/clic/professional_train_2020.zip", "a6845cac88c3dd882246575f7a2fc5f9"),
    "val": ("https://data.vision.ee.ethz.ch/cvl/clic/professional_valid_2020.zip", "7111ee240435911db04dbc5f40d50272"),
    "test": ("https://storage.googleapis.com/clic2021_public/professional_test_2021.zip", "4476b708ea4c492505dd70061bebe202"),
}
INSIDE = {"train": "train/", "val": "valid/", "test": ""}


def png(a, b, size=(5, 4), fmt="PNG", mode="RGB"):
    """a picture that tells its two numbers"""
    from PIL import Image

    f = io.BytesIO()
    Image.new(mode, size, {"RGB": (a, b, 200), "RGBA": (a, b, 200, 128)}[mode]).save(f, fmt)
    return f.getvalue()


def tells(img, size=None):
    """the numbers of a loaded picture, or None"""
    from PIL import Image

    if not isinstance(img, Image.Image) or img.mode != "RGB":
        return None
    px = img.getpixel((0, 0))
    return [px[0], px[1]]


def kodak(ctx, net, ev):
    with net.plugged():
        from neuralcompression.data import Kodak
    edges = ctx.graph("KodakStore")
    ctx.replayed += len(edges)
    rng = ctx.rng
    init = {"root": False, "g": ["absent"] * 3}
    key = lambda d: d if isinstance(d, list) else [d[str(i)] for i in (1, 2, 3)]
    for e in edges:
        for s in ("src", "dst"):
            e[s]["g"] = key(e[s]["g"])
    walks = covering_walks(edges, init, None, rng)
    good = {i: png(10 * i, 7 * i) for i in range(1, 25)}
    net.certify("sha1", b"".join(good[i] for i in range(1, 25)), KODAK_SHA)
    other = "http://mirror.example/kodak/"
    for base in (KODAK_URL, other):
        for i, b in good.items():
            net.pages[f"{base}kodim{i:02}.png"] = b
    root = os.path.join(ctx.scratch, "kodak")
    path = lambda i: os.path.join(root, f"kodim{i:02}.png")

    def look():
        """state of the parts on disk, and files that do not belong there"""
        st = []
        for k in (1, 2, 3):
            have = [os.path.exists(path(i)) for i in PARTS[k]]
            same = [h and open(path(i), "rb").read() == good[i] for h, i in zip(have, PARTS[k])]
            st.append("good" if all(same) else "absent" if not any(have) else "bad")
        names = set(os.listdir(root)) if os.path.isdir(root) else set()
        return st, len(names - {f"kodim{i:02}.png" for i in good} - strays)

    strays = {"kodim00.png", "kodim13_copy.png", "notes.txt"}  # files of the user's own are nobody's business
    for w, walk in enumerate(walks):
        shutil.rmtree(root, ignore_errors=True)
        ev.append(dict(op="reset", case=f"kodak{w}"))
        for n, e in enumerate(walk):
            if os.path.isdir(root) and n % 40 == 20:
                for f in strays:
                    open(os.path.join(root, f), "wb").write(png(9, 9))
            a, case = e["act"], f"kodak{w}.{n}"
            if a["name"] in ("damage", "lose"):
                ids = PARTS[a["k"]]
                i = rng.choice(ids)
                if not os.path.exists(path(i)):
                    i = next(j for j in ids if os.path.exists(path(j))) if any(os.path.exists(path(j)) for j in ids) else None
                if a["name"] == "lose":
                    for j in ids:
                        if os.path.exists(path(j)):
                            os.remove(path(j))
                elif i is not None:
                    b = good[i]
                    how = rng.randrange(4)
                    if how == 0:
                        b = png(1, 2)
                    elif how == 1:
                        b = b + b"\0"
                    elif how == 2 and len(ids) > 1:  # two pictures exchanged
                        j = rng.choice([x for x in ids if x != i])
                        b = good[j]
                        open(path(j), "wb").write(good[i])
                    else:
                        b = b[:-1]
                    open(path(i), "wb").write(b)
                ev.append(dict(op="disk", case=case, disk=look()[0]))
                continue
            kind = "none" if a["f"] == 0 else ("refused", "cut", "short")[(a["f"] - 1) % 3]
            part = (a["f"] + 2) // 3
            url = rng.choice([None, other])
            base = url or KODAK_URL
            net.faults = {}
            if kind != "none":
                i = PARTS[part][0] if kind != "short" else rng.choice(PARTS[part])
                net.faults[f"{base}kodim{i:02}.png".split("://")[1]] = kind
            net.clear()
            kw = dict(download=a["dl"], force_download=a["force"], check_hash=a["chk"])
            if url:
                kw["kodak_url"] = url
            if rng.random() < 0.5:  # defaults
                kw = {k: v for k, v in kw.items() if v != dict(download=False, force_download=False, check_hash=True).get(k)}
            tf = rng.choice([None, lambda x: ("t", tells(x))])
            if tf:
                kw["transform"] = tf
            with net.plugged():
                ok, ds, err = guarded(Kodak, rng.choice([root, __import__("pathlib").Path(root)]), **kw)
            names = [u.rsplit("/", 1)[-1] for u in net.asked]
            asked = [int(x[5:7]) if x.startswith("kodim") else -1 for x in names]
            disk, extra = look()
            size, genuine, serves = -1, False, True
            if ok:
                size = len(ds)
                got, want = [], []
                for i in range(1, 25):
                    o, v, er = guarded(ds.__getitem__, i - 1)
                    got.append((v[1] if tf else tells(v)) if o else er)
                    want.append([10 * i, 7 * i])
                    if os.path.exists(path(i)) and open(path(i), "rb").read() == good[i]:
                        serves = serves and got[-1] == want[-1]
                    elif not os.path.exists(path(i)):
                        serves = serves and not o
                genuine = got == want and guarded(ds.__getitem__, 24)[2] == "IndexError"
            ev.append(dict(op="kodak", case=f"{case}-{a['out']}-{kind}", dl=a["dl"], force=a["force"], chk=a["chk"], f=a["f"], err=err, neterr=ERRORS.get(kind, "-"), asked=asked,
                           base=all(u.startswith(base) for u in net.asked), disk=disk, extra=extra, root=os.path.isdir(root), len=size, genuine=genuine, serves=serves))
    net.faults = {}
    shutil.rmtree(root, ignore_errors=True)
    # large files are checked to their last byte
    big = dict(good)
    big[7] = good[7] + bytes(9_000_000)
    net.certify("sha1", b"".join(big[i] for i in range(1, 25)), KODAK_SHA)
    os.mkdir(root)
    for hurt in (None, 8_999_999, 2_000_000, 5_000_000):
        for i in big:
            open(path(i), "wb").write(big[i])
        if hurt is not None:
            b = bytearray(big[7])
            b[hurt] ^= 1
            open(path(7), "wb").write(b)
        with net.plugged():
            _, _, err = guarded(Kodak, root)
        ev.append(dict(op="refuse", fn="damage-deep-in-a-file", case=f"byte{hurt}", err=err, want="" if hurt is None else "RuntimeError"))
    shutil.rmtree(root, ignore_errors=True)


def clic(ctx, net, ev):
    with net.plugged():
        from neuralcompression.data import CLIC2020Image
    rng = ctx.rng
    edges = ctx.graph("ClicStore")
    ctx.replayed += len(edges)
    none = {s: "none" for s in CLIC}
    walks = covering_walks(edges, {"zip": none, "tree": none}, None, rng)
    names = {"train": ["b.png", "a.png", "c10.png", "c9.png"], "val": ["x.png", "m.png", "n.png"], "test": ["q.png", "p.png"]}
    zips, pics = {}, {}
    for n, s in enumerate(CLIC):
        f = io.BytesIO()
        pics[s] = {nm: png(20 * n + i, 90 + n, mode="RGBA" if i == 1 else "RGB") for i, nm in enumerate(names[s])}
        with zipfile.ZipFile(f, "w") as z:
            for nm in names[s]:
                z.writestr(INSIDE[s] + nm, pics[s][nm])
                z.writestr("__MACOSX/" + INSIDE[s] + "._" + nm, b"x")
        zips[s] = f.getvalue()
        net.pages[CLIC[s][0]] = zips[s]
        net.certify("md5", zips[s], CLIC[s][1])
    base = os.path.join(ctx.scratch, "clicbase")
    here = os.path.join(base, "clic2020")
    real_all, real_one = zipfile.ZipFile.extractall, zipfile.ZipFile._extract_member
    left = [None]

    def one(self, member, *a, **k):
        if left[0] is not None:
            if left[0] == 0:
                raise OSError("no space left on device")
            left[0] -= 1
        return real_one(self, member, *a, **k)

    def every(self, *a, **k):
        r = real_all(self, *a, **k)
        if left[0] is not None:
            raise OSError("interrupted")
        return r

    def folder(s):
        d = os.path.join(here, s)
        return {f: open(os.path.join(d, f), "rb").read() for f in (sorted(os.listdir(d)) if os.path.isdir(d) else []) if f.endswith(".png")}

    def zipstate(s):
        p = os.path.join(here, s + ".zip")
        return "none" if not os.path.exists(p) else "good" if open(p, "rb").read() == zips[s] else "bad"

    for w, walk in enumerate(walks):
        shutil.rmtree(base, ignore_errors=True)
        os.mkdir(base)
        hurt = False
        ev.append(dict(op="reset", case=f"clic{w}"))
        for n, e in enumerate(walk):
            a = e["act"]
            s = a["s"]
            addr = CLIC[s][0]
            bare = addr.split("://")[1]
            kind = {"connect": "refused", "cut": rng.choice(["cut", "short"])}.get(a["f"], "none")
            net.faults = {bare: kind} if kind != "none" else {}
            net.clear()
            before = {t: (folder(t), zipstate(t)) for t in CLIC if t != s}
            old = folder(s)
            left[0] = rng.randrange(0, 2 * len(names[s]) + 1) if a["f"] == "extract" else None
            zipfile.ZipFile._extract_member, zipfile.ZipFile.extractall = one, every
            tf = rng.choice([None, tells])
            try:
                with net.plugged():
                    kw = dict(split=s, download=a["dl"], transform=tf)
                    if rng.random() < 0.5:
                        kw = {k: v for k, v in kw.items() if v != dict(split="train", download=False, transform=None)[k]}
                    ok, ds, err = guarded(CLIC2020Image, base, **kw)
            finally:
                zipfile.ZipFile._extract_member, zipfile.ZipFile.extractall = real_one, real_all
            hurt = hurt or a["f"] == "extract"  # what an interrupted extraction left may stay
            now = folder(s)
            listed = True
            if ok:
                got = [guarded(ds.__getitem__, i)[1] for i in range(len(ds))]
                got = got if tf else [tells(x) for x in got]
                which = {pics[s][nm]: [20 * list(CLIC).index(s) + i, 90 + list(CLIC).index(s)] for i, nm in enumerate(names[s])}
                listed = got == [which.get(now[f]) for f in sorted(now)]
            https = addr.startswith("https")
            # a broken transfer over https is tried once more over http
            tries = 2 if kind == "cut" and https else 1
            ev.append(dict(op="clic", case=f"clic{w}.{n}-{s}-{a['f']}-{a['dl']}", s=s, dl=a["dl"], f=a["f"], err=err, bodies=len(net.bodies), tries=tries,
                           address=all(u.split("://")[1] == bare for u in net.asked) and len(net.bodies) <= 2, zip=zipstate(s), all=now == pics[s],
                           clean=hurt or not os.path.exists(os.path.join(here, "__MACOSX")) and not os.path.exists(os.path.join(here, s, "__MACOSX")),
                           listed=listed, others={t: (folder(t), zipstate(t)) for t in CLIC if t != s} == before, intact=all(now.get(k) == v for k, v in old.items())))
    net.faults = {}
    for s in ("valid", "", "TRAIN", "validation"):
        with net.plugged():
            net.clear()
            _, _, err = guarded(CLIC2020Image, base, split=s, download=True)
        ev.append(dict(op="refuse", fn="clic-split", case=s, err=err, want="ValueError"))
        ev.append(dict(op="fact", fn="no-request-for-unknown-split", case=s, holds=net.asked == []))
    shutil.rmtree(base, ignore_errors=True)


def listings(ctx, ev):
    import torch
    from torchvision.transforms import ToTensor

    from neuralcompression.data import CLIC2020Image, DIV2KDataset, OpenImagesV6, Vimeo90kSeptuplet

    rng = ctx.rng
    base = os.path.join(ctx.scratch, "lists")
    os.makedirs(base)
    # ---- septuplets
    root = os.path.join(base, "vimeo")
    folders = [f"{a:05}/{b:04}" for a, b in [(1, 1), (2, 3), (2, 1), (10, 7), (9, 2), (1, 30)]]
    for i, f in enumerate(folders, 1):
        os.makedirs(os.path.join(root, "sequences", f))
        for k in range(1, 8):
            open(os.path.join(root, "sequences", f, f"im{k}.png"), "wb").write(png(i, k))

    def read(item, video, tf, tt):
        """-> (numbers of the frames, right form)"""
        if tt:
            if not (isinstance(item, tuple) and item[0] == "tt"):
                return [], False
            item = item[1]
        if not video and not tf:
            return [tells(item)], True
        if not isinstance(item, torch.Tensor) or item.dim() != (4 if video else 3):
            return [], False
        x = item if video else item[None]
        shape = tuple(x.shape[1:]) == (3, 4, 5)
        k = 255 if tf in (None, "plain") else 510
        return [[round(float(f[0, 0, 0]) * k), round(float(f[1, 0, 0]) * k)] for f in x], shape and item.dtype == torch.float32

    half = lambda im: ToTensor()(im) / 2
    for t in range(ctx.pick(120, 700)):
        n = rng.randrange(0, 6)
        ff, video, by = rng.randrange(1, 8), rng.random() < 0.5, rng.choice(["train", "test", "folders"])
        ids = [rng.randrange(1, 7) for _ in range(n)]
        tf = rng.choice([None, "plain", "half"])
        tt = rng.random() < 0.4
        kw = dict(as_video=video, frames_per_group=ff)
        if by == "folders":
            kw["folder_list"] = ["sequences/" + folders[i - 1] for i in ids]
        else:
            kw["split"] = by
            for s in ("train", "test"):
                with open(os.path.join(root, f"sep_{s}list.txt"), "w") as f:
                    lines = [folders[i - 1] for i in ids] if s == by else [folders[0]] * 9
                    f.write("\n".join(lines) + ("\n" if rng.random() < 0.5 and lines else ""))
        if tf:
            kw["pil_transform"] = {"plain": ToTensor(), "half": half}[tf]
        if tt:
            kw["tensor_transform"] = lambda x: ("tt", x)
        if ff == 7 and rng.random() < 0.5:
            kw.pop("frames_per_group")
        if not video and rng.random() < 0.5:
            kw.pop("as_video")
        case = f"vimeo{t}-n{n}-ff{ff}-video{video}-{by}-{tf}"
        ok, ds, err = guarded(Vimeo90kSeptuplet, root, **kw)
        if not ok:
            ev.append(dict(op="fact", fn="septuplets-construct", case=case + err, holds=False))
            continue
        ln = n if video else n * ff
        ev.append(dict(op="vimeo", what="len", case=case, n=n, ff=ff, video=video, got=len(ds)))
        idx = set(rng.sample(range(ln), min(ln, 6))) | {0, ln - 1, ln, -1, -ln, -ln - 1, ln + 5}
        for i in sorted(idx):
            ok, item, err = guarded(ds.__getitem__, i)
            got, form = read(item, video, tf, tt) if ok else ([], True)
            # in terms of the listing: the folder's place
            pos = (i if i >= 0 else i + ln) // (1 if video else ff)
            here = ids[pos] if 0 <= pos < n else -1
            got = [[pos + 1 if g and g[0] == here else -1, g[1] if g else -1] for g in got]
            ev.append(dict(op="vimeo", what="item", case=f"{case}-i{i}", n=n, ff=ff, video=video, i=i, err=err, got=got, form=form))
    with open(os.path.join(root, "sep_trainlist.txt"), "w") as f:
        f.write(folders[0] + "\n")
    for kw in [dict(split="val"), dict(split="Train"), dict(), dict(split="train", folder_list=["sequences/" + folders[0]])] + [dict(split="train", frames_per_group=k) for k in (0, 8, -1, 14)]:
        _, _, err = guarded(Vimeo90kSeptuplet, root, **kw)
        ev.append(dict(op="refuse", fn="septuplet-arguments", case=str(sorted(kw)) + str(kw.get("frames_per_group")), err=err, want="ValueError"))
    for video in (False, True):
        ds = Vimeo90kSeptuplet(root, as_video=video, split="train", pil_transform=lambda im: im)
        _, _, err = guarded(ds.__getitem__, 0)
        ev.append(dict(op="refuse", fn="septuplet-transform-without-tensor", case=str(video), err=err, want="RuntimeError"))
    sizes = set()

    def meet(im):
        sizes.add(tells(im)[1] if tells(im) else 0)
        return ToTensor()(im)

    Vimeo90kSeptuplet(root, as_video=True, split="train", frames_per_group=3, pil_transform=meet)[0]
    ev.append(dict(op="fact", fn="septuplet-transform-per-frame", case="meet", holds=sizes == {1, 2, 3}))

    # ---- listed and found pictures
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    invalid = open(os.path.join(here, "openimages_invalid.txt")).read().split()
    tfs = [None, lambda im: ("t", tells(im))]
    for t in range(ctx.pick(40, 300)):
        split = rng.choice(["train", "val", "test"])
        oi = os.path.join(base, f"oi{t}")
        sub = {"train": "train", "val": "validation", "test": "test"}[split]
        for d in ("train", "validation", "test"):
            os.makedirs(os.path.join(oi, d))
        pool = rng.sample(invalid, 5 if t % 8 else 100) + [f"{rng.randrange(16 ** 16):016x}" for _ in range(5)]
        rng.shuffle(pool)
        order = sorted(set(pool))
        num = {nm: i + 1 for i, nm in enumerate(order)}
        listed = pool[: rng.randrange(1, len(pool) + 1)] if t % 8 else pool
        if t % 3 == 0:
            listed = listed + [listed[0]]
        for nm in order:
            for d in ("train", "validation", "test"):
                from PIL import Image

                v = num[nm] if d == sub else 200
                Image.new("RGB", (8, 8), (v, v, v)).save(os.path.join(oi, d, nm + ".jpg"), quality=100)
        own = t % 2 == 1
        lf = os.path.join(oi, "my.txt") if own else os.path.join(oi, f"list-{sub}-files.txt")
        with open(lf, "w") as f:
            f.write("".join(nm + rng.choice([".jpg"]) + "\n" for nm in listed))
        if own:
            open(os.path.join(oi, f"list-{sub}-files.txt"), "w").write(order[0] + ".jpg\n")
        tf = tfs[(t // 2) % 2]
        kw = dict(image_list_file=lf) if own else {}
        if tf:
            kw["transform"] = tf
        ok, ds, err = guarded(OpenImagesV6, oi, split, **kw)
        got, form = [], True
        if ok:
            for i in range(len(ds)):
                o, v, er = guarded(ds.__getitem__, i)
                if tf and o:
                    form = form and isinstance(v, tuple)
                    v = v[1] if isinstance(v, tuple) else None
                else:
                    v = tells(v) if o else None
                got.append(v[0] if v else -1)
            form = form and guarded(ds.__getitem__, len(ds))[2] == "IndexError"
        drop = [num[nm] for nm in order if nm in invalid] if split == "train" else []
        ev.append(dict(op="list", case=f"openimages{t}-{split}-{own}", err=err, names=[num[nm] for nm in listed], drop=drop, got=got, form=form))
        shutil.rmtree(oi)
    for s in ("validation", "", "all"):
        _, _, err = guarded(OpenImagesV6, base, s)
        ev.append(dict(op="refuse", fn="openimages-split", case=s, err=err, want="ValueError"))
    for t in range(ctx.pick(40, 300)):
        d = os.path.join(base, f"dir{t}")
        div = t % 2 == 0
        split = "val" if div else rng.choice(["train", "val", "test"])
        sub = os.path.join(d, "DIV2K_valid_HR") if div else os.path.join(d, "clic2020", split)
        os.makedirs(sub)
        os.makedirs(os.path.join(d, "DIV2K_train_HR"))
        open(os.path.join(d, "DIV2K_train_HR", "0001.png"), "wb").write(png(250, 0))
        names = rng.sample(["%04d.png" % i for i in range(795, 910)] + ["a b.png", "Z.png", "é.png", "10.png", "9.png"], rng.randrange(0, 12))
        order = sorted(names)
        num = {nm: i + 1 for i, nm in enumerate(order)}
        for nm in names:
            open(os.path.join(sub, nm), "wb").write(png(num[nm], 0, mode=rng.choice(["RGB", "RGBA"])))
        for nm in ("readme.txt", "0801.jpg", "0802.png.bak"):
            if rng.random() < 0.6:
                open(os.path.join(sub, nm), "wb").write(png(251, 0))
        tf = tfs[(t // 2) % 2]
        kw = dict(transform=tf) if tf else {}
        if div:
            ok, ds, err = guarded(DIV2KDataset, d, **({} if t % 4 else dict(split="val")), **kw)
        else:
            ok, ds, err = guarded(CLIC2020Image, d, split=split, **kw)
        got, form = [], True
        if ok:
            for i in range(len(ds)):
                o, v, er = guarded(ds.__getitem__, i)
                if tf and o:
                    form = form and isinstance(v, tuple)
                    v = v[1] if isinstance(v, tuple) else None
                else:
                    v = tells(v) if o else None
                got.append(v[0] if v else -1)
            form = form and guarded(ds.__getitem__, len(ds))[2] == "IndexError"
        ev.append(dict(op="list", case=f"{'div2k' if div else 'clic'}{t}-{split}", err=err, names=[num[nm] for nm in rng.sample(names, len(names))], drop=[], got=got, form=form))
        shutil.rmtree(d)
    for s in ("train", "", "valid"):
        _, _, err = guarded(DIV2KDataset, base, split=s)
        ev.append(dict(op="refuse", fn="div2k-split", case=s, err=err, want="ValueError"))


def run(ctx):
    import logging
    import sys

    logging.disable(logging.ERROR)
    os.environ["TQDM_DISABLE"] = "1"
    ctx.design("Listing")
    ev, net = [], Net()
    out = sys.stdout
    sys.stdout = open(os.devnull, "w")
    err, sys.stderr = sys.stderr, open(os.devnull, "w")
    try:
        kodak(ctx, net, ev)
        clic(ctx, net, ev)
    finally:
        sys.stdout, sys.stderr = out, err
    listings(ctx, ev)
    ctx.validate("DataTrace", ev)
