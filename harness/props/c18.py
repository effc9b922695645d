"""C18 DVC: P-frame coding of video."""
import copy
import sys

from .. import core
from ..core import digest, fx, guarded


def run(ctx):
    import torch
    import torch.nn.functional as F

    sys.path.insert(0, core.REPO)
    from neuralcompression.models import DVC
    from neuralcompression.models import deep_video_compression as dv

    torch.set_num_threads(4)
    edges = ctx.graph("DvcStream")
    ev = []
    rng = ctx.rng
    gen = ctx.torch_gen(18)
    rand = lambda *s: torch.rand(*s, generator=gen, dtype=torch.float64)  # noqa: E731
    randn = lambda *s: torch.randn(*s, generator=gen, dtype=torch.float64)  # noqa: E731

    def livelier(m, latent_std=4.0):
        """weights as after training: latents of several steps, medians off the integers"""
        m = m.double().eval()
        i1, i2 = rand(2, 3, 48, 48), rand(2, 3, 48, 48)
        with torch.no_grad():
            for eb in (m.motion_entropy_bottleneck, m.residual_entropy_bottleneck):
                q = eb.quantiles
                med = randn(q.shape[0]) * 2
                q[:, 0, 1] = med
                q[:, 0, 0] = med - 6 - rand(q.shape[0]) * 3
                q[:, 0, 2] = med + 6 + rand(q.shape[0]) * 3

            def tune(net, out, std, mean=0.0):
                """last convolution rescaled so that the output varies by std around mean"""
                w = [p for _, p in net.named_parameters() if p.dim() == 4][-1]
                bias = [p for _, p in net.named_parameters() if p.dim() == 1][-1]
                y = out()
                w.mul_(std / float(y.std(dim=(0, 2, 3)).mean().clamp_min(1e-9)))
                y = out()
                bias.add_(mean - y.mean(dim=(0, 2, 3))[: len(bias)] if len(bias) == y.shape[1] else 0.0)

            tune(m.motion_encoder, lambda: m.motion_encoder(m.motion_estimator(i1, i2))[0], latent_std)
            y, s = m.motion_encoder(m.motion_estimator(i1, i2))
            tune(m.motion_decoder, lambda: m.motion_decoder(y, s), 0.15)
            flow = m.motion_decoder(y, s)
            tune(m.motion_compensation, lambda: m.motion_compensation(i1, i1, flow), 0.15, 0.5)
            est = m.motion_compensation(i1, i1, flow)
            tune(m.residual_encoder, lambda: m.residual_encoder(i2 - est)[0], latent_std)
            z, s2 = m.residual_encoder(i2 - est)
            tune(m.residual_decoder, lambda: m.residual_decoder(z, s2), 0.1)
        return m

    def parts():
        """components the user may supply"""
        return dict(
            motion_estimator=dv.DVCPyramidFlowEstimator(levels=3, kernel_size=3, filter_counts=[4, 2]),
            motion_encoder=dv.DVCCompressionEncoder(filter_channels=5, out_channels=4, num_conv_layers=3, use_gdn=False),
            motion_decoder=dv.DVCCompressionDecoder(in_channels=4, filter_channels=5, num_conv_layers=3, use_gdn=False),
            motion_entropy_bottleneck=dv.EntropyBottleneck(4),
            motion_compensation=dv.DVCMotionCompensationModel(model_channels=4, num_levels=2),
            residual_encoder=dv.DVCCompressionEncoder(in_channels=3, filter_channels=5, out_channels=3, kernel_size=3, num_conv_layers=2),
            residual_decoder=dv.DVCCompressionDecoder(in_channels=3, filter_channels=5, out_channels=3, kernel_size=3, num_conv_layers=2),
            residual_entropy_bottleneck=dv.EntropyBottleneck(3))

    def small(**kw):
        return DVC(coder_channels=6, motion_compensation=dv.DVCMotionCompensationModel(model_channels=8),
                   motion_estimator=dv.DVCPyramidFlowEstimator(filter_counts=[6, 8, 2], kernel_size=5), **kw)

    torch.manual_seed(ctx.seed * 31 + 7)
    models = {"small": (small, 16, 4), "default": (lambda: DVC(coder_channels=6), 16, 4)}
    supplied = {}

    def custom():
        supplied.clear()
        supplied.update(parts())
        return DVC(**supplied)

    models["custom"] = (custom, 4, None)
    built = {}
    for k, (mk, least, layers) in models.items():
        m = livelier(mk())
        m.update()
        built[k] = (m, least, layers)
    for n, p in supplied.items():
        ev.append(dict(op="fact", fn="supplied-component-is-used", case=n, holds=getattr(built["custom"][0], n) is p))

    def warp(img, flow):
        # bilinear, border, normalised grid spanning [-1, 1] over the samples
        n, h, w = flow.shape[0], flow.shape[2], flow.shape[3]
        ys = torch.linspace(-1, 1, h, dtype=flow.dtype).view(1, h, 1).expand(n, h, w)
        xs = torch.linspace(-1, 1, w, dtype=flow.dtype).view(1, 1, w).expand(n, h, w)
        g = torch.stack([xs + flow[:, 0], ys + flow[:, 1]], -1)
        return F.grid_sample(img, g, mode="bilinear", padding_mode="border", align_corners=False)

    def deq(eb, y):
        med = eb.quantiles[:, 0, 1].detach().view(1, -1, 1, 1)
        return torch.round(y - med) + med

    def reference(m, i1, i2):
        """the frame both sides should hold, from the model's parts"""
        y, s = m.motion_encoder(m.motion_estimator(i1, i2))
        flow = m.motion_decoder(deq(m.motion_entropy_bottleneck, y), s)
        est = m.motion_compensation(i1, warp(i1, flow), flow)
        r, s2 = m.residual_encoder(i2 - est)
        rq = deq(m.residual_entropy_bottleneck, r)
        res = m.residual_decoder(rq, s2)
        live = float((torch.round(y)).std()) > 0.3 and float(rq.std()) > 0.3 and float(flow.abs().max()) > 1e-3
        return (est + res).clamp(0, 1), live

    # ---- every size
    sizes = [(h, w) for h in range(16, 34) for w in range(16, 34)]
    rng.shuffle(sizes)
    plan = [("small", s) for s in [(16, 16), (17, 17), (32, 32), (33, 47), (31, 64)] + sizes[:ctx.pick(50, 300)]]
    lively = []
    plan += [("default", s) for s in [(16, 18), (37, 26)]]
    csz = [(h, w) for h in range(4, 20) for w in range(4, 20)]
    rng.shuffle(csz)
    plan += [("custom", s) for s in csz[:ctx.pick(40, 200)]]
    with torch.no_grad():
        for k, (name, (h, w)) in enumerate(plan):
            m, least, layers = built[name]
            b = 1 + k % 3
            i1, i2 = rand(b, 3, h, w), rand(b, 3, h, w)
            if k % 4 == 1:
                i2 = (i1.roll(1, 3) + 0.05 * i2).clamp(0, 1)
            d1, d2 = digest(i1), digest(i2)
            case = f"{name}-{b}x{h}x{w}-{k}"
            base = dict(op="coded", case=case, h=h, w=w, b=b, layers=layers or 3, err="", sizes=[], shape=[], err_ref=0, err_fwd=0, lo=0, hi=0, alone=True, strings=[])
            ok, c, err = guarded(m.compress, i1, i2)
            if not ok:
                ev.append(dict(base, err=err))
                continue
            ok, r, err = guarded(m.decompress, i1, c)
            if not ok:
                ev.append(dict(base, err=err))
                continue
            ref, live = reference(m, i1, i2)
            lively.append(live and 0.05 < float(((ref > 0) & (ref < 1)).double().mean()))
            fwd = m(i1, i2)
            j = k % b
            c1 = m.compress(i1[j:j + 1].clone(), i2[j:j + 1].clone())
            alone = list(c1.compressed_flow) == [c.compressed_flow[j]] and list(c1.compressed_residual) == [c.compressed_residual[j]]
            same = r.shape == ref.shape
            ev.append(dict(base, sizes=[list(s[-2:]) for s in c.flow_decomp_sizes], shape=list(r.shape),
                           err_ref=fx((r - ref).abs().max(), 1e9) if same else core.BIG, err_fwd=fx((r - fwd.image2_est.clamp(0, 1)).abs().max(), 1e9) if same else core.BIG,
                           lo=fx(r.min(), 1e6), hi=fx(r.max(), 1e6), alone=alone,
                           strings=[len(c.compressed_flow), len(c.compressed_residual)]))
            ev.append(dict(op="fact", fn="coding-leaves-frames-alone", case=case, holds=d1 == digest(i1) and d2 == digest(i2)))
            # the residual levels follow the same geometry
            rl = layers or 2
            ev.append(dict(op="fact", fn="residual-levels", case=case,
                           holds=len(c.residual_decomp_sizes) == rl and tuple(c.residual_decomp_sizes[0][-2:]) == (h, w)))
            # probabilities are those of the coded latents, and the residual returned is the decoded one
            if k % 5 == 0:
                y, s = m.motion_encoder(m.motion_estimator(i1, i2))
                yh, py = m.motion_entropy_bottleneck(y)
                flow = m.motion_decoder(yh, s)
                ev.append(dict(op="approx", fn="forward-flow", case=case, ok=True, tol=20, v=[core.rel(a, x, 1e-2) for a, x in zip(fwd.flow.flatten()[:30], flow.flatten()[:30])]))
                ev.append(dict(op="approx", fn="forward-flow-probabilities", case=case, ok=True, tol=20, v=[core.rel(a, x, 1e-2) for a, x in zip(fwd.flow_probabilities.flatten()[:30], py.flatten()[:30])]))
                est = m.motion_compensation(i1, warp(i1, flow), flow)
                z, s2 = m.residual_encoder(i2 - est)
                zh, pz = m.residual_entropy_bottleneck(z)
                res = m.residual_decoder(zh, s2)
                ev.append(dict(op="approx", fn="forward-residual-probabilities", case=case, ok=True, tol=20, v=[core.rel(a, x, 1e-2) for a, x in zip(fwd.resid_probabilities.flatten()[:30], pz.flatten()[:30])]))
                ev.append(dict(op="approx", fn="forward-residual", case=case, ok=True, tol=20, v=[core.rel(a, x, 1e-2) for a, x in zip(fwd.residual.flatten()[:30], res.flatten()[:30])]))

    if sum(lively) < len(lively) * 0.8:
        ctx.assumptions.append(f"only {sum(lively)}/{len(lively)} coded pairs have varied latents")

    # ---- sessions: every transition of the stream protocol
    walks = core.covering_walks(edges, dict(tables=0, enc=[], dec=[], flight=0), rng=rng, limit=ctx.pick(700, 4000))
    proto = {"small": built["small"][0], "custom": built["custom"][0]}
    weights = {k: {n: v for n, v in m.state_dict().items() if not any(n.endswith(x) for x in ("_offset", "_quantized_cdf", "_cdf_length"))} for k, m in proto.items()}

    def fresh(kind):
        m = (small if kind == "small" else lambda: DVC(**parts()))().double().eval()
        m.load_state_dict(weights[kind], strict=False)
        return m

    with torch.no_grad():
        for wi, walk in enumerate(walks):
            kind = "small" if wi % 3 == 0 else "custom"
            tx, rx = fresh(kind), fresh(kind)
            h, w = rng.choice([(16, 16), (17, 23), (20, 30)]) if kind == "small" else rng.choice([(5, 9), (8, 8), (13, 6)])
            frames = {k: rand(1, 3, h, w) for k in (1, 2)}
            ev.append(dict(op="session", case=f"w{wi}-{kind}-{h}x{w}"))
            txref = rxref = None
            q = []
            for si, e in enumerate(walk):
                a, case = e["act"], f"w{wi}-{kind}-{h}x{w}.{si}"
                ctx.replayed += 1
                if a["name"] == "update":
                    bt = tx.update(force=a["force"])
                    br = rx.update(force=a["force"])
                    ev.append(dict(op="update", case=case, force=a["force"], built=bool(bt)))
                    ev.append(dict(op="fact", fn="update-same-on-both-sides", case=case, holds=bool(bt) == bool(br)))
                elif a["name"] == "iframe":
                    txref, rxref = frames[a["k"]].clone(), frames[a["k"]].clone()
                    q = []
                    ev.append(dict(op="iframe", case=case, frame=digest(txref)))
                elif a["name"] in ("pframe", "refused"):
                    f = frames[a["k"]]
                    before, fd = digest(txref), digest(f)
                    ok, c, err = guarded(tx.compress, txref, f)
                    if ok:
                        ok, r, err = guarded(tx.decompress, txref, c)
                    if ok:
                        ev.append(dict(op="pframe", case=case, err="", before=before, after=digest(r), untouched=digest(txref) == before and digest(f) == fd))
                        txref = r
                        q.append(c)
                    else:
                        ev.append(dict(op="pframe", case=case, err=err, before=before, after="", untouched=True))
                        if a["name"] == "pframe":
                            break
                elif a["name"] == "deliver":
                    if not q:
                        break
                    c = q.pop(0)
                    before = digest(rxref)
                    ok, r, err = guarded(rx.decompress, rxref, c)
                    ev.append(dict(op="deliver", case=case, err=err, before=before, after=digest(r) if ok else ""))
                    if not ok:
                        break
                    rxref = r

    # ---- tables: each bottleneck is (re)built as asked, whichever already has tables
    with torch.no_grad():
        tab = lambda eb: digest(eb._quantized_cdf, eb._offset, eb._cdf_length)  # noqa: E731
        for mo in (False, True):
            for re_ in (False, True):
                for force in (None, True, False):
                    m = fresh("custom")
                    ebs = (m.motion_entropy_bottleneck, m.residual_entropy_bottleneck)
                    for eb, has in zip(ebs, (mo, re_)):
                        if has:
                            eb.update()
                        eb.quantiles[:, 0, :] += 0.37  # medians moved on since
                        eb.quantiles[:, 0, 2] += 3.0
                    before = [tab(eb) for eb in ebs]
                    got = m.update() if force is None else m.update(force=force)
                    want = []
                    for eb, has, b0 in zip(ebs, (mo, re_), before):
                        rebuilt = (force is not False) or not has
                        c2 = copy.deepcopy(eb)
                        c2.update(force=True)
                        want.append(tab(eb) == (tab(c2) if rebuilt else b0))
                    case = f"update-{mo}-{re_}-{force}"
                    ev.append(dict(op="fact", fn="update-rebuilds-the-tables-asked-for", case=case, holds=all(want)))
                    ev.append(dict(op="fact", fn="update-reports-work", case=case, holds=bool(got) == ((force is not False) or not (mo and re_))))

    # ---- strided coders: every size and depth
    with torch.no_grad():
        for k in range(ctx.pick(120, 600)):
            layers, ks = rng.choice([1, 2, 3, 4]), rng.choice([3, 5, 7])
            gdn = k % 2 == 0
            h, w = rng.randrange(1, 40), rng.randrange(1, 40)
            enc = dv.DVCCompressionEncoder(2, 3, 4, kernel_size=ks, num_conv_layers=layers, use_gdn=gdn).eval()
            dec = dv.DVCCompressionDecoder(3, 2, 4, kernel_size=ks, num_conv_layers=layers, use_gdn=gdn).eval()
            base = dict(op="coder", case=f"coder-{layers}-{ks}-{h}x{w}", h=h, w=w, layers=layers, err="", latent=[], out=[], sizes=[], kept=True)
            ok, res, err = guarded(enc, torch.rand(1, 2, h, w))
            if not ok:
                ev.append(dict(base, err=err))
                continue
            y, s = res
            s0 = list(s)
            ok, o, err = guarded(dec, y, s)
            ok2, o2, _ = guarded(dec, y, s) if ok else (False, None, "")
            ev.append(dict(base, err=err, latent=list(y.shape[-2:]), out=list(o.shape[-2:]) if ok else [], sizes=[list(x[-2:]) for x in s0], kept=list(s) == s0 and ok2))
            for bad in (s0 + s0[:1], s0[:-1]):
                ok, _, err = guarded(dec, y, bad)
                ev.append(dict(op="refuse", fn="wrong-number-of-sizes", case=base["case"], err=err, want="ValueError"))
            free = dec(y)
            want = [y.shape[-2], y.shape[-1]]
            for _ in range(layers):
                want = [2 * n - 1 for n in want]
            ev.append(dict(op="shape", fn="decoder-without-sizes", case=base["case"], got=list(free.shape[-2:]), want=want))

    # ---- pyramid flow: coarse to fine, each level warps that level's image
    with torch.no_grad():
        for k in range(ctx.pick(24, 120)):
            levels = rng.choice([1, 2, 3, 4])
            est = dv.DVCPyramidFlowEstimator(filter_counts=[5, 2], kernel_size=rng.choice([3, 5]), levels=levels).double().eval()
            h, w = rng.randrange(2 ** (levels - 1), 30), rng.randrange(2 ** (levels - 1), 30)
            i1, i2 = rand(2, 3, h, w), rand(2, 3, h, w)
            d = digest(i1, i2)
            case = f"pyramid-{levels}-{h}x{w}-{k}"
            ok, res, err = guarded(est.calculate_flow_with_image_pairs, i1, i2)
            ev.append(dict(op="fact", fn="pyramid-runs", case=case, holds=ok))
            if not ok:
                continue
            flow, pairs = res
            p1, p2 = [i1], [i2]
            for _ in range(levels - 1):
                p1.append(F.avg_pool2d(p1[-1], 2))
                p2.append(F.avg_pool2d(p2[-1], 2))
            f = torch.zeros(2, 2, *p1[-1].shape[-2:], dtype=torch.float64)
            want = []
            mods = getattr(est, "model_levels", None)
            if mods is not None and len(mods) == levels:
                for lv, mod in enumerate(mods):
                    a, b2 = p1[levels - 1 - lv], p2[levels - 1 - lv]
                    f = F.interpolate(f, a.shape[2:], mode="bilinear", align_corners=False)
                    f = f + mod(torch.cat((warp(a, f), b2, f), 1))
                    want.append((warp(a, f), b2))
                ev.append(dict(op="between", fn="pyramid-flow", case=case, lo=0, hi=10, v=[fx((flow - f).abs().max(), 1e9) if flow.shape == f.shape else core.BIG]))
                good = len(pairs) == levels and all(x[0].shape == y[0].shape and float((x[0] - y[0]).abs().max()) < 1e-8 and float((x[1] - y[1]).abs().max()) < 1e-12 for x, y in zip(pairs, want))
                ev.append(dict(op="fact", fn="pyramid-pairs-coarse-to-fine", case=case, holds=bool(good)))
            ev.append(dict(op="fact", fn="flow-size", case=case, holds=tuple(flow.shape) == (2, 2, h, w)))
            ev.append(dict(op="fact", fn="forward-is-the-final-flow", case=case, holds=digest(est(i1, i2)) == digest(flow)))
            ev.append(dict(op="fact", fn="pyramid-leaves-frames-alone", case=case, holds=digest(i1, i2) == d))
            ok, _, err = guarded(est.calculate_flow_with_image_pairs, i1, rand(2, 3, h + 1, w))
            ev.append(dict(op="refuse", fn="mismatched-frames", case=case, err=err, want="ValueError"))

    # ---- motion compensation keeps any size and uses all of its inputs
    with torch.no_grad():
        for k in range(ctx.pick(24, 120)):
            lv = rng.choice([1, 2, 3])
            mc = dv.DVCMotionCompensationModel(model_channels=5, num_levels=lv).double().eval()
            h, w = rng.randrange(2 ** (lv - 1), 24), rng.randrange(2 ** (lv - 1), 24)
            x = [rand(2, 3, h, w), rand(2, 3, h, w), randn(2, 2, h, w)]
            ok, o, err = guarded(mc, *x)
            case = f"compensation-{lv}-{h}x{w}-{k}"
            ev.append(dict(op="fact", fn="compensation-shape", case=case, holds=ok and tuple(o.shape) == (2, 3, h, w)))
            if not ok:
                continue
            sd = mc.state_dict()

            def conv(z, key):
                return F.conv2d(z, sd[key + ".weight"], sd[key + ".bias"], padding=1)

            def block(z, key):
                return z + conv(F.relu(conv(F.relu(z), key + ".block.1")), key + ".block.3")

            def unet(z, key, depth):
                u = block(z, key + ".input_block")
                if depth > 1:
                    u = u + F.interpolate(unet(F.avg_pool2d(u, 2), key + ".child", depth - 1), size=z.shape[2:], mode="nearest")
                return block(u, key + ".output_block")

            try:
                want = conv(F.relu(conv(unet(conv(torch.cat(x, 1), "model.0"), "model.1", lv), "model.2.0")), "model.2.2")
            except KeyError:  # other parameter names: nothing to compare with
                want = None
            if want is not None:
                ev.append(dict(op="between", fn="compensation-is-the-u-net", case=case, lo=0, hi=10, v=[fx((o - want).abs().max(), 1e9)]))
            for j in range(3):
                y = [t.clone() for t in x]
                y[j][0] += 0.7
                o2 = mc(*y)
                ev.append(dict(op="fact", fn="compensation-uses-every-input", case=f"{case}-{j}", holds=float((o2[0] - o[0]).abs().max()) > 1e-9 and float((o2[1] - o[1]).abs().max()) < 1e-12))
    ctx.assumptions.append(f"coded pairs with varied latents and unsaturated output: {sum(lively)}/{len(lively)}")
    ctx.validate("DvcTrace", ev)
