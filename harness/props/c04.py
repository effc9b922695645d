"""C04 autoregressive entropy model of the video codec: causal and lossless."""
import copy

from .. import core
from ..core import digest, fx


def run(ctx):
    import torch
    from projects.torch_vct.neural.entropy_model import VCTEntropyModel
    from . import vctlib

    ctx.design("VctCausal")
    ev = []
    rng, g = ctx.rng, ctx.torch_gen(4)
    cfgs = [dict(ch=3, ctx=2, we=4, wd=2), dict(ch=2, ctx=1, we=2, wd=2, heads=4), dict(ch=4, ctx=3, we=6, wd=2, enc=2),
            dict(ch=2, ctx=2, we=9, wd=3, joint=2, dec=1), dict(ch=2, ctx=1, we=4, wd=4), dict(ch=2, ctx=2, we=5, wd=5, dec=1)]
    if ctx.thorough:
        cfgs += [dict(ch=5, ctx=2, we=8, wd=4), dict(ch=2, ctx=3, we=4, wd=4, dec=3), dict(ch=1, ctx=1, we=6, wd=6)]
    n_tok, n_ctx, n_cmp = ctx.pick((8, 6, 7), (60, 40, 40))

    def rnd(*s, scale=6.0):
        return torch.randn(*s, generator=g) * scale

    for ci, cf in enumerate(cfgs):
        v = vctlib.model(ctx.seed * 10 + ci, **cf)
        v2 = copy.deepcopy(v)
        C, wd, we, n = cf["ch"], cf["wd"], cf["we"], cf["ctx"]
        S = wd * wd
        with torch.no_grad():
            # ---- causality of the one-pass evaluation
            for k in range(n_tok):
                B = 1 + k % 2
                nh, nw = rng.choice([(2, 3), (3, 2), (2, 2)])
                H, W = nh * wd, nw * wd
                if we - wd >= 2 * min(H, W) or (we - wd) // 2 >= min(H, W):
                    continue
                # ordinary latents, and latents far larger than the model's normalisation
                scale = (6.0, 6.0, 120.0)[k % 3]
                prev = [v.process_previous_latent_q(rnd(B, C, H, W, scale=scale).round()) for _ in range(n)]
                x = rnd(B, C, H, W, scale=scale)
                o0 = v(x, prev)
                b, win, pos = rng.randrange(B), rng.randrange(nh * nw), (k * 3) % S
                y0, x0 = (win // nw) * wd + pos // wd, (win % nw) * wd + pos % wd
                x2 = x.clone()
                d = rng.choice([-60.0, 60.0]) * scale / 6
                x2[b, rng.randrange(C), y0, x0] += d if abs(x[b, :, y0, x0].sum() + d) > abs(d) / 2 else -d
                o1 = v(x2, prev)
                fd = (o0.features - o1.features).abs().amax(1)  # B,H,W
                feat = [[bb * nh * nw + (yy // wd) * nw + xx // wd, (yy % wd) * wd + xx % wd]
                        for bb, yy, xx in (fd > 1e-5).nonzero().tolist()]
                ld = (o0.bits - o1.bits).abs().amax(-1)  # b', S
                rel = ld / (o0.bits.amax(-1) + 1e-30)
                lik = [list(map(int, t)) for t in ((ld > 1e-6) | ((rel > 1e-3) & (ld > 1e-8))).nonzero().tolist()]
                me = [b * nh * nw + win, pos]
                ev.append(dict(op="token", case=f"cfg{ci}-tok{k}-win{me[0]}-pos{pos}", win=me[0], pos=pos, wd=wd, feat=feat, lik=lik))
            # ---- reach of the context
            for k in range(n_ctx):
                H, W = rng.randint(wd + 1, 3 * wd + 1), rng.randint(wd + 1, 3 * wd + 1)
                m = (we - wd) // 2
                ok_geo = all(m < s and (-s % wd) + m < s for s in (H, W))
                if not ok_geo:
                    H, W = 2 * wd, 3 * wd
                    if m >= min(H, W):
                        continue
                scale = (6.0, 120.0)[k % 2]
                lat = [rnd(1, C, H, W, scale=scale).round() for _ in range(n)]
                which, yy, xx = rng.randrange(n), rng.randrange(H), rng.randrange(W)
                lat2 = [t.clone() for t in lat]
                lat2[which][0, rng.randrange(C), yy, xx] += 80.0 * scale / 6
                x = rnd(1, C, H, W)
                o0 = v(x, [v.process_previous_latent_q(t) for t in lat])
                o1 = v(x, [v.process_previous_latent_q(t) for t in lat2])
                fd = (o0.features - o1.features).abs().amax(1)[0]
                nw = -(-W // wd)
                wins = sorted({(a // wd) * nw + b // wd for a, b in (fd > 1e-7).nonzero().tolist()})
                ev.append(dict(op="context", case=f"cfg{ci}-ctx{k}-{H}x{W}-{which}@{yy},{xx}", wd=wd, we=we, h=H, w=W, y=yy, x=xx,
                               wins=wins))
            # ---- fewer previous frames than the context
            H, W = 2 * wd, 2 * wd
            if (we - wd) // 2 < min(H, W):
                p = {nme: v.process_previous_latent_q(rnd(1, C, H, W).round()) for nme in "abc"}
                x = rnd(1, C, H, W)
                import itertools
                for L in range(1, n + 1):
                    for given in itertools.permutations("abc", L):
                        fulls = list(itertools.product("abc", repeat=n))
                        ok, o, err = core.guarded(v, x, [p[q] for q in given])
                        if rng.random() > ctx.pick(0.5, 1.0) and L > 1:
                            continue
                        for full in rng.sample(fulls, min(len(fulls), 5)) + [tuple(given[0] for _ in range(n - L)) + given]:
                            o2 = v(x, [p[q] for q in full])
                            same = ok and torch.equal(o.features, o2.features) and torch.equal(o.bits, o2.bits)
                            ev.append(dict(op="fill", case=f"cfg{ci}-{''.join(given)}-{''.join(full)}", n=n, given=list(given),
                                           full=list(full), ok=ok, err=err, same=bool(same)))
            # ---- real coding
            for k in range(n_cmp):
                H, W = rng.randint(wd + 1, 2 * wd + 2), rng.randint(wd + 1, 2 * wd + 2)
                m = (we - wd) // 2
                if not all(m < s and (-s % wd) + m < s for s in (H, W)):
                    H, W = 2 * wd, 2 * wd
                    if m >= 2 * wd:
                        continue
                np_ = 1 + k % n
                prev = [v.process_previous_latent_q(rnd(1, C, H, W).round()) for _ in range(np_)]
                x = rnd(1, C, H, W, scale=rng.choice([1.0, 6.0, 40.0]))
                tie = k % 5 == 4
                if tie:
                    x = (x.round() + 0.5)
                else:
                    x = torch.where((x - x.floor() - 0.5).abs() < 0.02, x + 0.1, x)
                case = f"cfg{ci}-code{k}-{H}x{W}-p{np_}{'-tie' if tie else ''}"
                logs = {}

                def logged(mod, tag):
                    orig = mod.bottleneck.compress

                    def f(*a, **kw):
                        out = orig(*a, **kw)
                        logs.setdefault(tag, []).extend(bytes(s) for s in out[1])
                        return out

                    mod.bottleneck.compress = f
                    return lambda: mod.bottleneck.__dict__.pop("compress", None)

                undo = logged(v, "a")
                ok, o, err = core.guarded(v.compress, latent_unquantized=x, previous_latents=prev, run_decode=True)
                undo()
                undo = logged(v2, "b")
                ok2, o2, err2 = core.guarded(v2.compress, latent_unquantized=x, previous_latents=prev, run_decode=False)
                undo()
                e = dict(op="compress", case=case, ok=ok and ok2, err=err + err2, tie=tie)
                if ok and ok2:
                    fw = v(x, prev)
                    a, b = logs.get("a", []), logs.get("b", [])
                    rep = o.perturbed_latent
                    e.update(bits=int(o.bits.sum()), nbytes=sum(map(len, a)), nstr=len(a), rep=digest(rep + 0.0), want=digest(torch.round(x) + 0.0),
                             far=int(bool(((rep - x).abs() > 0.5001).any())), lazy=digest(o2.perturbed_latent + 0.0),
                             f1=digest(o.features), f2=digest(o2.features), ferr=fx((o.features - fw.features).abs().max(), 1e6),
                             fwd=digest(fw.perturbed_latent + 0.0), ideal=int(-fw.bits.double().log2().sum()), bytes=digest(*a), other=digest(*b))
                    if not a:
                        e["nbytes"] = e["bits"] // 8
                    # a receiver that computes its own predictions
                    if hasattr(v, "_encode") and hasattr(v, "_decode") and hasattr(v, "_get_encoded_seqs"):
                        enc = torch.cat(v._get_encoded_seqs(prev), -2)
                        st, ex = v._encode(v.patcher(x, wd)[0], enc)
                        okd, dec, _ = core.guarded(v._decode, list(st), enc, (H, W, C), ex["means"], ex["scales"],
                                                   use_output_from_encode=False)
                        e["recv"] = digest(dec + 0.0) if okd else "raised"
                ev.append(e)
        # ---- the model's own validation: accepts its causal self, refuses one that looks ahead in means or scales
        with torch.no_grad():
            H = W = 2 * wd
            if (we - wd) // 2 < H:
                prev = [v.process_previous_latent_q(rnd(1, C, H, W).round()) for _ in range(n)]
                x = rnd(1, C, H, W)
                _, _, err = core.guarded(v.compress, latent_unquantized=x, previous_latents=prev, validate_causal=True)
                ev.append(dict(op="reject", case=f"cfg{ci}-validate-causal", err=err, want=[""]))
                for what in ("both", "mean", "scale"):
                    w = copy.deepcopy(v)
                    masks = [q for nme, q in w.named_buffers() if nme.endswith("look_ahead_mask")]
                    if not masks:
                        continue
                    for q in masks:
                        q.zero_()
                    # a head that ignores its input cannot look ahead
                    head = {"mean": w.scale_head, "scale": w.mean_head}.get(what)
                    if head is not None:
                        head[-1].weight.zero_()
                    _, _, err = core.guarded(w.compress, latent_unquantized=x, previous_latents=prev, validate_causal=True)
                    ev.append(dict(op="reject", case=f"cfg{ci}-validate-lookahead-{what}", err=err, want=["ValueError"]))
        # ---- rejected calls
        with torch.no_grad():
            H = W = 2 * wd
            if (we - wd) // 2 < H:
                pb = [v.process_previous_latent_q(rnd(2, C, H, W).round())] * n
                _, _, err = core.guarded(v.compress, latent_unquantized=rnd(2, C, H, W), previous_latents=pb)
                ev.append(dict(op="reject", case=f"cfg{ci}-batch2-compress", err=err, want=["AssertionError", "ValueError", "NotImplementedError"]))
                p1 = v.process_previous_latent_q(rnd(1, C, H, W).round())
                bad = p1._replace(processed=p1.processed[..., :-1])
                _, _, err = core.guarded(v, rnd(1, C, H, W), [bad] * n)
                ev.append(dict(op="reject", case=f"cfg{ci}-unprocessed", err=err, want=["ValueError"]))
                _, _, err = core.guarded(v, rnd(2, C, H, W), [p1] * n)
                ev.append(dict(op="reject", case=f"cfg{ci}-batch-mismatch", err=err, want=["ValueError"]))
                p2 = v.process_previous_latent_q(rnd(2, C, H, W).round())
                _, _, err = core.guarded(v, rnd(1, C, H, W), [p2] * n)
                ev.append(dict(op="reject", case=f"cfg{ci}-context-of-more", err=err, want=["ValueError"]))
                _, _, err = core.guarded(v, rnd(1, C + 1, H, W), [p1] * n)
                ev.append(dict(op="reject", case=f"cfg{ci}-channels", err=err, want=["ValueError", "RuntimeError"]))
    _, _, err = core.guarded(VCTEntropyModel, num_channels=2, window_size_enc=2, window_size_dec=4, d_model=8, num_head=2)
    ev.append(dict(op="reject", case="enc-window-smaller", err=err, want=["ValueError"]))
    with torch.no_grad():
        v = vctlib.model(3, ch=2, ctx=4, we=2, wd=2)
        p1 = v.process_previous_latent_q(rnd(1, 2, 4, 4).round())
        _, _, err = core.guarded(v, rnd(1, 2, 4, 4), [p1])
        ev.append(dict(op="reject", case="short-context-unsupported-length", err=err, want=["ValueError"]))
        ok, _, err = core.guarded(v, rnd(1, 2, 4, 4), [p1] * 4)
        ev.append(dict(op="reject", case="full-context-of-four", err=err, want=[""]))
    ctx.validate("VctCausalTrace", ev)
