"""C16 rate targeting and the (adversarial) training step of projects/illm."""
import copy
import math
import types

from .. import core, illm
from ..core import fx, rel


def run(ctx):
    import torch
    from neuralcompression.loss_fn import (BinaryCrossentropyDiscriminatorLoss, BinaryCrossentropyGeneratorLoss, MSELoss, OASISDiscriminatorLoss, OASISGeneratorLoss,
                                           TargetRateConfig)

    ctx.design("RateTarget")
    ctx.design("GanTrain")
    ns = illm.load()
    st = illm.make_stubs()
    from omegaconf import DictConfig

    ev, rng, g = [], ctx.rng, ctx.torch_gen(16)

    # --- configuration object
    for nts in range(4):
        for ntf in range(5):
            for nls, nlf in [(0, 1), (1, 2), (2, 2), (1, 3), (0, 0), (2, 3)]:
                ts, tf, ls, lf = list(range(10, 10 + nts)), [1.0 + i for i in range(ntf)], list(range(5, 5 + nls)), [0.5 + i for i in range(nlf)]
                ok, c, err = core.guarded(TargetRateConfig, 0.3, tf, ts, (0.1, 2.0), lf, ls)
                kept = ok and (c.target_bpp, c.target_factors, c.target_steps, tuple(c.lam_levels), c.lam2_factors, c.lam2_steps) == (0.3, tf, ts, (0.1, 2.0), lf, ls)
                ev.append(dict(op="config", case=f"cfg-{nts}-{ntf}-{nls}-{nlf}", nts=nts, ntf=ntf, nls=nls, nlf=nlf, err=err, kept=bool(kept)))

    def opt_cfg(k):
        def o(lr):
            return {"_target_": "torch.optim.SGD", "lr": lr}
        s = {"_target_": "torch.optim.lr_scheduler.StepLR", "step_size": 1, "gamma": 0.5}
        return DictConfig(model_opt=o(0.4), discriminator_opt=o(0.3), aux_opt=o(0.2), model_opt_schedule=dict(s), discriminator_opt_schedule=dict(s), aux_opt_schedule=dict(s))

    def target_module(cfg, step=0, **kw):
        m = ns.target.TargetRateCompressionModule(model=kw.pop("model", None) or st.Model(), target_rate_config=cfg, optimizer_config=opt_cfg(0), **kw)
        m.trainer = types.SimpleNamespace(global_step=step)
        return m

    def pow2(shape, hi):
        return torch.randint(1, hi, shape, generator=g)

    def rates(m, nl, nh, ql, qh, h, w):
        like = [torch.pow(2.0, -t.double()).float().requires_grad_(True) for t in (nl, ql, nh, qh)]
        n = nl.shape[0]
        out = m.rate_loss(original=torch.zeros(n, 3, h, w), latent_likelihoods=like[0], quantized_latent_likelihoods=like[1], hyper_latent_likelihoods=like[2], quantized_hyper_latent_likelihoods=like[3])
        return out, like

    # --- stage of training
    shapes = (torch.ones(1, 1, 2, 2, dtype=torch.long),) * 4
    base = target_module(TargetRateConfig(1.0, [1.0], [], (1.0, 2.0), [1.0], []))
    for k in range(ctx.pick(60, 400)):
        def plan():
            n = rng.randint(0, 3)
            ss = sorted(rng.sample(range(1, 40), n)) if rng.random() < 0.8 else sorted(rng.choice([3, 3, 9, 17]) for _ in range(n))
            ff = [rng.choice([0.5, 1.0, 1.429, 2.0, 0.25, 3.0]) for _ in range(n + 1)]
            return ss, ff
        (ts, tf), (ls, lf) = plan(), plan()
        tb, l2 = rng.choice([0.14, 1.0, 0.00218, 4.0]), rng.choice([2.0, 0.5, 16.0])
        m = base
        m.target_rate_config = TargetRateConfig(tb, tf, ts, (0.01, l2), lf, ls)
        for gs in sorted(set([0, 1] + [s + d for s in ts + ls for d in (-1, 0, 1) if s + d >= 0] + [100, 10**6])):
            m.trainer.global_step = gs
            ok, r, err = core.guarded(rates, m, *shapes, 4, 4)
            ev.append(dict(op="sched", case=f"sched{k}-g{gs}", ts=ts, ls=ls, tf=[fx(f, 1e3) for f in tf], lf=[fx(f, 1e3) for f in lf], g=gs, err=err,
                           target=fx(r[0].target / tb, 1e3) if ok else 0, lam2=fx(r[0].lam2 / l2, 1e3) if ok else 0))
            ctx.replayed += 1

    # --- rate loss
    for k in range(ctx.pick(150, 1500)):
        n, h, w = rng.choice([1, 2, 3, 5]), rng.choice([2, 4, 5, 8, 16]), rng.choice([2, 3, 4, 8, 12])
        c1, c2, hi = rng.choice([1, 3]), rng.choice([1, 2]), rng.choice([2, 4, 12])
        nl, ql = pow2((n, c1, 2, 3), hi), pow2((n, c1, 2, 3), hi)
        nh, qh = pow2((n, c2, 1, 2), hi), pow2((n, c2, 1, 2), hi)
        bl = [t.flatten(1).sum(1).tolist() for t in (nl, nh, ql, qh)]
        px, tie = h * w, k % 10 == 0
        qt = [a + b for a, b in zip(bl[2], bl[3])]
        if tie:
            nl, ql, nh, qh = (torch.zeros_like(t) for t in (nl, ql, nh, qh))
            bl, target, ts_ = [[0] * n] * 4, 0, 1
            tb = 0.0
        else:
            edge = rng.choice(qt) + rng.choice([-1, 0, 0, 1, 40, -40])
            target, ts_ = 2 * max(edge, 0) + 1, 2 * px
            tb = target / ts_
            target, ts_ = 2 * max(edge, 0) + 1, 2  # compare b * 2 > target (pixels cancelled)
        lam1, lam2 = rng.choice([(1, 2), (1, 8), (2, 5), (3, 3), (0, 4)])
        m = base
        # the same target and penalty reached through a factor, to tie both halves together
        f = rng.choice([1.0, 2.0, 0.5])
        m.target_rate_config = TargetRateConfig(tb / f, [7.0, f], [5], (float(lam1), lam2 / f), [9.0, f], [5])
        m.trainer.global_step = rng.choice([5, 6, 1000])
        e = dict(op="rate", case=f"rate{k}-n{n}-{h}x{w}-t{target}", ql=bl[2], qh=bl[3], nl=bl[0], nh=bl[1], px=1, target=target, tscale=ts_, lam1=lam1, lam2=lam2, tol=1)
        ok, r, err = core.guarded(rates, m, nl, nh, ql, qh, h, w)
        if ok:
            out, like = r
            grads = torch.autograd.grad(out.rate_loss, like, allow_unused=True)
            sc = n * px
            lamg = []
            for i in range(n):
                v = [-(gr[i] * like[j][i]).detach() * sc * math.log(2) if gr is not None else torch.full((1,), 1e6) for j, gr in ((0, grads[0]), (2, grads[2]))]
                v = torch.cat([t.flatten() for t in v])
                lamg.append(fx(v.mean(), 1) if float(v.max() - v.min()) < 1e-2 else -1)
            e.update(err="", loss=fx(out.rate_loss * sc, 1), grad=lamg, qgradzero=all(gr is None or float(gr.abs().max()) == 0 for gr in (grads[1], grads[3])),
                     got=dict(total=fx(out.total_bpp * sc, 1), latent=fx(out.latent_bpp * sc, 1), hyper=fx(out.hyper_bpp * sc, 1), qtotal=fx(out.quantized_total_bpp * sc, 1),
                              qlatent=fx(out.quantized_latent_bpp * sc, 1), qhyper=fx(out.quantized_hyper_bpp * sc, 1)))
        else:
            e.update(err=err, loss=0, grad=[0] * n, qgradzero=True, got=dict(total=0, latent=0, hyper=0, qtotal=0, qlatent=0, qhyper=0))
        ev.append(e)
        ctx.replayed += 1

    # --- whole training steps
    class Dist(MSELoss):
        refs = None

        def __call__(self, image, reference):
            if self.refs is not None:
                self.refs.append(reference.detach().clone())
            return super().__call__(image, reference)

    def ident(batch, t):
        """indices (1-based) of batch images contained in t"""
        return [i + 1 for i in range(len(batch)) if any(torch.equal(batch[i], x) for x in t)]

    def bpp(like, px):
        return -torch.log2(like).flatten(1).sum(1) / px

    def ref_rate(out, px, tgt, l1, l2):
        q = bpp(out.quantized_latent_likelihoods, px) + bpp(out.quantized_hyper_latent_likelihoods, px)
        lam = torch.tensor([l2 if v > tgt else l1 for v in q.tolist()])
        return (lam * (bpp(out.latent_likelihoods, px) + bpp(out.hyper_latent_likelihoods, px))).mean()

    def clipg(gs, val, alg):
        if val is None:
            return gs
        if alg == "value":
            return [t.clamp(-val, val) for t in gs]
        tot = math.sqrt(sum(float((t.double() ** 2).sum()) for t in gs))
        c = min(1.0, val / (tot + 1e-6))
        return [t * c for t in gs]

    for k in range(ctx.pick(48, 300)):
        adv = k % 4 != 0
        mc = adv and k % 2 == 0
        quant = not adv or k % 3 != 1
        cond = k % 5 != 3
        proj = adv and k % 3 != 2
        frozen = k % 7 in (2, 5)
        clip, alg = rng.choice([(None, "norm"), (0.05, "norm"), (0.001, "value"), (3.0, "norm")])
        torch.manual_seed(ctx.seed * 1000 + k)
        model = st.Model(frozen=frozen, quantiles=quant)
        nclass = 4 if proj else 1
        tgt, l1, l2 = rng.choice([0.3, 2.0, 100.0, 0.0]), 0.25, 3.0
        cfg = TargetRateConfig(tgt, [2.0, 1.0], [2], (l1, l2), [0.5, 1.0], [3])
        dist = Dist(rng.choice([1.0, 255.0, 10.0]))
        dlam, gw = rng.choice([1.0, 0.1, 3.0]), rng.choice([1.0, 0.25, 2.0])
        kw = dict(distortion_lam=dlam, distortion_loss=dist, gradient_clip_val=clip, gradient_clip_algorithm=alg)
        gl, dl = (OASISGeneratorLoss(), OASISDiscriminatorLoss()) if proj else (BinaryCrossentropyGeneratorLoss(), BinaryCrossentropyDiscriminatorLoss())
        disc = st.Disc(cond, nclass + 1 if proj else 1) if adv else None
        pr = st.Projector(nclass) if proj else None
        if adv:
            mod = ns.gan.GANCompressionModule(model=model, target_rate_config=cfg, discriminator=disc, discriminator_loss=dl, generator_loss=gl, optimizer_config=opt_cfg(k), latent_projector=pr, generator_weight=gw, mc_sampling=mc, **kw)
        else:
            mod = ns.target.TargetRateCompressionModule(model=model, target_rate_config=cfg, optimizer_config=opt_cfg(k), **kw)
        mod.trainer = types.SimpleNamespace(global_step=0)
        mod._opts = mod.configure_optimizers()
        # every run starts from a state some other run could have left behind
        groups = {"model": [p for n, p in model.named_parameters() if not n.endswith("quantiles") and not (frozen and n.startswith("enc."))],
                  "quantiles": [model.hyper_bottleneck.quantiles], "disc": list(disc.parameters()) if disc else [], "frozen": list(model.enc.parameters()) if frozen else [],
                  "projector": list(pr.parameters()) if pr else []}
        for p in groups["model"] + groups["disc"] + groups["quantiles"]:
            if rng.random() < 0.3:
                p.grad = torch.randn(p.shape, generator=g)
        discseen = []
        if disc is not None:
            disc.register_forward_pre_hook(lambda m_, a: discseen.append(a[0].detach().clone()))
        for s in range(3):
            n = rng.choice([2, 3, 4, 5]) if mc else rng.choice([1, 2, 3])
            h, w = rng.choice([(176, 180), (176, 176), (192, 176)])
            batch = torch.rand(n, 3, h, w, generator=g)
            gs_now = s
            mod.trainer.global_step = gs_now
            t_now, l2_now = tgt * (2.0 if gs_now < 2 else 1.0), l2 * (0.5 if gs_now < 3 else 1.0)
            lrs = [0.4 * 0.5**s, 0.3 * 0.5**s, 0.2 * 0.5**s]
            # reference update on copies
            rm, rd = copy.deepcopy(model), copy.deepcopy(disc)
            mi = batch[: n // 2] if mc else batch
            di = batch[n // 2: 2 * (n // 2)] if mc else batch
            px = h * w
            names = [nm for nm, p in rm.named_parameters() if not nm.endswith("quantiles") and not (frozen and nm.startswith("enc."))]
            pars = dict(rm.named_parameters())
            for p in list(rm.parameters()) + (list(rd.parameters()) if rd else []):
                p.requires_grad_(True)
                p.grad = None
            out = rm(mi)
            loss = dlam * dist.scale_param * torch.nn.functional.mse_loss(out.image, mi) + ref_rate(out, px, t_now, l1, l2_now)

            def rdisc(im, la):
                return rd(im, la.detach()) if cond else rd(im)

            want = {}
            if adv:
                ft = pr(mi) if proj else torch.tensor(1.0)
                rt = pr(di) if proj else torch.tensor(1.0)
                lg = rdisc(out.image, out.latent)
                ce = torch.nn.functional.cross_entropy
                bce = torch.nn.functional.binary_cross_entropy_with_logits
                loss = loss + gw * (ce(lg, ft + 1) if proj else bce(lg, torch.ones_like(lg)))
            gr = torch.autograd.grad(loss, [pars[nm] for nm in names], retain_graph=True, allow_unused=True)
            gr = clipg([torch.zeros_like(pars[nm]) if t is None else t for t, nm in zip(gr, names)], clip, alg)
            fake = (out.image.detach().clone(), out.latent.detach().clone())
            oldlat = out.latent.detach().clone()
            with torch.no_grad():
                for nm, t in zip(names, gr):
                    pars[nm] -= lrs[0] * t
            want["model"] = [pars[nm].detach().clone() for nm in names]
            if adv:
                with torch.no_grad():
                    rl = rm(di).latent if mc else oldlat
                real, fk = rdisc(di, rl), rdisc(*fake)
                if proj:
                    dloss = 0.5 * (ce(real, rt + 1) + ce(fk, torch.zeros_like(rt)))
                else:
                    dloss = 0.5 * (bce(real, torch.ones_like(real)) + bce(fk, torch.zeros_like(fk)))
                dp = list(rd.parameters())
                dg = clipg(list(torch.autograd.grad(dloss, dp)), clip, alg)
                with torch.no_grad():
                    want["disc"] = [p - lrs[1] * t for p, t in zip(dp, dg)]
            if quant:
                q = rm.hyper_bottleneck.quantiles
                qg = torch.autograd.grad(rm.hyper_bottleneck.loss(), [q])[0]
                want["quantiles"] = [(q - lrs[2] * qg).detach()]
            # the real step
            before = {p: [t.detach().clone() for t in ts] for p, ts in groups.items()}
            dist.refs, discseen[:] = [], []
            mod._rec["clip"].clear()
            mod._rec["log"].clear()
            ok, _, err = core.guarded(mod.training_step, batch, s)
            moved = [p for p, ts in groups.items() if ts and any(not torch.equal(a, b.detach()) for a, b in zip(before[p], ts))]
            case = f"step{k}.{s}-{'gan' if adv else 'plain'}{'-mc' if mc else ''}{'-proj' if proj else ''}{'' if cond else '-uncond'}{'-frozen' if frozen else ''}{'' if quant else '-noq'}"
            opts = mod._opts[0]
            owner = {id(ts[0]): p for p, ts in groups.items() if ts}
            cl = []
            for o, v, a in mod._rec["clip"]:
                if v == clip and a == alg:
                    cl.append(owner.get(id(o.param_groups[0]["params"][0]), "?"))
            ev.append(dict(op="step", case=case, adv=adv, mc=mc, quant=quant, n=n, k=s + 1, err=err, moved=moved,
                           touched=moved + [p for p in ("frozen", "projector") if any(t.requires_grad for t in groups[p])], clip=clip is not None,
                           clipped=cl, modelimgs=ident(batch, [x for r_ in dist.refs for x in r_]), discimgs=ident(batch, [x for r_ in discseen for x in r_]),
                           sched=[round(math.log2(lr0 / o.param_groups[0]["lr"])) for lr0, o in zip([0.4, 0.3, 0.2] if adv else [0.4, 0.2], opts)]))
            for p, ref in want.items():
                # updates, not values: relative to the size of the update
                for i, (b0, a, r_) in enumerate(zip(before[p], groups[p], ref)):
                    du, dr = (a.detach() - b0).double(), (r_ - b0).double()
                    fl = max(float(dr.abs().max()), 1e-9, 1e-4 * float(b0.abs().max()))
                    j = (du - dr).abs().flatten().argmax()
                    ev.append(dict(op="approx", fn=f"update-of-{p}", case=f"{case}-{p}{i}", ok=True, v=[rel(du.flatten()[j], dr.flatten()[j], fl)], tol=int(2e6 + 2e8 * 1e-5 * float(b0.abs().max()) / fl)))
            # logged numbers are those of the step
            logged = {n_: v for n_, v, _ in mod._rec["log"]}
            for nm, val in [("train/total_model_loss" if adv else "train/total_loss", loss)] + ([("train/discriminator_loss", dloss)] if adv else []):
                if ok:
                    ev.append(dict(op="approx", fn="logged-loss", case=f"{case}-{nm}", ok=nm in logged, v=[rel(logged.get(nm, 0), val, 1e-6)], tol=200000))
            ctx.replayed += 1
    ctx.validate("TrainTrace", ev)
