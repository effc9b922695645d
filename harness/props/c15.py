"""C15 learning-rate schedules."""
import copy
import math
import sys
import warnings

from .. import core
from ..core import fx


def run(ctx):
    import torch
    from neuralcompression.optim import IdentitySchedule, RampConstCosineLRSchedule, RampCosineLRSchedule

    sys.path.insert(0, core.REPO + "/projects/torch_vct")
    from utils.schedulers import LinearRampCosineLR, LinearRampLinearLR, LinearWarmUpCosineLR

    warnings.simplefilter("ignore")
    ctx.design("LrSchedule")
    ev, rng = [], ctx.rng

    def optimizer(kind, bases):
        ps = [dict(params=[torch.nn.Parameter(torch.zeros(2))], lr=b) for b in bases]
        return (torch.optim.SGD if kind % 2 else torch.optim.Adam)(ps, lr=0.123)

    def build(kind, opt, ramp, cosn, total, mn, how):
        if kind == "identity":
            return IdentitySchedule(opt)
        if kind == "rampcosine":
            kw = {} if mn is None else dict(min_val=mn)
            return RampCosineLRSchedule(opt, ramp, total, **kw) if how else RampCosineLRSchedule(optimizer=opt, num_max_steps=total, num_ramp_steps=ramp, **kw)
        if kind == "rampconstcosine":
            kw = {} if mn is None else dict(min_val=mn)
            if how:
                return RampConstCosineLRSchedule(opt, total, ramp, cosn, **kw)
            if ramp:
                kw["num_ramp_steps"] = ramp
            if cosn:
                kw["num_cosine_steps"] = cosn
            return RampConstCosineLRSchedule(opt, num_max_steps=total, **kw)
        if kind == "linearramplinear":
            return LinearRampLinearLR(opt, total, ramp_len=ramp) if ramp != 10 else LinearRampLinearLR(opt, total)
        kw = {} if mn is None else dict(eta_min=mn)
        cls = LinearRampCosineLR if kind == "linearrampcosine" else LinearWarmUpCosineLR
        return cls(opt, total, ramp_len=ramp, **kw) if ramp != 10 else cls(opt, T_max=total, **kw)

    kinds = ["identity", "rampcosine", "rampconstcosine", "linearrampcosine", "linearramplinear", "linearwarmupcosine"]
    configs = []
    for k in range(ctx.pick(330, 2000)):
        kind = kinds[k % 6]
        total = rng.choice([1, 2, 3, 5, 8, 11, 12, 20, 40, 40, 97])
        if kind in ("rampcosine", "rampconstcosine"):
            ramp = rng.choice([0, 1, 2, total // 2, total])
            cosn = rng.choice([0, 0, 1, total - ramp, (total - ramp) // 2, total, min(total, total - ramp + 2)])
            mn = rng.choice([None, 1e-3, 0.2])
        else:
            ramp = rng.choice([1, 2, 3, total // 2, total - 1, total, 10])
            ramp, cosn, mn = max(1, min(ramp, total)), 0, rng.choice([None, 0.001, 0.02]) if "cosine" in kind else None
        configs.append((kind, ramp, max(cosn, 0), total, mn))
    for k, (kind, ramp, cosn, total, mn) in enumerate(configs):
        bases = [0.1] if k % 3 else [0.1, 0.5, 2.0]
        case = f"{kind}-r{ramp}-c{cosn}-T{total}-m{mn}"
        opt = optimizer(k, bases)
        e0 = dict(op="lr", kind=kind, ramp=max(ramp, 1), cosn=cosn, total=total, step=0, f=[], num=0, den=1, decay=0, floor=0, same=True, err="")
        ok, sch, err = core.guarded(build, kind, opt, ramp, cosn, total, mn, k % 2)
        if not ok:
            ev.append(dict(e0, case=case + "-new", err=err))
            continue
        last = total + (ramp + (3 * total // 2 if k % 2 else 0) if kind == "rampcosine" else 2 * cosn + 3 if kind == "rampconstcosine" else 3 if kind in ("identity", "linearramplinear") else -1)
        saves = {}
        restores = 0
        s = 0
        while True:
            lrs = [g["lr"] for g in opt.param_groups]
            if kind in ("rampcosine", "rampconstcosine"):
                floor = 1e-12 if mn is None else mn
                if kind == "rampcosine":
                    num, den = s - ramp, total
                else:
                    num, den = min(s - (total - cosn), cosn), cosn
                decay = [math.cos(num / den * math.pi / 2) if den and num >= 0 else 0.0] * len(bases)
                fs = [lr / b for lr, b in zip(lrs, bases)]
                same_decay = decay[0]
            else:
                em = mn or 0.0
                floor = 0.0
                num, den = max(s - ramp, 0), max(total - ramp - 1, 1)
                c = (1 + math.cos(math.pi * num / den)) / 2
                fs = []
                indecay = s >= ramp and "cosine" in kind
                for lr, b in zip(lrs, bases):
                    # normalise to the decay profile between eta_min and the base
                    fs.append((lr - em) / (b - em) if indecay and b != em else lr / b)
                same_decay = c
            r0 = ramp if ramp > 0 or kind != "rampcosine" else 0
            e = dict(e0, case=f"{case}-s{s}", ramp=r0 if r0 else 0, step=s, f=[fx(v, 1e6) for v in fs], num=num if num >= 0 else 0, den=den or 1, decay=fx(same_decay, 1e6), floor=fx(floor, 1e6))
            if s in saves and restores < 3:
                e["same"] = lrs == saves[s][1]
            # the scheduler's own view agrees with the optimiser
            e["same"] = e["same"] and [float(v) for v in sch.get_last_lr()] == lrs
            ev.append(e)
            if s >= last:
                break
            if rng.random() < 0.25:
                saves[s] = (copy.deepcopy(sch.state_dict()), list(lrs), copy.deepcopy(opt.state_dict()))
            if saves and rng.random() < 0.12 and restores < 3:
                # resume in a fresh optimiser and scheduler
                restores += 1
                s = rng.choice(sorted(saves))
                st, _, ost = saves[s]
                opt = optimizer(k, bases)
                sch = build(kind, opt, ramp, cosn, total, mn, k % 2)
                opt.load_state_dict(copy.deepcopy(ost))
                sch.load_state_dict(copy.deepcopy(st))
                continue
            opt.step()
            ok, _, err = core.guarded(sch.step)
            if not ok:
                ev.append(dict(e0, case=f"{case}-s{s + 1}", err=err))
                break
            s += 1
            ctx.replayed += 1
    ctx.validate("LrTrace", ev)
