import torch


class LightningModule(torch.nn.Module):
    """Records what is logged and hands out the optimisers it was given."""

    def __init__(self):
        super().__init__()
        self.automatic_optimization = True
        object.__setattr__(self, "_rec", {"log": [], "clip": [], "backward": 0})
        object.__setattr__(self, "_opts", None)
        object.__setattr__(self, "trainer", None)

    @property
    def device(self):
        return torch.device("cpu")

    @property
    def dtype(self):
        return torch.float32

    @property
    def global_step(self):
        return self.trainer.global_step

    @property
    def current_epoch(self):
        return self.trainer.current_epoch

    def log(self, name, value, *a, **k):
        self._rec["log"].append((name, value, k))

    def log_dict(self, d, *a, **k):
        for n, v in d.items():
            self._rec["log"].append((n, v, k))

    def manual_backward(self, loss, *a, **k):
        self._rec["backward"] += 1
        loss.backward(*a, **k)

    def optimizers(self, *a, **k):
        o = self._opts[0]
        return list(o) if len(o) > 1 else o[0]

    def lr_schedulers(self):
        o = self._opts[1]
        return list(o) if len(o) > 1 else o[0]

    def clip_gradients(self, optimizer, gradient_clip_val=None, gradient_clip_algorithm=None):
        self._rec["clip"].append((optimizer, gradient_clip_val, gradient_clip_algorithm))
        ps = [p for g in optimizer.param_groups for p in g["params"]]
        if gradient_clip_algorithm in (None, "norm"):
            torch.nn.utils.clip_grad_norm_(ps, gradient_clip_val)
        else:
            torch.nn.utils.clip_grad_value_(ps, gradient_clip_val)

    def on_load_checkpoint(self, checkpoint):
        return None

    def on_train_epoch_start(self):
        return None

    def on_test_epoch_start(self):
        return None

    def on_validation_epoch_start(self):
        return None

    def save_hyperparameters(self, *a, **k):
        return None


class LightningDataModule:
    def __init__(self):
        pass


class Callback:
    pass


class Trainer:
    """What a run does is up to the check: on_fit and on_test are called."""

    on_fit = on_test = None
    global_step = 0
    global_rank = 0

    def __init__(self, **k):
        self.kwargs = k
        self.callbacks = k.get("callbacks") or []
        self.logger = k.get("logger")

    def fit(self, *a, **k):
        return type(self).on_fit(self, *a, **k)

    def test(self, *a, **k):
        return type(self).on_test(self, *a, **k)


def seed_everything(*a, **k):
    return None
