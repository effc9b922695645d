import os


def find_ema_checkpoint(main, step, rate):
    if main is None:
        return None
    p = os.path.join(os.path.dirname(main), f"ema_{rate}_{step:06d}.pt")
    return p if os.path.exists(p) else None


class TrainLoop:
    """the parts of the training loop that the project's own methods rely on"""

    def __init__(self, *, model, diffusion=None, data=None, resume_checkpoint=None, ema_rate="0.9999", **settings):
        self.model, self.diffusion, self.data, self.settings = model, diffusion, data, settings
        self.resume_checkpoint, self.resume_step = resume_checkpoint, 0
        self._load_and_sync_parameters()
        self.master_params = list(model.parameters())
        rates = [ema_rate] if isinstance(ema_rate, float) else [float(x) for x in ema_rate.split(",")]
        self.ema_params = [self._load_ema_parameters(r) for r in rates]
        self.ran = 0

    def _state_dict_to_master_params(self, sd):
        return [sd[n] for n, _ in self.model.named_parameters()]

    def run_loop(self):
        self.ran += 1
