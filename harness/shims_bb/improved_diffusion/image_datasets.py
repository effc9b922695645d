"""Batches of the pictures in data_dir/data.npy, without end."""
import os

import numpy as np
import torch

hook = [None]          # called with the number of each batch before it is given


def load_data(*, data_dir, batch_size, image_size, class_cond=False, deterministic=False):
    x = np.load(os.path.join(data_dir, "data.npy"))
    assert x.shape[-1] == image_size
    return _batches(x, batch_size, deterministic)


def _batches(x, b, deterministic):
    n = 0
    while True:
        order = np.arange(len(x)) if deterministic else np.random.permutation(len(x))
        for i in range(0, len(x) - b + 1, b):
            n += 1
            if hook[0]:
                hook[0](n)
            yield torch.from_numpy(x[order[i:i + b]].astype("float32") / 127.5 - 1), {}
