import os
import tempfile

import torch
import torch.distributed as dist


def setup_dist():
    if not dist.is_initialized():
        d = tempfile.mkdtemp(prefix="bbdist")
        dist.init_process_group("gloo", init_method=f"file://{d}/store", rank=0, world_size=1)


def dev():
    return torch.device("cpu")


def load_state_dict(path, **k):
    return torch.load(path, **k)


def sync_params(params):
    for p in params:
        with torch.no_grad():
            dist.broadcast(p, 0)
