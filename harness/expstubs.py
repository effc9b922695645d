"""Small stand-ins named by _target_ in the configurations of C27."""
import torch
from torch import nn


class Data:
    """a data module whose pictures tell their index"""

    made = []
    shift = 0.0

    def __init__(self, **kw):
        self.kw = kw
        self.setups = 0
        Data.made.append(self)
        self.train_dataset = [torch.full((3, 4, 4), Data.shift + 0.01 * i) for i in range(20)]
        self.eval_dataset = [torch.full((3, 4, 4), Data.shift + 0.5 + 0.01 * i) for i in range(20)]
        self.val_dataset = [torch.full((7, 3, 4, 4), Data.shift + 0.01 * i) for i in range(40)]

    def setup(self, stage=None):
        self.setups += 1

    def train_dataloader(self):
        from datamodules.video_data_api import VideoDataset

        return [VideoDataset(torch.full((2, 3, 3, 8, 8), 0.25)), VideoDataset(torch.zeros(1, 3, 3, 8, 8))]

    def val_dataloader(self):
        from datamodules.video_data_api import VideoDataset

        return [VideoDataset(torch.full((2, 2, 3, 8, 8), 0.75))]


class Loader:
    def __init__(self, tag):
        self.tag = tag


class Net(nn.Module):
    """a model with parameters, and maybe something to update before coding"""

    def __init__(self, width=2, kind="bottleneck"):
        super().__init__()
        self.lin = nn.Linear(width, width)
        self.norm = nn.BatchNorm1d(width)
        if kind == "entropy":
            self.entropy_model = Updating()
        elif kind == "bottleneck":
            self.bottleneck = Updating()


class Updating(nn.Module):
    def __init__(self):
        super().__init__()
        self.w = nn.Parameter(torch.zeros(1))
        self.updated = 0

    def update(self, *a, **k):
        self.updated += 1
        self.seen = float(self.w)


class Wrap(nn.Module):
    """a projector around an autoencoder"""

    def __init__(self, inner):
        super().__init__()
        self.inner = inner
        self.drop = nn.Dropout(0.5)


_stubs = None


def _lazy():
    global _stubs
    if _stubs is None:
        from .illm import make_stubs

        _stubs = make_stubs()
    return _stubs


def IModel(**kw):
    return _lazy().Model(**kw)


def IDisc(**kw):
    return _lazy().Disc(**kw)
