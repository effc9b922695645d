from lightning.pytorch import *  # noqa: F401,F403
from lightning.pytorch import Callback, LightningDataModule, LightningModule, Trainer, seed_everything  # noqa: F401
