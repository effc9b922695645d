from lightning.pytorch.callbacks import LearningRateMonitor, ModelCheckpoint  # noqa: F401
