from lightning.pytorch.loggers import WandbLogger  # noqa: F401
