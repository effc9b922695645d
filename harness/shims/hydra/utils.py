import importlib


def _build(v):
    """nested configurations are built first, as hydra does"""
    if isinstance(v, dict):
        return instantiate(v) if "_target_" in v else type(v)({k: _build(x) for k, x in v.items()})
    if isinstance(v, (list, tuple)):
        return type(v)(_build(x) for x in v)
    return v


def instantiate(cfg, *args, **kw):
    cfg = {k: dict.__getitem__(cfg, k) for k in dict.keys(cfg)}
    path = cfg.pop("_target_")
    for k in list(kw):                        # settings given in the call are merged into the configuration's
        if isinstance(kw[k], dict) and isinstance(cfg.get(k), dict):
            cfg[k] = {**cfg[k], **kw.pop(k)}
    recursive = cfg.pop("_recursive_", True)
    for k in ("_convert_", "_partial_"):
        cfg.pop(k, None)
    if recursive:
        cfg = {k: _build(v) for k, v in cfg.items()}
    mod, name = path.rsplit(".", 1)
    return getattr(importlib.import_module(mod), name)(*args, **{**cfg, **kw})


def to_absolute_path(path):
    import os

    return os.path.normpath(os.path.join(original_cwd or os.getcwd(), path))


original_cwd = None
