import importlib
import os
import sys
import warnings

warnings.filterwarnings("ignore")
from . import core  # noqa: E402

REPO = core.REPO
# the code under test is imported from the working tree
sys.path.insert(0, REPO)
os.environ.setdefault("TORCH_HOME", "/nonexistent")


def go(pid):
    try:
        import torch

        torch.set_num_threads(int(os.environ.get("VERIF_THREADS", "4")))
    except Exception:
        pass
    mod = importlib.import_module(f"harness.props.{pid.lower()}")
    return core.main(mod.run, pid)


if __name__ == "__main__":
    sys.exit(go(sys.argv[1]))
