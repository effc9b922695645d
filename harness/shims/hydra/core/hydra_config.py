class _NS:
    def __init__(self, **k):
        self.__dict__.update(k)


class HydraConfig:
    current = _NS(run=_NS(dir="outputs/job/run"), job=_NS(name="job"), overrides=_NS(task=["a=1"]))

    @classmethod
    def get(cls):
        return cls.current
