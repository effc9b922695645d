import copy


def _wrap(v):
    return DictConfig(v) if isinstance(v, dict) and not isinstance(v, DictConfig) else v


class DictConfig(dict):
    """Attribute access over nested dictionaries."""

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        try:
            v = self[k]
        except KeyError:
            raise AttributeError(k)
        return v

    def __setattr__(self, k, v):
        self[k] = v

    def __getitem__(self, k):
        v = dict.__getitem__(self, k)
        if isinstance(v, dict) and not isinstance(v, DictConfig):
            v = DictConfig(v)
            dict.__setitem__(self, k, v)  # the same node on every access
        return v

    def get(self, k, d=None):
        return self[k] if k in self else _wrap(d)

    def items(self):
        return [(k, self[k]) for k in dict.keys(self)]

    def values(self):
        return [self[k] for k in dict.keys(self)]

    def copy(self):
        return copy.deepcopy(self)

    def __deepcopy__(self, memo):
        return DictConfig({k: copy.deepcopy(dict.__getitem__(self, k), memo) for k in dict.keys(self)})


class ListConfig(list):
    """compares to tuples as omegaconf's does"""

    def __eq__(self, other):
        return list(self) == list(other) if isinstance(other, (list, tuple)) else NotImplemented

    def __ne__(self, other):
        return not self == other

    __hash__ = None


class OmegaConf:
    resolvers = {}

    @classmethod
    def register_new_resolver(cls, name, fn, **k):
        cls.resolvers[name] = fn

    @staticmethod
    def set_struct(c, flag):
        return None

    @staticmethod
    def to_container(c, *a, **k):
        return dict(c)

    @staticmethod
    def select(c, key, default=None):
        for k in key.split("."):
            if c is None or k not in c:
                return default
            c = c[k]
        return c

    @staticmethod
    def update(c, key, value, **kw):
        *head, k = key.split(".")
        for h in head:
            c = c[h]
        c[k] = value

    @staticmethod
    def create(c):
        return DictConfig(c)
