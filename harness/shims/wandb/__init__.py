class Image:
    def __init__(self, data, caption=None):
        self.data, self.caption = data, caption


logged, runs = [], []


class Run:
    def __init__(self, **k):
        self.settings, self.rows, self.finished = k, [], 0
        runs.append(self)

    def log(self, d):
        self.rows.append(dict(d))

    def finish(self):
        self.finished += 1


class _Config:
    def __init__(self):
        self.seen = []

    def update(self, d, **k):
        self.seen.append(d)


config = _Config()


def require(*a, **k):
    return None


def init(**k):
    return Run(**k)


def log(d):
    logged.append(dict(d))
