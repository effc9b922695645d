class _Experiment:
    def __init__(self):
        self.rows = []

    def log(self, row):
        self.rows.append(row)


class WandbLogger:
    def __init__(self, **k):
        self.kwargs, self.experiment = k, _Experiment()
