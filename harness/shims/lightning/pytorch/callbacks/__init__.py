class LearningRateMonitor:
    def __init__(self, *a, **k):
        self.kwargs = k


class ModelCheckpoint:
    def __init__(self, *a, **k):
        self.kwargs = k
