class Scatter:
    def __init__(self, **k):
        self.__dict__.update(k)


class Figure:
    def __init__(self, data=()):
        self.data, self.layout = list(data), {}

    def update_layout(self, **k):
        self.layout.update(k)
