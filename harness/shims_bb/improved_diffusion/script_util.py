import torch


class Net(torch.nn.Module):
    def __init__(self, **settings):
        super().__init__()
        self.settings = settings
        self.w = torch.nn.Parameter(torch.zeros(3, 1, 1))
        self.b = torch.nn.Parameter(torch.zeros(3, 1, 1))
        self.drop = torch.nn.Dropout(0.3)

    def forward(self, x, t, **k):
        return self.drop(x * self.w + self.b)


def create_model(**settings):
    return Net(**settings)
