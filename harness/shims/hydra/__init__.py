from . import utils


def main(*a, **k):
    return lambda fn: fn
