"""Keeps what was logged; `dir` is where a run writes."""
import os


class KVWriter:
    pass


class _Logger:
    def __init__(self, dir):
        self.dir, self.output_formats = dir, []


state = {"dir": None, "current": None, "kvs": {}, "dumped": [], "lines": [], "formats": None}


def configure(dir=None, format_strs=None, **k):
    os.makedirs(dir, exist_ok=True)
    state.update(dir=dir, current=_Logger(dir), formats=format_strs)


def get_dir():
    return state["dir"]


def get_current():
    return state["current"]


def log(*a):
    state["lines"].append(" ".join(map(str, a)))


def logkvs(d):
    state["kvs"].update(d)


def logkv(k, v):
    state["kvs"][k] = v


def dumpkvs():
    state["dumped"].append(dict(state["kvs"]))
    for f in state["current"].output_formats if state["current"] else []:
        f.writekvs(dict(state["kvs"]))
    state["kvs"].clear()
