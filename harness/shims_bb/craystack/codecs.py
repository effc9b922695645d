from collections import namedtuple

import numpy as np
from scipy.stats import norm

from . import rans

Codec = namedtuple("Codec", ["push", "pop"])
made = []          # statistics of the codecs built, for the recorder


def NonUniform(enc_statfun, dec_statfun, precision):
    made.append(("nonuniform", enc_statfun, dec_statfun, precision))

    def push(message, symbol):
        start, freq = enc_statfun(symbol)
        return (rans.push(message, start, freq, precision),)

    def pop(message):
        cf, fin = rans.pop(message, precision)
        symbol = dec_statfun(cf)
        start, freq = enc_statfun(symbol)
        return fin(start, freq), symbol
    return Codec(push, pop)


def Uniform(precision):
    return NonUniform(lambda s: (s, np.ones_like(s)), lambda cf: cf.astype("int64"), precision)


def std_gaussian_centres(precision):
    return norm.ppf((np.arange(1 << precision) + 0.5) / (1 << precision))


def DiagGaussian_GaussianBins(mean, stdd, bin_mean, bin_stdd, coding_prec, bin_prec):
    n = 1 << bin_prec
    edges = norm.ppf(np.arange(n + 1) / n)
    mean, stdd, bin_mean, bin_stdd = (np.asarray(v, dtype=float)[..., None] for v in (mean, stdd, bin_mean, bin_stdd))
    inner = norm.cdf(edges[1:-1] * bin_stdd + bin_mean, mean, stdd)
    cum = np.concatenate([np.zeros(inner.shape[:-1] + (1,)), inner, np.ones(inner.shape[:-1] + (1,))], -1)
    cum = np.rint(cum * (1 << coding_prec)).astype("int64")
    return NonUniform(_cdf_to_enc_statfun(_cdf_from_cumulative_buckets(cum)), _ppf_from_cumulative_buckets(cum), coding_prec)


def _cumulative_buckets_from_probs(probs, precision):
    f = np.rint(probs * (1 << precision)).astype("int64")
    f[f == 0] = 1
    at = np.argmax(f, axis=-1)[..., None]
    top = np.take_along_axis(f, at, -1) + (1 << precision) - f.sum(-1, keepdims=True)
    assert np.all(top > 0), "cannot make every bucket positive"
    np.put_along_axis(f, at, top, -1)
    return np.concatenate([np.zeros(f.shape[:-1] + (1,), "int64"), np.cumsum(f, -1)], -1)


def _cdf_from_cumulative_buckets(cum):
    return lambda s: np.take_along_axis(cum, np.asarray(s).astype("int64")[..., None], -1)[..., 0]


def _ppf_from_cumulative_buckets(cum):
    def ppf(cf):
        return np.sum(np.asarray(cf).astype("int64")[..., None] >= cum, -1) - 1
    return ppf


def _cdf_to_enc_statfun(cdf):
    def enc(s):
        lo = cdf(s)
        return lo, cdf(np.asarray(s) + 1) - lo
    return enc


def substack(codec, view):
    """codec works on the part of the head that view shows"""
    def update(head, part):
        ids = view(np.arange(head.size).reshape(head.shape))
        out = head.copy().ravel()
        out[np.ravel(ids)] = np.ravel(part)
        return out.reshape(head.shape)

    def push(message, data):
        head, tail = message
        ((part, tail),) = codec.push((view(head), tail), data)
        return ((update(head, part), tail),)

    def pop(message):
        head, tail = message
        (part, tail), data = codec.pop((view(head), tail))
        return (update(head, part), tail), data
    return Codec(push, pop)
