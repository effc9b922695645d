"""Stand-in for the numpy craystack: 64-bit heads, a tail of 32-bit words, its codecs for the distributions used here."""
import numpy as np

from . import codecs, rans
from .codecs import Codec, DiagGaussian_GaussianBins, NonUniform, Uniform, std_gaussian_centres, substack
from .rans import flatten, random_message, unflatten
