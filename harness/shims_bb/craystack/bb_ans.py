from .codecs import Codec
from .rans import flatten

lows = []          # message sizes between taking the latents off and putting the data on


def BBANS(prior, likelihood, posterior):
    def push(message, data):
        message, latent = posterior(data).pop(message)
        lows.append(flatten(message).nbytes)
        (message,) = likelihood(latent).push(message, data)
        return tuple(prior.push(message, latent))

    def pop(message):
        message, latent = prior.pop(message)
        message, data = likelihood(latent).pop(message)
        (message,) = posterior(data).push(message, latent)
        return message, data
    return Codec(push, pop)
