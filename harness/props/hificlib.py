"""Small HiFiC models with busy latents, and the reference codec path."""
import torch


def make(in_channels=3, seed=0, lat=8, hyp=6, gain=1.0, **kw):
    from neuralcompression.models import HiFiCAutoencoder

    torch.manual_seed(seed)
    m = HiFiCAutoencoder(in_channels, lat, hyp, 1, **kw)
    with torch.no_grad():
        m.encoder.blocks[-1].weight.mul_(30 * gain)
        m.hyper_analysis[-1].weight.mul_(20 * gain)
        m.hyper_synthesis_mean[-1].weight.mul_(5)
        m.hyper_synthesis_scale[-1].weight.mul_(3)
        m.hyper_synthesis_scale[-1].bias.add_(4 * min(gain, 4))
        m.decoder.blocks[-1].weight.mul_(0.5)
        m.decoder.blocks[-1].bias.add_(0.4)
        m.hyper_bottleneck.quantiles[:, :, 1].add_(torch.randn(1) * 0.3)
    return m


def pad(x, f=64):
    """reflection padding on the bottom/right, written independently"""
    h, w = x.shape[-2:]

    def idx(n):
        t = -(-n // f) * f
        return [i if i < n else 2 * (n - 1) - i for i in range(t)]

    return x[:, :, idx(h)][:, :, :, idx(w)]


def reference(m, x):
    """(decoder output, quantised latent, predicted means, ideal bits) by the rule of the specification"""
    with torch.no_grad():
        y = m.encoder(pad(x))
        z = m.hyper_analysis(y.clone())
        med = m.hyper_bottleneck.quantiles[:, 0, 1].reshape(1, -1, 1, 1)
        zq = torch.round(z - med) + med
        mu = m.hyper_synthesis_mean(zq.clone())
        yq = torch.round(y - mu) + mu
        return m.decoder(yq.clone()), yq, mu
