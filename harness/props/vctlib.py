"""Small video-codec entropy models."""
import torch


def model(seed, ch=3, ctx=2, we=4, wd=2, d=16, heads=2, enc=1, joint=1, dec=2, gain=30.0):
    from projects.torch_vct.neural.bottlenecks import GsnConditionalLocScaleShift as Gsn
    from projects.torch_vct.neural.entropy_model import VCTEntropyModel

    torch.manual_seed(seed)
    v = VCTEntropyModel(num_channels=ch, context_len=ctx, window_size_enc=we, window_size_dec=wd, num_layers_encoder_sep=enc,
                        num_layers_encoder_joint=joint, num_layers_decoder=dec, d_model=d, num_head=heads)
    # busier attention than at initialisation, so that every dependency shows
    with torch.no_grad():
        for n, p in v.named_parameters():
            if p.dim() == 2 and not n.startswith(("mean_head", "scale_head")):
                p.mul_(4.0)
        for p in v.mean_head[-1].parameters():
            p.mul_(gain)
        for p in v.scale_head[-1].parameters():
            p.mul_(gain / 2)
    v.eval()
    small(v, Gsn)
    return v


def small(v, Gsn):
    v.bottleneck = Gsn(num_scales=16, num_means=5)
    v.update(force=True)
    v.bottleneck.eval()
