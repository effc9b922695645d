def create_named_schedule_sampler(name, diffusion):
    return (name, diffusion)
