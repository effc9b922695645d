TV = "TLA+ specification (TLC): exhaustive design check + recorded executions of the real code validated by a TLC trace specification"
RP = "TLA+ specification (TLC): all transitions replayed into the real code, recorded results validated by a TLC trace specification"
SCOPE = ("TLC checks the specification exhaustively within its constants; conformance holds for every recorded execution "
         "(a dense, seeded sample of the stated inputs). Trusted: TLC, torch kernels, the recorder's projection. ")

prop("C01", "Image codec payloads are self-contained, lossless and history-independent",
     "For every image batch (any batch size, channel count and height/width that reflection padding to a multiple of 64 admits) compressing records the true size and the smallest padded size divisible by 64 and gives one latent and one hyper-latent string per image, and decompressing on any model with the same weights returns, with the original size and values clamped to [0, 1], exactly the decoding of the latents rounded to the nearest integer around the predicted mean. "
     "Payload and reconstruction depend only on the image and the weights: not on earlier calls, train/eval mode, other payloads in flight or which instance decodes, and neither call alters its input, the payload or the weights. "
     "In evaluation mode the plain forward pass gives the same latents and image, and the payload is not materially larger than the rate the model itself predicts.",
     ["inputs", "histories", "configurations"],
     "every image size/batch/channel count/latent magnitude, every interleaving of compress, decompress, forward, mode and device calls on instances sharing weights",
     "tests compress one or two tensor shapes on a fresh model and check shapes; they never compare with the quantised reference, never decode on another instance or after other calls, and never reach tails or clamping",
     ["neuralcompression/models/_hific_autoencoder.py", "neuralcompression/models/_hyperprior_autoencoder.py", "neuralcompression/functional/_pad_image.py"],
     [("pad to factor, record both sizes", "HiFiCAutoencoder.compress"), ("hyper latent re-decoded on the sender so both sides predict from the same values", "HiFiCAutoencoder.compress/decompress"),
      ("crop and clamp", "HiFiCAutoencoder.decompress")],
     RP, SCOPE + "Session graph: 2 images x 2 instances x modes; sizes 33..1100.",
     [("payload", "strings + image_size + padded_size", "HyperpriorCompressedOutput")])

prop("C02", "Frozen parts stay frozen and modes gate operations in the image codec",
     "Under every sequence of construction options, freezing, train/eval switches, device preparation, forward, compress and optimiser steps, a part that was frozen (encoder; bottleneck with its hyper transforms) stays in evaluation mode and untrainable while all other parts follow the model's mode, and an optimiser over the collected parameters moves exactly the parts that are not frozen. "
     "The collected parameter groups are disjoint, together are exactly the trainable parameters, and the second group is exactly the quantiles. "
     "Forward is refused with RuntimeError unless the model is prepared for forward, compress is refused with ValueError until entropy tables were built, and an unknown preparation is refused with ValueError and changes nothing.",
     ["histories", "configurations"], "every reachable combination of frozen flags, mode, preparation and tables, and every call in each of them",
     "tests try single freeze calls and one train() call; the guarantee is about every call sequence",
     ["neuralcompression/models/_hific_autoencoder.py", "neuralcompression/models/_hyperprior_autoencoder.py"],
     [("train() re-applies freezing", "HiFiCAutoencoder.train"), ("partition check", "collect_parameters"), ("device gate", "update_tensor_devices, forward")],
     RP, SCOPE + "The whole 32-state mode graph is replayed for all four constructor settings (CPU only: no GPU in the sandbox).",
     [("frozen flags, mode, device setting", "see HificModes.tla", "HiFiCAutoencoder")])

prop("C03", "Padding, window cutting, joining and cropping move every pixel exactly",
     "Padding an image to a factor yields the smallest height and width divisible by the factor, keeps the image in the top-left corner, fills the rest in the requested mode (mirror by default, edge or zero) and reports the original size. "
     "Cutting an image into windows with a stride gives, in raster order per batch item with channels last, windows centred on their stride cell whose out-of-image pixels are mirrored; joining non-overlapping windows inverts cutting and crops to the requested size for either channel order. "
     "Windows smaller than the stride or exceeding it by an odd amount are refused with ValueError.",
     ["inputs", "configurations"], "every batch, channel count, size, factor, stride, window size and padding mode that the padding admits",
     "tests sample a few square sizes and compare shapes or one unfold; they do not check where each pixel comes from",
     ["neuralcompression/functional/_pad_image.py", "projects/torch_vct/neural/patcher.py"],
     [("pad amounts", "pad_image_to_factor"), ("stride padding + unfold", "Patcher._pad/forward"), ("inverse fold", "Patcher.unpatch")],
     TV, SCOPE + "Pixels carry their provenance, so content is compared exactly.")

prop("C04", "The video entropy model is causal and codes every latent losslessly",
     "In the one-pass evaluation the prediction for a token depends on the tokens before it in its own window and on the previous frames only inside the window's surrounding context area: changing a token changes no prediction at or before it or in other windows, while it does change the next one. "
     "Real coding token by token with a receiver that makes its own predictions recovers exactly the quantised latent (each value within half a step, rounded to nearest away from ties), gives the same features, the same latent whether or not decoding is run, a reported size equal to the bytes produced, and identical bytes from another model with the same weights. "
     "With fewer previous frames than the context length the oldest one is repeated at the front, and unsupported or mismatched contexts, batched coding and too small encoder windows are refused; the model's own causality validation accepts it and rejects a model that looks ahead.",
     ["inputs", "configurations"], "every latent, context, window configuration and token position",
     "there is no test of the entropy model at all; causality must hold for each position and coding for each value",
     ["projects/torch_vct/neural/entropy_model.py", "projects/torch_vct/neural/entropy_model_layers.py", "projects/torch_vct/neural/layers_utils.py", "projects/torch_vct/neural/patcher.py"],
     [("look-ahead mask", "TransformerBlock/WindowMultiHeadAttention"), ("shift right by a start symbol", "StartSym"), ("token-by-token encode/decode", "VCTEntropyModel._encode/_decode")],
     TV, SCOPE + "Small models (d_model 16) with amplified weights; the attention code is size independent.")

prop("C05", "Integer coding with predicted mean and scale is lossless for every value",
     "For every input, predicted mean and scale parameter, including values far outside the probability tables, ties and extreme scales, decoding the strings with the same predictions returns exactly round(input - round(mean)) + round(mean), which coding also reports, with one independently decodable string per batch item and identical strings from any coder built with the same settings. "
     "The coding tables are strictly increasing cumulative tables from 0 to 65536 matching the bin masses of the quantised Gaussian, are built by the first update, kept by an unforced one and reproduced by a forced one, and the coded size tracks the model's own likelihood. "
     "The evaluation forward pass returns the same quantised values with the Gaussian bin mass as likelihood, and the training forward pass returns them with gradient one.",
     ["inputs", "configurations"], "every (input, mean, scale) triple and every table configuration",
     "no test covers this coder; losslessness must hold in the tails and at ties, not on samples near the mean",
     ["projects/torch_vct/neural/bottlenecks.py"],
     [("residual against rounded mean", "GsnConditionalLocScaleShift.compress/decompress"), ("index clamping", "_normalize_indexes"), ("tables", "_build_tables")],
     TV, SCOPE + "Inputs are exact binary fractions, so TLC recomputes the rounding itself. Strings with a single symbol are excluded (external coder limitation).")

prop("C06", "Video encoder and decoder states stay in step over the whole stream",
     "For every video and context length, each frame after the first is coded given exactly the last (at most context-length many) coded latents in order and the first one given the learned pad token; decoding the coded frames alone reproduces the encoder's reconstructions, and memoisation changes neither reconstructions nor rates. "
     "Changing a frame affects that frame and at most the following context-length frames, never earlier ones, and batch items do not affect each other. "
     "In evaluation the output has the input's shape for every frame size, and real coding reports one rate per frame (information content for the first, whole bytes for the others) and decompresses to the forward reconstruction, leaving later forward passes as they were; batched coding, malformed videos and mismatched transforms are refused.",
     ["inputs", "histories", "configurations"], "every video length, size, context length and cache usage",
     "there is no test of the pipeline; drift between encoder and decoder appears only after several frames",
     ["projects/torch_vct/model_pipeline.py", "projects/torch_vct/datamodules/video_data_api.py", "projects/torch_vct/utils/memoize.py"],
     [("state = last context_len entries", "VCTPipeline.decode_Pscene"), ("encoder runs the decoder for its state", "encode_Iscene/encode_Pscene"), ("pad/crop", "VCTPipeline.forward")],
     TV, SCOPE + "Real pipeline with small transforms and a small entropy model.",
     [("state", "tuple of previous coded latents", "VCTPipeline")])

prop("C07", "Memoised computations always return the function's own value",
     "Calling a memoised function through any cache returns exactly what the function returns for those arguments, for every history of calls, functions, caches, argument structures (nested lists, dicts, keywords) and argument lifetimes, including a new tensor that happens to reuse the identity of a dead one, a tensor modified in place by a tensor operation between calls, and arguments of different types that compare equal. "
     "Through one cache the function body runs once per distinct arguments, where keyword order and passed-along caches do not distinguish calls; different functions and caches never share entries, and calls without a cache always run. "
     "Hit counters count exactly the calls answered from the cache, and a violated hit expectation is refused.",
     ["histories", "inputs"], "every history of calls over functions, caches and argument structures",
     "no test covers the memoiser; stale answers need a particular allocation history",
     ["projects/torch_vct/utils/memoize.py"],
     [("per-function table keyed by arguments", "memoize.wrapper"), ("hashable projection of arguments", "_ensure_hashable")],
     RP, SCOPE + "All 256 cache states of the specification with every call in each are replayed.",
     [("cache", "function -> key -> result", "memoize._Cache")])

prop("C10", "Cumulative, survival and tail functions are accurate and differentiable",
     "For every real input in single or double precision, with any location, scale and broadcasting, the normal cumulative and survival functions are monotone, complementary and relatively accurate in both tails until they underflow, and their logarithms stay finite, accurate and carry the exact gradient arbitrarily far out and at zero; unsupported dtypes are refused with TypeError. "
     "For every other distribution log_cdf, survival and log_survival_function are the logarithm and complement of its own cdf, and lower_tail and upper_tail return, without gradient, points with half the tail mass beyond them even when only a cdf is available (NotImplementedError when there is none). "
     "The logarithm of e^x - 1 is accurate, increasing and finite with its gradient for all positive x, and the quantization offset is the mean minus its nearest integer (0 without a mean), without gradient.",
     ["inputs", "configurations"], "every input, dtype, distribution and tail mass",
     "tests sample 32 points in [0, 1] (or +-8) in single precision without gradients",
     ["neuralcompression/functional/_ndtr.py", "neuralcompression/functional/_log_ndtr.py", "neuralcompression/functional/_log_cdf.py", "neuralcompression/functional/_survival_function.py",
      "neuralcompression/functional/_log_survival_function.py", "neuralcompression/functional/_lower_tail.py", "neuralcompression/functional/_upper_tail.py", "neuralcompression/functional/_estimate_tails.py",
      "neuralcompression/functional/_log_expm1.py", "neuralcompression/functional/_quantization_offset.py"],
     [("branches by magnitude", "ndtr, log_ndtr"), ("closed form or iterative quantile", "lower_tail, upper_tail, estimate_tails")],
     TV, SCOPE + "The laws are checked on all discretised distributions of the model; references are scipy in double precision.")

prop("C09", "Noise-convolved priors are proper densities with independent noise",
     "For every base law on the real line, location, scale and batch shape, the density of a UniformNoise or NoisyNormal at v is the base law's probability of [v - 1/2, v + 1/2]: non-negative, summing to one over any unit-spaced grid, with a log density that for a Normal base stays finite with the right gradient tens of standard deviations out. "
     "It keeps the base law's batch and event shape, mean, cdf, survival, quantization offset and tails, and expanding it gives the same noisy law with the new batch shape. "
     "Samples have shape sample_shape + batch_shape and are the base draw plus independent noise per element, uniform on [-1/2, 1/2]; rsample is differentiable in the base parameters.",
     ["inputs", "configurations"], "every base law, parameter, value and shape",
     "tests compare shapes and delegated calls for one scalar standard normal",
     ["neuralcompression/distributions/_uniform_noise.py", "neuralcompression/distributions/_noisy_normal.py"],
     [("difference of cdf or survival, whichever is smaller", "UniformNoise.prob/log_prob"), ("base draw plus uniform noise", "UniformNoise.rsample")],
     TV, SCOPE + "Normalisation is proved on all discretised distributions of the model; sampling clauses are statistical.")

prop("C08", "Range coding tables are proper, complete and match the prior",
     "For every prior (any batch shape, location, scale, tail mass and precision) the continuous entropy layer builds one table per scalar distribution: integers rising strictly from 0 to 2^precision over its stated size and zero afterwards, starting at its stated offset, reaching the upper tail, with bin masses of the prior at integers plus quantization offset and a final overflow bin; equal priors and restored state give identical tables, and given tables are used unchanged. "
     "Tables come from exactly one source and every inconsistent combination of construction options is refused with ValueError; reading tables of a layer that is not compressible, or a prior that was dropped or never given, is refused with RuntimeError, and dropping the prior keeps the tables. "
     "Quantising gives the integers nearest to the input minus the offset and leaves the input alone.",
     ["inputs", "histories", "configurations"], "every combination of construction options and accesses, every prior",
     "tests build one table and check its shape; the contents of the tables are never looked at",
     ["neuralcompression/layers/_continuous_entropy.py"],
     [("option consistency", "ContinuousEntropy.__init__"), ("tables from the prior", "ContinuousEntropy._update"), ("access rules", "ContinuousEntropy.cdfs/prior")],
     RP, SCOPE + "All 512 option combinations and all accesses are replayed.")

prop("C11", "Soft rounding and lower bounding keep their value and gradient laws",
     "For every sharpness and input, soft rounding is increasing, repeats in every unit cell, fixes integers and half-integers, is the identity below the threshold and m + tanh(alpha (x - m)) / (2 tanh(alpha / 2)) around the cell middle m otherwise, with that formula's gradient; its inverse inverts it, stays within half a unit and finite everywhere, and the conditional mean is the inverse at x - 1/2 plus 1/2. "
     "Lower bounding with a number or broadcastable tensor is exactly the maximum in the input's dtype. "
     "The gradient reaching the input is zero below the bound (disconnected), always passed (identity), or passed below the bound only when descent moves the input towards it (identity_if_towards, the default); no gradient reaches the bound and unknown modes are refused with ValueError.",
     ["inputs", "configurations"], "every input, sharpness, threshold, bound and gradient mode",
     "tests check a few sharpness values at a loose tolerance and one of the three gradient modes",
     ["neuralcompression/functional/_soft_round.py", "neuralcompression/functional/_soft_round_inverse.py", "neuralcompression/functional/_soft_round_conditional_mean.py",
      "neuralcompression/functional/_lower_bound.py"],
     [("tanh around the cell middle", "soft_round"), ("atanh, clamped to the cell", "soft_round_inverse"), ("gated backward", "_LowerBound.backward")],
     TV, SCOPE + "All symmetric increasing cell maps of the model are checked.")

prop("C12", "Vector quantisation picks the nearest codeword and keeps its books",
     "For every latent, codebook and configuration the VQ bottleneck assigns each spatial vector, independently of the others, an index of a nearest (normalised) codeword, outputs those codewords in place with a straight-through gradient to the input, reports mean squared commitment and embedding losses that move only the input and only the used codewords, and a byte count of floor(vectors * log2(size) / 8); codewords reproduce themselves, and the latent wrappers normalise to unit length over channels and project in and out around it. "
     "Under every history of calls, save/restore and resets, the hit counters count every quantised vector since the last reset and the usage metrics (used fraction, most hits, perplexity) are those of the counters. "
     "In evaluation the VQ autoencoder returns an image of the input's size for any size (reflect-padded to the downsampling factor, cropped back), each image independently; parts built frozen never train in any mode history, and the projector is always frozen and returns the model's indices.",
     ["inputs", "histories", "configurations"], "every latent, codebook, wrapper, call history and image size",
     "no test covers the bottleneck, its counters, the wrappers, the VQ autoencoder or the projector",
     ["neuralcompression/layers/_q_bottleneck.py", "neuralcompression/layers/_vq_bottleneck.py", "neuralcompression/layers/_normalize_latent.py", "neuralcompression/layers/_project_latent.py",
      "neuralcompression/models/_vqvae_xcit_autoencoder.py", "neuralcompression/models/_vqvae_projector.py"],
     [("nearest by argmin of squared distances", "QBottleneck.quantize_vectors"), ("hits per forward", "VQBottleneck.forward"), ("pad, freeze before use, crop", "VqVaeXCiTAutoencoder.forward")],
     RP, SCOPE + "All codebooks of three words on a small grid are checked in the model; every transition of the usage and freezing protocols is replayed.",
     [("hits", "codeword -> count since reset", "QBottleneck.codebook_hits_*")])

prop("C13", "Image metrics depend only on the images accumulated since reset",
     "For every sequence of updates, readings and resets, FID (Inception and SwAV features) is the Frechet distance of the features of all images given per side since the last reset, KID the polynomial-kernel MMD over subsets with the degree, gamma, coef, subset count and size it was built with, and MS-SSIM and DISTS the mean (or sum) of per-image scores, whatever the batching and order; real and generated images are never mixed, reading changes nothing, and inputs are left alone. "
     "Images reach the feature network as built: scaled to bytes when normalize is set (FID, KID), divided by 255 and ImageNet-normalised unless switched off (SwAV); images DISTS cannot score and unknown feature layers, reductions or flags are refused with ValueError and not counted. "
     "The MS-SSIM of any two batches is the published product over scales (edge-padded halving, contrast-structure per scale, full SSIM at the last), 1 for identical images, symmetric, in [0, 1], reduced as asked, with too small images refused with RuntimeError.",
     ["histories", "inputs", "configurations"], "every update/reading/reset history, batching and parameter set",
     "tests feed random images once and look at no value; KID is never computed",
     ["neuralcompression/metrics/_fid.py", "neuralcompression/metrics/_fid_swav.py", "neuralcompression/metrics/_kid.py", "neuralcompression/metrics/_dists.py", "neuralcompression/metrics/_msssim.py",
      "neuralcompression/functional/_multiscale_structural_similarity.py"],
     [("features per side", "update/compute"), ("scores and count", "MultiscaleStructuralSimilarity, DeepImageStructureTextureSimilarity")],
     RP, SCOPE + "Backbone networks are replaced by a stand-in with four known features (no weights offline).",
     [("acc", "batches accumulated per side since reset", "real_features, fake_features, score_sum, total")])

prop("C14", "Patch-based FID sees exactly the two patch grids, in bytes",
     "For every image size at least the patch size, batch, patch size and selection of metrics, each metric is given, for the original images as real and the compressed ones as fake, every patch of the non-overlapping grid starting at the corner exactly once and, when both sides are at least 1.5 patches, every patch of the grid shifted by half a patch, with the pixels of that place and nothing else; the returned count is the number of those patches and calling without any metric is refused with ValueError. "
     "Converting to the 255 scale gives the nearest integer, exactly k for k/255, in the requested dtype without touching the input, and refuses any value outside [0, 1] with ValueError.",
     ["inputs", "configurations"], "every image size, batch, patch size, metric combination and pixel value",
     "tests feed one size and look at neither the patches nor the count",
     ["neuralcompression/metrics/_update_patch_fid.py", "neuralcompression/functional/_image_to_255_scale.py"],
     [("unfold grids", "update_patch_fid"), ("round(255 x)", "image_to_255_scale")],
     TV, SCOPE + "The grids are checked for every patch size up to 4 and image up to 13 in the model, and patches are identified by their pixels.")

prop("C15", "Learning-rate schedules follow their ramp, plateau and cosine exactly",
     "For every configuration and step count, each parameter group's rate is its own base rate times the schedule's factor: a linear ramp from 0 (optim schedules, s/ramp) or from 1/ramp (VCT schedules, (s+1)/ramp; LinearWarmUpCosineLR holds the base rate instead), then the base rate or a quarter-cosine decay (cos(pi/2 (s-ramp)/max_steps) for RampCosine, over the last num_cosine_steps for RampConstCosine, where it stays at the end value for any later step) or a half-cosine decay from the base rate to eta_min ending at step T_max - 1 (VCT); optim schedules never go below min_val times the base, and IdentitySchedule changes nothing. "
     "No step of the schedule raises, including past its last step where it has a constant end. "
     "Saving and restoring scheduler and optimiser at any step resumes the identical rates.",
     ["histories", "configurations"], "every schedule class, configuration, number of steps and save/restore point",
     "tests run one configuration of two schedules and look at a few steps; VCT schedules have no test",
     ["neuralcompression/optim/_identity.py", "neuralcompression/optim/_ramp_cosine.py", "neuralcompression/optim/_ramp_const_cosine.py", "projects/torch_vct/utils/schedulers.py"],
     [("factor of the step", "_get_factor / lr lambdas")],
     TV, SCOPE + "All configurations up to length 7 are checked in the model; observed rates are compared at 1e-6.",
     [("step", "number of scheduler steps", "last_epoch")])

prop("C16", "Rate-targeted (GAN) training updates exactly the right parts by the right loss",
     "For every batch and training step the rate loss of projects/illm is the mean over images of penalty times noisy bits per pixel, where an image whose quantised bits per pixel exceed the target pays the upper penalty and any other the lower one, target and upper penalty are their base value times the factor of the current stage (the first whose step exceeds the global step, else the last), gradients reach only the noisy likelihoods, and a schedule whose factors are not one more than its steps is refused with ValueError. "
     "A training step moves the model by the gradient of distortion_lam * distortion + rate + generator_weight * generator loss and, when adversarial, the discriminator by its own loss on the detached fakes made before the model's update and the real images (the other half of the batch with mc_sampling, with latents of the updated model), and the quantiles by theirs, each clipped as configured (not quantiles) and its schedule stepped once. "
     "Frozen parts and the label projector are never moved or made trainable, stale gradients never leak in, and it works for conditional and unconditional discriminators, with or without label maps and trainable quantiles.",
     ["inputs", "histories", "configurations"], "every batch, stage, configuration and number of steps",
     "there is no test of the training modules at all",
     ["projects/illm/target_compression_module.py", "projects/illm/gan_compression_module.py", "neuralcompression/loss_fn/_target_rate_config.py"],
     [("stage factors", "_get_scheduled_rate_param"), ("penalty per image", "rate_loss"), ("alternating steps", "GANCompressionModule.training_step")],
     TV, SCOPE + "Lightning, hydra and omegaconf are replaced by small stand-ins (absent offline) and model/discriminator by small deterministic networks; updates are compared with an independent recomputation.")

prop("C17", "Evaluation reports quality of exactly the images of the current epoch",
     "For every history of training, validation and test batches, epoch starts and ends, checkpoint loads and test-set names, each group's PSNR, MSE, MS-SSIM, LPIPS and DISTS cover exactly that group's images since the last epoch start or checkpoint load, on the 0..255 (LPIPS, DISTS: 0..1) scale with outputs clamped, the HiFiC distortion is 0.075/32 * MSE + LPIPS of the batch, and FID/KID get inputs as real and clamped outputs as fake in bytes: whole images, or patches for test sets named after clic or div2k. "
     "Validation FID is logged at the end of the epoch and emptied; test FID, SwAV FID and KID are logged under the test set's name, as 0 for kodak; unknown prefixes and unnamed test sets are refused with ValueError and change nothing. "
     "Evaluation steps move nothing and log the model's bits per pixel, losses and schedule values, and the test step logs 8 * pickled payload bytes / (images * pixels) and the distortion of the decompressed payload.",
     ["histories", "inputs"], "every history of batches, epochs, checkpoint loads and names",
     "there is no test of the evaluation code",
     ["projects/illm/image_module.py", "projects/illm/target_compression_module.py", "projects/illm/gan_compression_module.py"],
     [("routing by prefix", "ImageModule.log_quality_metrics"), ("reset at epoch starts", "reset_all_metrics"), ("payload size", "test_step")],
     RP, SCOPE + "LPIPS, DISTS, FID, KID are replaced by stand-ins that remember the images (no weights offline); every transition of the bookkeeping is replayed.",
     [("acc", "batches per metric group since reset", "ImageModule metrics")])

prop("C18", "DVC decodes every P-frame to the frame the encoder predicts",
     "For every pair of frames at least as large as the flow pyramid needs (16 pixels per side by default, multiples of nothing), every batch and every choice of components, decompress(reference, compress(reference, frame)) is the reference warped by the decoded flow, motion-compensated, plus the decoded residual, clamped to [0, 1], which is also what forward computes in evaluation mode; each image is coded on its own and coding before update() is refused with ValueError. "
     "Over any sequence of I- and P-frames, with any number of payloads in flight, a receiver with the same weights decoding in order gets bit for bit the sender's frames; update(force) rebuilds exactly the tables asked for and reports whether any was rebuilt. "
     "The strided coders record their input size per level and restore any size from it (a list of the wrong length is refused with ValueError and the list is not consumed), the flow pyramid goes from coarse to fine over average-pooled frames returning each level's warped/target pair, and frames of different shape are refused with ValueError.",
     ["inputs", "histories", "configurations"], "every frame size, batch, component set and stream history",
     "no test runs compress or decompress of the video model",
     ["neuralcompression/models/deep_video_compression.py", "neuralcompression/functional/_dense_image_warp.py"],
     [("decode the flow before predicting", "DVC.compress"), ("latent size from recorded sizes", "DVC.decompress"), ("sizes per level", "DVCCompressionEncoder/Decoder")],
     RP, SCOPE + "Every transition of the sender/receiver stream is replayed with the real model on both sides; sizes are sampled densely between 4 and 64.",
     [("enc, dec", "reference frames of sender and receiver", "caller"), ("tables", "coding tables built", "EntropyBottleneck buffers")])

prop("C19", "DVC staged training moves only its stage and accounts for every frame",
     "For every stage, number of P-frames, batch and history of training and validation batches of projects/deep_video_compression, the first frame is replaced by its I-frame coding (the caller's batch is left alone), every further frame is predicted from the previous estimate, and each P-frame makes one clipped update of exactly the stage's own non-quantile parameters (1 motion estimator, 2 motion coder, 3 motion compensation, 4 and 5 everything) by the gradient of distortion_lambda * MSE (stage 1: mean over pyramid levels) plus flow and residual bits per pixel; quantiles get one update by their own loss per batch, the schedule one step, and validation moves nothing. "
     "The logged GOP loss, distortion, total, flow and residual bits per pixel are the sums over all frames, I-frame bits included, divided by the number of frames, and PSNR covers all P-frames, in training and in validation. "
     "Recomposing puts exactly the trained parts back into the model; unknown stages and distortions are refused with ValueError.",
     ["histories", "inputs", "configurations"], "every stage, group of pictures and history of batches",
     "there is no test of the DVC project",
     ["projects/deep_video_compression/dvc_module.py", "projects/deep_video_compression/_utils.py"],
     [("frame by frame updates", "DvcModule.training_step"), ("stage losses", "DvcStage*.compute_batch_loss")],
     TV, SCOPE + "Lightning and the pretrained I-frame codec are replaced by small stand-ins (absent offline); updates are compared with an independent recomputation.",
     [("ref", "reference frame", "image1"), ("ver", "updates per part", "optimisers")])

prop("C20", "VCT training and evaluation report the right rate and quality",
     "For every video, the training loss of projects/torch_vct is the mean over frames of the frame's weight (1 for the first, 10 for the others) times distortion_lambda * 255^2 * MSE plus bits per pixel, where bits are -log2 of the frame's likelihoods over batch and pixels; training and validation log distortion, rate, combined and weighted loss and PSNR on the unit and on the 8-bit scale (values rounded to the 256 levels, out-of-range values saturated). "
     "The test step reports the PSNR of the decoded video on the 8-bit scale and the coded bits per pixel over all frames and over all but the first, and, from a forward pass that does not code to strings, the same estimated from likelihoods; it refuses batches and training mode, and needs two frames. "
     "The optimiser gets exactly the trainable non-quantile parameters; videos that are not [B, T, 3, H, W] and latents that are not float32 [B, T, C, H, W] are refused with ValueError, and frames are visited in order.",
     ["inputs", "configurations"], "every video size, length, reconstruction and likelihood",
     "there is no test of the training module",
     ["projects/torch_vct/model_lightning.py", "projects/torch_vct/model_pipeline.py", "projects/torch_vct/datamodules/video_data_api.py"],
     [("frame weights", "VCTModule.training_step"), ("bits over pixels", "VCTModule.test_step, rate_loss")],
     TV, SCOPE + "The codec is a stand-in with known reconstruction, likelihoods and coded size; Lightning and hydra are stand-ins.")

prop("C21", "Training losses score every pixel against its own label and stay finite",
     "For all logits (any magnitude and memory layout) and label maps the OASIS discriminator loss is half the sum of the mean cross-entropy of the real logits against label + 1 and of the fake logits against class 0, the generator loss the mean cross-entropy of the fakes against label + 1, and the binary losses likewise (real against target, fake against 0, halved; generator against target; a 0-dimensional target counts for every logit), with matching gradients; logits that are not 4-dimensional, label maps of another size or not of dtype long, and binary targets of another number of dimensions are refused with ValueError. "
     "MSELoss is scale_param (default 255^2) times the mean squared error, MSELPIPSLoss is mse_param * MSE + lpips_param * mean LPIPS with a frozen network that always stays in evaluation mode, and NormFixLPIPS is symmetric, zero on equal images, equal to LPIPS wherever features do not vanish and of finite gradient where they do. "
     "lpips() gives the per-image LPIPS reduced as asked with the asked network, calibration, version and input range, and refuses unknown networks, versions and reductions with ValueError.",
     ["inputs", "configurations"], "all logits, label maps, images and configurations",
     "tests compare a few random logits loosely (the fake branch against the real logits) and LPIPS needs downloaded weights",
     ["neuralcompression/loss_fn/_oasis_loss.py", "neuralcompression/loss_fn/_binary_crossentropy_loss.py", "neuralcompression/loss_fn/_mse_loss.py", "neuralcompression/loss_fn/_mse_lpips_loss.py", "neuralcompression/loss_fn/_normfix_lpips.py", "neuralcompression/functional/_lpips.py"],
     [("shifted labels", "OASISDiscriminatorLoss"), ("epsilon inside the root", "normalize_tensor")],
     TV, SCOPE + "The specification picks the cost of each pixel from a cost table computed independently; feature networks are untrained (no weights offline).")

prop("C22", "Network building blocks compute what they document for every size",
     "For every channel list of L levels and power-of-two factor up to 2^(L-1), UnetDiscriminator and its conditional form give [B, output_channels, H/factor, W/factor] logits for images whose sides are multiples of 2^L, each image on its own in evaluation mode, the conditional form on the image joined with its context features enlarged to the image by nearest neighbour; other factors and unknown norm types are refused with ValueError at construction, and with norm_type spectral every level's convolutions have spectral norm at most 1. "
     "ChannelNorm2D normalises each pixel over its channels (unbiased variance plus epsilon, optional affine map, one channel refused with ValueError), SimplifiedGDN divides and SimplifiedInverseGDN multiplies by beta_i + sum_j gamma_ij |x_j| with gamma kept at least 0 and beta at least beta_min, and XCA attends over the channels of each head with unit-norm queries and keys scaled by the head's temperature, following any order of tokens. "
     "HiFiC's encoder maps H x W to ceil(H/16) x ceil(W/16) latents and its generator latents to images 16 times as large.",
     ["inputs", "configurations"], "all sizes, channel lists, factors, norm types and parameter values",
     "tests check output shapes of a handful of configurations",
     ["neuralcompression/models/_unet_discriminator.py", "neuralcompression/layers/_channel_norm.py", "neuralcompression/layers/_simplified_gdn.py", "neuralcompression/layers/_xca.py", "neuralcompression/models/_hific_encoder_decoder.py"],
     [("clipped upsampling", "UnetDiscriminator.__init__"), ("context joined", "ConditionalUnetDiscriminator.forward")],
     TV, SCOPE + "All channel lists of up to 5 levels are walked in the model; observed outputs are compared with independent float64 formulas.")

prop("C23", "Warping and colour conversion are exact for every field and image",
     "For every image, flow (of any output size), padding mode (zeros, border, reflection) and corner convention, dense_image_warp samples each output pixel, bilinearly or nearest, at its place on the normalised grid from -1 to 1 plus its flow (component 0 horizontal, 1 vertical), following torch's grid_sample conventions; inputs of different dtype and flows whose last dimension is not 2 are refused with ValueError. "
     "hsv_to_rgb is the standard hexcone conversion for every hue in [0, 360] degrees (360 is 0), saturation and value in [0, 1], and refuses anything else, and tensors that are not [B, 3, H, W], with ValueError. "
     "optical_flow_to_color draws the flow's direction atan2(channel 0, channel 1) as hue and its length, scaled from the smallest to the largest of the whole batch, as brightness at full saturation, always within [0, 1], leaves the flow alone, and refuses flows that are not 4-dimensional with ValueError.",
     ["inputs"], "all images, flows, colours and modes",
     "tests compare a few random cases",
     ["neuralcompression/functional/_dense_image_warp.py", "neuralcompression/functional/_hsv_to_rgb.py", "neuralcompression/functional/_optical_flow_to_color.py"],
     [("base grid", "dense_image_warp"), ("hexcone", "hsv_to_rgb"), ("batch scaling", "optical_flow_to_color")],
     TV, SCOPE + "Warping is specified in integer sixteenths of a pixel and compared exactly; the colour conversion in integers.")

prop("C24", "Information, PSNR, payload size and flop counts are what they say",
     "For all likelihoods, bases and memory layouts information_content is -log_base of the likelihoods, summed over everything, summed per batch element or not summed as asked, and refuses unknown reductions with ValueError; calc_psnr and calc_psnr_numpy are 10 log10(data_range^2 / MSE) for integer and floating images alike, infinite on equal images, and change no input. "
     "pickle_size_of is the size of the file pickle.dump writes for the object. "
     "count_flops sums over the operations run (single-flop operations and products always, the estimated ones only when asked, results and parts by operation), the caller's handlers take precedence for that call only, unhandled operations are reported, and the answer depends on no earlier call and leaves module and arguments as they were.",
     ["inputs", "histories", "configurations"], "all inputs, options and histories of calls",
     "tests sample a few values; no test makes two flop counts in a row with different overrides",
     ["neuralcompression/functional/_information_content.py", "neuralcompression/metrics/_calc_psnr.py", "neuralcompression/metrics/_pickle_size.py", "neuralcompression/functional/_count_flops.py"],
     [("reductions", "information_content"), ("handlers per call", "count_flops")],
     TV, SCOPE + "All programs and histories within small bounds are in the model; histories of three calls with different options are recorded from the code.")

prop("C25", "Image data sets are complete, genuine and listed in order after any history",
     "After any history of downloads (connections refused, broken off or ended early, extraction interrupted) and damage to files, a Kodak object that checks its hash exists only over the 24 genuine images, which it serves in order; download makes one request per image to the given address and refuses an existing directory with RuntimeError unless forced, a missing directory is refused with FileNotFoundError, damage with RuntimeError (or FileNotFoundError for a lost file), and a directory changes only by a download into it. "
     "CLIC2020Image with download=True ends with exactly the archive's images in the split's folder or raises, fetches an archive only while no genuine one is there, loses no image of any split and lists the folder's PNG files sorted by name. "
     "Every septuplet or listed image has exactly one index: Vimeo90kSeptuplet gives the first frames_per_group frames of each folder in list order as clips or frame by frame, OpenImagesV6 the sorted names of its list (without the known invalid ones of train), DIV2KDataset the sorted PNG files, transforms applied; indices past the end raise IndexError, invalid splits, group sizes and split/folder_list combinations ValueError, and a septuplet transform that returns no tensor RuntimeError.",
     ["histories", "crash points", "inputs"], "every history of downloads, faults and damage within the model, every folder listing and index",
     "tests mock the download or build one small folder; nothing interrupts a transfer, damages files or asks twice",
     ["neuralcompression/data/_kodak.py", "neuralcompression/data/_clic_2020_image.py", "neuralcompression/data/_vimeo_90k_septuplet.py", "neuralcompression/data/_openimages_v6.py", "neuralcompression/data/_div2k_dataset.py"],
     [("hash over all images in order", "Kodak._check_integrity"), ("validation folder renamed last", "CLIC2020Image.download"), ("index arithmetic", "Vimeo90kSeptuplet.__getitem__")],
     RP, SCOPE + "All 1,600 transitions of the two stores are replayed against a stand-in internet whose content passes for the official digests; archives are small.",
     [("root, g", "state of the image files", "Kodak.root"), ("zip, tree", "archives and folders per split", "CLIC2020Image.root")])

prop("C26", "Video and training loaders deliver every clip once, whole and in order",
     "For every set of videos, clip sampler, number of worker processes, order and history of complete or abandoned epochs, CLIC2020Video plays every clip the sampler cuts from every video exactly once per epoch, clips and frames in order (sequential sampling: videos in name order), augmentations of a clip sharing its frames, with frames_per_clip frames spread evenly from a clip's first to its last; its download brings all listed archives or raises, and an unknown split is refused with ValueError. "
     "UVGDataModule gives [1, T, 3, H, W] batches of consecutive frames of one video covering all frames in order, optionally normalised, and refuses T that do not divide 300 and directories where a batch would mix videos. "
     "The Vimeo (VCT and DVC), Kinetics and Open Images data modules load every item of the right split once per epoch in batches of the configured sizes, validation in order, all frames of a clip in order and under one common crop of the requested size, centred in validation (DVC: always), Kinetics clips scaled to [0, 1] and subsampled evenly (validation and test to the largest length asked), and OpenImagesDataModule refuses a missing image_size with ValueError.",
     ["histories", "schedules", "inputs", "configurations"], "every listing, sampler, worker count, epoch history and configuration",
     "tests take single items of CLIC2020Video with a random sampler; no test of the data modules",
     ["neuralcompression/data/_clic_2020_video.py", "projects/torch_vct/datamodules/uvg.py", "projects/torch_vct/datamodules/vimeo.py", "projects/torch_vct/datamodules/kinetics.py", "projects/deep_video_compression/data_module.py", "projects/illm/open_images_datamodule.py", "projects/illm/default_transforms.py"],
     [("current video and next clip", "CLIC2020Video.__getitem__/__next__/__iter__"), ("same random order in all workers", "CLIC2020Video.__iter__"), ("one video per batch", "UVGDataModule._custom_collate")],
     TV, SCOPE + "Frames carry their video and number, so contents are compared exactly; up to 3 worker processes; the Kinetics decoder is a stand-in.",
     [("order, at", "shared order and place per worker", "CLIC2020Video._video_sampler_iterator")])

prop("C27", "Experiments start, refuse, resume and load exactly as their configuration says",
     "For every history of starts, crashes and finished runs, the training scripts of illm, DVC and VCT refuse with RuntimeError, before touching anything, to train where checkpoints lie unless resume_training or overwrite is set; resuming continues from last.ckpt of the directory the checkpoints are saved to, overwriting and empty directories begin a new model, and the checkpoint callback, trainer and modules get exactly the configured settings. "
     "DVC runs its stages in sorted order, each in its own directory with its own resume, stage settings overriding base settings for that stage alone, and each on the model the stage before handed on; illm multiplies max_steps by its number of optimisers, freezes the latent projector in eval mode, and in test mode tests last.ckpt's weights in eval mode on every configured data set under its name, on one GPU at most. "
     "Pretrained weights (illm pretrained_*, VCT load_model_checkpoint_from_config) are exactly those under the 'model.' prefix, loaded strictly, from a missing file FileNotFoundError, VCT models in eval mode with updated entropy tables; image loggers log the configured examples (illm: the same in every run) and their reconstructions clipped to [0, 1], DVC as mosaics with clips downward and time rightward.",
     ["histories", "crash points", "configurations"], "every history of starts and crash points, option, stage history and checkpoint content",
     "no test runs the training scripts",
     ["projects/illm/train.py", "projects/deep_video_compression/train.py", "projects/torch_vct/model_train.py", "projects/torch_vct/utils/checkpoint_loaders.py"],
     [("checkpoint found and options", "fetch_checkpoint, run_training_stage, main"), ("stage after stage", "run_training_stage"), ("prefix strip and strict load", "pretrained_state_dict, load_model_checkpoint_from_config")],
     RP, SCOPE + "The trainer, logger, hydra and models are stand-ins; what lightning itself does with a checkpoint is not executed. With both options set in VCT nothing is claimed.",
     [("dir, prog", "checkpoints present and progress saved", "checkpoint directory")])

prop("C28", "Model zoo, hub entries and shipped configurations name what they load",
     "For every history of requests and failed downloads, a model asked for by name from neuralcompression.zoo or hubconf with pretrained weights has the published architecture and exactly the weights published under its name (msillm/noganms_quality_N: 0.035, 0.07, 0.14, 0.3, 0.45, 0.9 bpp for N = 1..6; msillm vlo1/vlo2: 0.00218/0.00438 bpp; the VQ-VAE), loaded strictly and fetched once per file, or the request raises; without weights (the zoo's default, not the hub's) no address is contacted, and weights not published are refused with ValueError. "
     "The shipped illm, VCT and DVC configurations compose: every class they name takes the settings given, rate targets have the rate in their name and end unscaled, hub names exist, autoencoder and projector match the zoo's architecture, the discriminator scores every label plus one at the projector's resolution, and the DVC stages are the module's in order. "
     "The folder evaluation example reports the mean bits per pixel and PSNR, MS-SSIM on 8-bit images and LPIPS and patch FID of exactly the pictures in the folder, from an updated model in eval mode without gradients.",
     ["histories", "faults", "configurations"], "every name, request history, connection fault, and shipped configuration",
     "no test of the zoo's weights, the hub entries or the configurations",
     ["neuralcompression/zoo/_msillm.py", "neuralcompression/zoo/_noganms.py", "neuralcompression/zoo/_msillm_vqvae.py", "hubconf.py", "projects/illm/eval_folder_example.py", "projects/illm/conf", "projects/torch_vct/config", "projects/deep_video_compression/config"],
     [("name to file", "msillm_quality_*, noganms_quality_*"), ("strict load of the fetched file", "_build_msillm, _build_noganms, _build_msillm_vqvae"), ("pass-through with pretrained default", "hubconf")],
     RP, SCOPE + "Published files are stand-ins of constant value served by a local stand-in for the network, through torch.hub's own download and cache.",
     [("kept", "files in the cache", "torch.hub cache")])

prop("C29", "Arithmetic-coded messages come back whole or are refused",
     "For every batch of non-empty messages, every probability table or message-adaptive model on the 16-bit scale that gives the coded symbols positive probability, and every buffer size, jax_arithmetic_coder.encode either gives one byte string per message from which decode returns exactly the messages, also when strings of different message lengths are decoded together (then as a list), or raises RuntimeError because a string does not fit its buffer; nothing that fits is refused. "
     "A message's bytes depend on that message and its model alone, not on the other items of the batch, and number at most two bits and a byte more than the message's information content.",
     ["inputs", "configurations"], "all messages, tables, adaptive models, batch compositions and buffer sizes",
     "tests code random messages with well-spread probabilities and ample buffers; long runs of pending bits, rare symbols and full buffers are not reached",
     ["projects/jax_entropy_coders/jax_arithmetic_coder.py"],
     [("low, high, pending bits", "_enqueue, _append_bit_and_pending"), ("value follows the same renormalisation", "_dequeue"), ("overrun test", "encode")],
     TV, SCOPE + "The model checks every message up to length 4 over every table at small precision; the code runs on a numpy stand-in for jax (not installed), with jax's promotion, wrap-around, clamped reads and dropped writes.",
     [("low, high, pending, bits", "range and bits written", "_enqueue"), ("value, low, high", "range and window", "_dequeue")])

prop("C30", "The rANS stack gives messages back last in, first out, bits-back included",
     "For every batch of messages (batch, length, lanes), every table or functional model up to 24 bits precision that gives the coded symbols positive frequency, every history of encodes appended to the buffers of earlier ones with no more lanes, and every tail capacity with room for the bytes written and one more per lane, craystack decode takes off the last message exactly, in the codec's message type, and leaves exactly the buffers as they were before it was put on, down to the empty message. "
     "Each item's buffer depends on its own message and model alone, the codec's final state is returned, inputs and start buffers are left alone, the size is the information content plus the heads, and capacities smaller than a buffer are refused with ValueError. "
     "bitsback_ans_codec is lossless for every prior, posterior and likelihood: on ample buffers it gives all bits back at the cost of the evidence bound for the latents drawn, and with empty pops allowed it works from nothing, and whatever lies beneath it comes off unharmed although the tail ran dry part of the way.",
     ["inputs", "histories", "configurations"], "all messages, models, lane counts, precisions, nesting histories and levels of the tail",
     "tests code random messages once with ample capacity; no test appends to a buffer nearly used up, nests several messages or checks what remains",
     ["projects/jax_entropy_coders/craystack/_backend.py", "projects/jax_entropy_coders/craystack/codecs.py", "projects/jax_entropy_coders/craystack/coder.py"],
     [("three renormalisation steps in lane order", "push_symbols/pop_symbols"), ("tail pointer", "tail_push/tail_pop"), ("embedding of buffers", "convert_to_embedded, encode, decode"), ("latent popped, pushed back", "bitsback_ans_codec")],
     TV, SCOPE + "The model checks all stacks of two lanes at small digit size; the code runs on a numpy stand-in for jax (not installed). Appending with more lanes than the buffer was coded with is outside the claim: the buffer does not record its lanes.",
     [("st", "heads and tail", "CrayCompressedMessage"), ("hist", "messages on the stack", "start_buffers")])

prop("C31", "Bits-back diffusion: batches come off last first, at the evidence bound's cost",
     "For every hierarchical model, data shape, range and precision, every history of encodes, decodes, saves (state_dict) and loads (load_state_dict, also into another codec of the same settings), with at least as many batches put on as taken off, BitsBackCodec.decode returns exactly the batch last put on and leaves exactly the message from before it; data_count, the statistics (total rate = message size, effective rate = its growth, used rate = growth plus the bytes the first batch borrowed, tracked rates per step summing to the effective rate) and what is loaded follow the message; "
     "data of another shape or outside [0, 2**data_prec - 1] and data shapes not of four dimensions are refused with ValueError, changing nothing. "
     "Encoding costs the evidence bound of the latents drawn: the top latent under N(0, 1) against q(z_T|x), each latent under its prior against its posterior at its own step, the data under the normal mass of the cell around its level, outer cells reaching to infinity and deviations clipped to clip_stdd; the model sees the data as levels of [data_min, data_max], and quantize gives the nearest level. "
     "DiffusionModel asks the diffusion for q at the last step, for p and the posterior at the given step, with its clip and log-variance settings.",
     ["inputs", "histories", "configurations"], "all models, batches, precisions, ranges and histories of coding, saving and loading",
     "the project's own test (not run: craystack is missing) codes one batch once with a model whose prior is its posterior",
     ["projects/bits_back_diffusion/bits_back_diffusion/codec.py"],
     [("pop posterior, push data, push prior", "BitsBackCodec.encode/decode, posterior, likelihood, prior_push/prior_pop"), ("sizes kept", "statistics, state_dict, load_state_dict, _track_codec"), ("cells around levels", "diag_gaussian_unif_bins, quantize")],
     TV, SCOPE + "The model checks a chain of two latents on one stack for every start at small digit size; the code runs on numpy stand-ins for craystack and improved_diffusion (not installed). Rates are compared for smooth models, where the bound is independent of the discretisation.",
     [("st", "message", "BitsBackCodec.message"), ("data", "batches on the message", "data_count"), ("extra", "bytes borrowed by the first batch", "extra_bytes"), ("saved", "saved state", "state_dict")])

prop("C32", "Bits-back scripts resume wherever they died and report what they did",
     "For every history of starts of encode.py in one run directory, each of which may die before any batch, save or write, the run continues from the furthest saved encoder state with the next unseen batch, saves encode-ckptNNNNNN.npz when the samples enter a new save_interval and at the end, decodes from the furthest decoder state, writes each batch before the state that passes it over, redoes no saved work, and ends, with the check on, with every batch file equal to its data, or fails if one is not; each process encodes its share of num_samples. "
     "Checkpoints are chosen by the highest step in a name of the asked prefix and suffix, in the given directory or the run's own, or are the given file; evaluation uses the averaged weights in eval mode, training resumes weights, step and each rate's average, averages never sharing memory with the model; vlbN, ddimN and section counts give exactly the promised time steps or ValueError, and the diffusion has the loss, prediction and variance type asked for. "
     "compute_vlb reports the running mean bound over all processes and the terms by step with the prior last, encode.py one row per batch and, tracked, the rates per step; wandb runs are one per log directory.",
     ["histories", "crash points", "configurations"], "every history of starts and crash points, directory content, step count and number of processes",
     "no test runs the project's scripts",
     ["projects/bits_back_diffusion/encode.py", "projects/bits_back_diffusion/compute_vlb.py", "projects/bits_back_diffusion/train.py", "projects/bits_back_diffusion/bits_back_diffusion/script_util.py", "projects/bits_back_diffusion/datasets/cifar10.py"],
     [("load, encode, save, decode, write, mark", "encode.main, encode, decode"), ("furthest checkpoint", "update_checkpoint, parse_resume_step_from_filename"), ("dense then even steps", "space_timesteps"), ("weights and mode", "setup, TrainLoop")],
     RP, SCOPE + "craystack, improved_diffusion, hydra, omegaconf, wandb and plotly are stand-ins; a process dies between steps, not inside a write; fewer than 100000 samples per process (six digits in names).",
     [("enc", "saved encoder states", "encode-ckpt*.npz"), ("dec", "saved decoder states", "decode-ckpt*.npz"), ("files", "batches written", "batch*.npz")])
