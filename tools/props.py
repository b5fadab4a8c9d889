P("P01", "Image codec: encoder and decoder derive the same entropy-coding tables",
  "When the image codec writes a bitstream, the distribution parameters used to code the latents are computed from the hyper-latents as the decoder will "
  "recover them from the bitstream (never from the unquantised ones), and the decoder recomputes exactly the same parameters from the same hyper-latent strings. "
  "The hyper-latent grid size the decoder uses is the one the encoder produced, and the decoded image is cut back to the original size and limited to the range 0..1.",
  ["inputs", "configurations"], "every image size and content, every weight setting, whether or not the decoder network sits on another device",
  "Tests compress a few small random images with one configuration; a mismatch that shows only for some sizes, weights or devices leaves them green.",
  [M + "_hific_autoencoder.py"], [("compress", M + "_hific_autoencoder.py"), ("decompress", M + "_hific_autoencoder.py")])
P("P02", "Padding is minimal, bottom/right only, and its undo information is kept",
  "Padding an image to a factor enlarges height and width to the next multiple of that factor and no further, only at the bottom and right, in the requested padding mode, "
  "and returns the original height and width in that order. The image codec records the caller's height and width and the padded height and width (in that order) with the bitstream.",
  ["inputs"], "every image size, factor and padding mode",
  "Tests sample a few sizes; sizes that are already multiples, or with different remainders for height and width, are where errors hide.",
  [FN + "_pad_image.py", M + "_hific_autoencoder.py"], [("pad_image_to_factor", FN + "_pad_image.py"), ("compress", M + "_hific_autoencoder.py")])
P("P03", "No bits are written or read with entropy-critical layers off the CPU",
  "Compression and decompression with the image codec are refused with an error exactly when some parameter is off the CPU and either the caller insisted on CPU or one of the five "
  "entropy-critical parts (both bottlenecks, hyper-analysis, both hyper-syntheses) is off the CPU. Switching to compression mode rebuilds the coding tables and moves exactly those five parts to the CPU; "
  "switching to forward mode moves everything to the encoder's device; any other mode name is refused, and the current mode is always reported correctly.",
  ["configurations", "histories"], "every placement of the parts on devices and every sequence of mode switches",
  "The test machine has no GPU, so no test can place a layer off the CPU; only the code's structure shows the refusal.",
  [M + "_hific_autoencoder.py"], [("update_tensor_devices", M + "_hific_autoencoder.py"), ("_on_cpu checks", M + "_hific_autoencoder.py")])
P("P04", "Frozen encoder and bottleneck stay frozen through every mode switch",
  "After the encoder or the bottleneck of the image codec has been frozen (at construction or later), every parameter of every part concerned no longer requires gradients and the part is in evaluation mode, "
  "and remains so through any later switch between training and evaluation. Freezing one does not freeze the other, and the frozen flags report what was frozen.",
  ["histories", "configurations"], "every sequence of freeze and mode-switch calls on every configuration",
  "Tests try one or two call sequences; forgetting one of the five bottleneck parts or one re-freeze is invisible to them.",
  [M + "_hific_autoencoder.py"], [("freeze_encoder / freeze_bottleneck / train", M + "_hific_autoencoder.py")])
P("P05", "Image codec networks: synthesis exactly inverts the analysis down-sampling",
  "The image encoder reduces each side by 16 and the hyper-analysis by another 4; the generator and both hyper-syntheses enlarge by exactly the same factors, with matching channel counts on both sides of each "
  "bottleneck for every choice of image channels, latent features, hyper features and residual-block count. The generator adds its residual trunk's input to the trunk's output.",
  ["configurations"], "every constructor configuration",
  "Tests construct one or two configurations and small images.",
  [M + "_hific_autoencoder.py", M + "_hific_encoder_decoder.py"], [("layer construction", M + "_hific_encoder_decoder.py")])
P("P06", "Training forward pass reports the right likelihoods, decodes the right latents",
  "The image codec's forward pass returns, each in its own field, the noisy-training likelihoods and the quantised likelihoods of latents and hyper-latents, the latter computed without gradient from the same inputs with quantisation on. "
  "In training the generator sees straight-through-quantised latents, otherwise the rounded ones; a model not in forward mode refuses.",
  ["inputs", "configurations"], "every input, in training and in evaluation mode",
  "Tests check shapes of the outputs, not which quantity went into which field or whether gradients are cut.",
  [M + "_hific_autoencoder.py"], [("forward", M + "_hific_autoencoder.py")])
P("P07", "Optimiser groups partition the trainable parameters",
  "Collecting the parameters of a hyperprior model yields two groups: every parameter that requires gradients is in exactly one of them, the entropy-model quantiles in the second and everything else in the first; frozen parameters are in neither.",
  ["configurations"], "every model and every set of frozen parameters",
  "No stable test freezes part of a model and then collects the parameters.",
  [M + "_hyperprior_autoencoder.py"], [("collect_parameters", M + "_hyperprior_autoencoder.py")])
P("P08", "Video codec: encoder and decoder form the same prediction",
  "The video encoder takes the residual against the prediction formed from the flow as the decoder will decode it, and the decoder forms the same prediction from the same reference frame and adds the decoded residual, limited to 0..1. "
  "The latent sizes the decoder assumes are those the encoder's stride-2 stages produced for any frame size, including odd ones; updating the coding tables updates both bottlenecks and reports if either changed; "
  "the training pass simulates the same computation and reports likelihoods of exactly the coded latents.",
  ["inputs", "configurations"], "every frame pair and size, every weight setting, every choice of replaced parts",
  "Tests use one frame size and random weights and check shapes only.",
  [M + "deep_video_compression.py"], [("DVC.compress / decompress / forward / update", M + "deep_video_compression.py")])
P("P09", "Video codec: every down-sampling is undone at exactly its recorded size",
  "The compression encoder records the input size of each of its strided convolutions in order; the decoder uses them last-in-first-out, one per transposed convolution, refuses a list of another length, and leaves the caller's list unchanged. "
  "Encoder and decoder have the same number of strided layers with the same kernel, stride and padding, separated by the divisive normalisation and its inverse.",
  ["inputs", "configurations"], "every frame size and every constructor configuration",
  "Tests cover one size and layer count.",
  [M + "deep_video_compression.py"], [("DVCCompressionEncoder / DVCCompressionDecoder", M + "deep_video_compression.py")])
P("P10", "Video motion: coarse-to-fine flow and motion compensation use matching levels",
  "Flow estimation processes the image pyramid from coarsest to finest, once per level, warping the first image of that level by the upsampled flow so far and adding the level's update; all levels' image pairs are returned, and images of unequal shape are refused. "
  "Motion compensation brings each coarser level back to exactly the size of the finer one before adding it.",
  ["inputs", "configurations"], "every image size and number of pyramid levels",
  "Tests check only output shapes for one size.",
  [M + "deep_video_compression.py"], [("DVCPyramidFlowEstimator, DVCMotionCompensationModel", M + "deep_video_compression.py")])
P("P11", "Divisive normalisation is safe and its inverse uses the same pool",
  "The divisive normalisation layers force their mixing weights to be non-negative and their offsets to be at least the configured minimum before every use, so the divisor is always positive. "
  "The forward layer divides by, and the inverse layer multiplies by, the same function of the input's absolute value.",
  ["inputs", "histories"], "every input and every parameter value an optimiser may have left behind",
  "Tests never leave the parameters in an invalid state first.",
  [L + "_simplified_gdn.py"], [("SimplifiedGDN / SimplifiedInverseGDN forward", L + "_simplified_gdn.py")])
P("P12", "Vector quantisation picks nearest code vectors and accounts for them exactly",
  "Each latent vector is replaced by the (normalised) codebook entry nearest in squared Euclidean distance, put back at its own position with gradients passed straight through, and each of the two auxiliary losses stops the gradient on the other side. "
  "The reported size is the number of vectors times the bits per index, in bytes; hit counters count every used index, can be reset to zero, and usage statistics of each level come from that level's counters.",
  ["inputs", "histories"], "every latent, codebook and sequence of uses and resets",
  "There are no stable tests of the vector-quantisation layers.",
  [L + "_q_bottleneck.py", L + "_vq_bottleneck.py"], [("quantize_vectors", L + "_q_bottleneck.py"), ("VQBottleneck.forward", L + "_vq_bottleneck.py")])
P("P13", "Latent-shaping layers act per position and leave positions and batch items apart",
  "Channel normalisation standardises every position over its own channels (with the small constant inside the root) and applies a per-channel affine map that starts as the identity, refusing single-channel inputs. "
  "Latent normalisation and projection act along channels only and wrap their child layer; cross-covariance attention mixes channels within a head, never batch items, and has the configured heads, biases and dropouts.",
  ["inputs", "configurations"], "every input shape and configuration",
  "Tests compare one layer with one reference case.",
  [L + "_channel_norm.py", L + "_normalize_latent.py", L + "_project_latent.py", L + "_xca.py"], [("forward methods", L)])
P("P14", "Adversarial losses: generator and discriminator agree on the labels",
  "The discriminator loss drives real outputs to the target and fake outputs to 'fake' (zero, or class 0 in the multi-class variant) with equal weight one half; the generator loss drives its outputs to the label the discriminator uses for real ones. "
  "In the multi-class variant real labels are shifted by one so class 0 always means fake, and targets of the wrong kind or size are refused.",
  ["inputs"], "every logits and target tensor",
  "Tests compare a few shapes with a reference formula.",
  ["neuralcompression/loss_fn/_binary_crossentropy_loss.py", "neuralcompression/loss_fn/_oasis_loss.py"], [("loss __call__ methods", "neuralcompression/loss_fn/")])
P("P15", "Distortion losses and rate-target settings mean what they say",
  "The squared-error loss is scaled by its parameter (by default to the 0..255 scale), and the combined loss is the weighted sum of squared error and perceptual distance with each term carrying its own weight; the perceptual network treats both images alike, "
  "protects its normalisation inside the square root, is never trained and never leaves evaluation mode. Rate-target settings require exactly one more factor than steps for both schedules and read back every value under its own name.",
  ["inputs", "configurations"], "every image pair, weight setting and schedule",
  "Tests evaluate defaults on random images; zero-norm features, mode switches and non-default weights are not reached.",
  ["neuralcompression/loss_fn/_mse_loss.py", "neuralcompression/loss_fn/_mse_lpips_loss.py", "neuralcompression/loss_fn/_normfix_lpips.py", "neuralcompression/loss_fn/_target_rate_config.py"],
  [("loss classes", "neuralcompression/loss_fn/")])
P("P16", "Continuous entropy layer: valid arguments only, tables that match the prior",
  "A continuous-entropy layer accepts exactly the documented argument combinations (when compressible: one of a prior, ready-made tables given all three together, or a maximum size that is not stateless; otherwise none of the tables; and always a prior or both prior shape and type), "
  "reads every setting back under its own name, and refuses table access when not compressible. Tables built from a prior have, for every context, one entry per integer from the first to the last value between the prior's tails, followed by an overflow entry with the remaining mass, "
  "with that context's size and offset. Quantising rounds to the nearest integer after subtracting the offset.",
  ["inputs", "configurations"], "every argument combination, every prior and tail mass",
  "Tests try a few argument combinations and one prior; which table rows, sizes and offsets belong together is not looked at.",
  [L + "_continuous_entropy.py"], [("ContinuousEntropy.__init__ / _update / quantize", L + "_continuous_entropy.py")])
ME = "neuralcompression/metrics/"
DA = "neuralcompression/data/"
DI = "neuralcompression/distributions/"
P("P17", "Set metrics keep all updates and never mix real with generated",
  "The Frechet and kernel distances keep the features of every update, real ones apart from generated ones, and compute on both full sets (double precision for the Frechet ones); every constructor setting of the kernel distance is honoured and its mean comes before its deviation. "
  "Images are brought to the scale the feature network expects. The structure-texture and multi-scale similarity metrics accumulate sum and image count together, check shapes and value range where documented, and return the mean over all images of all updates (or the sum if asked). "
  "States start empty or at zero and are combined across processes by concatenation or sum accordingly; the feature networks never leave evaluation mode.",
  ["inputs", "histories", "configurations"], "every sequence of updates, batch sizes and settings, on any number of processes",
  "Tests update once or twice with equal batches and defaults on one process.",
  [ME + "_fid.py", ME + "_fid_swav.py", ME + "_kid.py", ME + "_dists.py", ME + "_msssim.py"], [("update / compute / __init__", ME)])
P("P18", "Patch metrics see the full patch grid and the half-shifted grid of both images",
  "Updating patch metrics feeds every metric given the non-overlapping patches of real and generated image alike, and, when both sides measure at least one and a half patches, also the patches of the grid shifted by half a patch in both directions; the returned count is the number of patches fed. "
  "A metric that was not given is not touched, and a call without any metric is refused.",
  ["inputs", "configurations"], "every image size, patch size and subset of metrics",
  "Tests use one size; sizes where only one grid fits are not covered.",
  [ME + "_update_patch_fid.py"], [("update_patch_fid", ME + "_update_patch_fid.py")])
P("P19", "Scalar image measures follow their published definitions",
  "Conversion to the 0..255 scale refuses values outside 0..1 and rounds to nearest, in the requested type. Peak signal-to-noise ratio is 10 log10(range^2 / mean squared error). Multi-scale similarity uses contrast-structure at all scales but the last and full similarity at the last, each raised to its own weight, "
  "with padding that keeps odd sizes whole, and refuses images too small for the window at the coarsest scale. The perceptual distance uses the requested network, version and calibration and reduction. The pickled size is the number of bytes pickling writes.",
  ["inputs", "configurations"], "every image and setting",
  "Tests compare a few images with a reference.",
  [FN + "_image_to_255_scale.py", FN + "_multiscale_structural_similarity.py", FN + "_lpips.py", ME + "_calc_psnr.py", ME + "_pickle_size.py"], [("functions", FN)])
P("P20", "Learning-rate schedules have the documented shape at every step",
  "The identity schedule never changes the rate; the ramp-cosine schedule rises linearly from zero to one over the ramp steps and then follows a quarter cosine scaled by the maximum number of steps; the ramp-constant-cosine schedule ramps, stays at one, and decays by a quarter cosine over exactly the last cosine steps. "
  "None goes below the minimum value.",
  ["inputs", "configurations"], "every step number and configuration",
  "Tests look at a few steps of one configuration.",
  ["neuralcompression/optim/"], [("schedules", "neuralcompression/optim/")])
P("P21", "Datasets: an index always names the same item, and bad requests are refused",
  "Image datasets list exactly the files of the requested split in sorted order and return the file an index names, transformed once. Kodak overwrites an existing directory only by force and refuses missing data and wrong hashes; OpenImages leaves out the known bad images of the training split only. "
  "Vimeo-90k needs exactly one of split and folder list and one to seven frames, returns the first frames of a folder in order, or in image mode counts and addresses every frame of every folder once. "
  "CLIC video reads frames in temporal order, continues a video until its last clip with its own index, then starts the next; sampled frames are spread evenly from first to last.",
  ["inputs", "configurations", "histories"], "every directory content, index, split and access sequence",
  "Tests use generated toy directories with few files and mostly defaults.",
  [DA], [("dataset classes", DA)])
P("P22", "Model zoo and hub entries build the model their name states",
  "Every zoo function and hub entry of a quality level builds the published architecture of that family and, when pretrained weights are asked for, loads the weights whose name carries that family and that level's target rate; otherwise it downloads nothing. Hub entries return the same model as the zoo function of the same name.",
  ["configurations"], "every entry, with and without pretrained weights",
  "Weights cannot be downloaded in tests, so tests only build untrained models.",
  ["neuralcompression/zoo/", "hubconf.py"], [("entry functions", "neuralcompression/zoo/")])
P("P23", "Distribution functions are the ones named, in their numerically safe forms",
  "The normal distribution function, its logarithm, the log distribution, survival and log survival functions compute those quantities for every distribution, for normals through the standardised value and by symmetry; the logarithm picks its lower and upper switch-over from the input's precision (-10 and 5 in single, -20 and 8 in double) and refuses other types. "
  "Information content is minus the log to the given base, summed over everything, per batch element or not at all, and refuses other reductions; log(exp(x)-1) switches to x from 15 on and keeps the unused branch finite.",
  ["inputs"], "every input value, precision, distribution and reduction",
  "Tests compare moderate values with a reference; switch-over points and non-default arguments are hardly reached.",
  [FN + "_ndtr.py", FN + "_log_ndtr.py", FN + "_log_cdf.py", FN + "_survival_function.py", FN + "_log_survival_function.py", FN + "_information_content.py", FN + "_log_expm1.py"], [("functions", FN)])
P("P24", "Soft rounding inverts itself; tails and offsets belong to the right side",
  "Soft rounding is the identity below the threshold and otherwise the tanh staircase around each half-integer; its inverse uses the same threshold and stays within the unit interval, and the conditional mean is the inverse shifted by one half. "
  "The quantisation offset is the distance of the mean from the nearest integer without gradient (zero without a mean). The lower (upper) tail leaves half of the tail mass below (above) it, from the quantile function or, if there is none, by searching the log distribution (log survival) function; results are detached. "
  "The search descends on the distance to the target until every element has made 100 steps after crossing.",
  ["inputs"], "every input, sharpness, distribution and tail mass",
  "Tests use symmetric distributions and a few sharpness values, for which swapped sides or thresholds agree.",
  [FN + "_soft_round.py", FN + "_soft_round_inverse.py", FN + "_soft_round_conditional_mean.py", FN + "_quantization_offset.py", FN + "_lower_tail.py", FN + "_upper_tail.py", FN + "_estimate_tails.py"], [("functions", FN)])
P("P25", "Lower bound: value is the maximum, gradient as selected",
  "The lower bound returns the elementwise maximum of input and bound. Its gradient with respect to the input is the incoming one everywhere ('identity'), only where the input is at or above the bound ('disconnected'), or also where a descent step would raise the input ('identity_if_towards', the default); none flows to the bound; other names are refused.",
  ["inputs"], "every input, bound and incoming gradient",
  "Tests check a few values per mode.",
  [FN + "_lower_bound.py"], [("lower_bound", FN + "_lower_bound.py")])
P("P26", "Uniform-noise distribution is consistent with its base distribution",
  "The mass of a value under a distribution with additive uniform noise is the base's mass of the unit interval around it, in plain and log form, each computed from the side with the smaller numbers. Sampling adds independent noise from [-1/2, 1/2) to every element; expanding keeps the noise; "
  "mean, shapes, support, offset, tails and (log) distribution and survival functions are the base's; the noisy normal's base is the normal of the given mean and deviation.",
  ["inputs"], "every base distribution and value",
  "Tests use a normal base and a few values.",
  [DI + "_uniform_noise.py", DI + "_noisy_normal.py"], [("UniformNoise", DI + "_uniform_noise.py")])
P("P27", "Warping samples at position plus flow; colours follow the flow",
  "Warping refuses flows of another type, device or with a last dimension other than two, and otherwise samples the image at each position of the -1..1 grid of the flow's size plus the flow (x before y) with the requested interpolation, padding and corner alignment. "
  "HSV to RGB refuses inputs that are not batches of three channels with hue in 0..360 and saturation and value in 0..1, and computes red, green and blue from the hue sextant. Flow colouring uses direction as hue, full saturation, and length minus its minimum over its maximum as value.",
  ["inputs"], "every image, flow and option",
  "Tests compare a few random flows with one reference implementation.",
  [FN + "_dense_image_warp.py", FN + "_hsv_to_rgb.py", FN + "_optical_flow_to_color.py"], [("functions", FN)])
P("P28", "Operation counting honours options per call and remembers nothing",
  "Counting operations counts every plain or in-place elementwise operation (abs, add, div, mul, neg, rsub, sign, sub) once per output element, costly elementwise operations (exp, log, sqrt, ...) only when estimates are asked for, and lets the caller's handlers win over both; "
  "empty_like and numel are ignored; the result is total, per-operator counts and unsupported operators; no call influences a later one.",
  ["inputs", "histories"], "every sequence of calls with every option",
  "Tests call it with a few settings; a handler leaking into a later call is not looked for.",
  [FN + "_count_flops.py"], [("count_flops", FN + "_count_flops.py")])
P("P29", "VQ-VAE autoencoder pads, codes, crops, and keeps frozen parts frozen",
  "The autoencoder freezes the encoder and the bottleneck (evaluation mode, no gradients) before every use when asked to; in evaluation it pads the image by reflection at the bottom and right to the next multiple of its factor (two per level after the first), and returns the decoder's output cut to the input's size. "
  "Encoder and decoder apply their levels in order (decoder in reverse with one block more), with attention at the given resolutions, one halving or doubling between levels; residual blocks project their shortcut exactly when channels change. The label projector returns the bottleneck's indices and is never trained or in training mode.",
  ["inputs", "configurations", "histories"], "every image size, configuration, and sequence of mode switches",
  "Tests use one configuration and sizes; modes are not switched between calls.",
  [M + "_vqvae_xcit_autoencoder.py", M + "_vqvae_projector.py"], [("VqVaeXCiTAutoencoder", M + "_vqvae_xcit_autoencoder.py")])
P("P30", "U-Net discriminator: output factor, channels and context are as asked",
  "The discriminator has one down-sampling level per channel step; the top log2(factor) levels do not come back up, so its output is down-sampled by exactly the given power of two (others are refused), and every convolution's input channels match what reaches it for every factor. "
  "Every level adds its shortcuts on both sides. The conditional one processes the context, brings it to the image's height and width, and appends it after the image's channels; each tells whether it takes a context.",
  ["inputs", "configurations"], "every factor from 1 to 64, normalisation, channel list and image",
  "Tests use a few factors (two of the possible ones crashed before this work).",
  [M + "_unet_discriminator.py"], [("_UnetLevel / UnetDiscriminator", M + "_unet_discriminator.py")])
VC = "projects/torch_vct/"
P("P31", "VCT bottleneck: encoder and decoder use the same integer-indexed tables",
  "The transformer codec's bottleneck maps every positive scale to an index on a log grid between the smallest and the largest scale (and back), keeps mean and scale indexes within their own ranges, and numbers table rows with means outer and scales inner both when the tables are built and when they are used. "
  "Each row covers the floor of the lower tail to the ceiling of the upper one plus the overflow, with the size and offset of that row. Compression codes the input minus the rounded mean and returns what decompression, given the same mean and scale, returns from the strings. "
  "The likelihood is the mass of the unit interval around the noisy (training) or rounded value; settings that contradict each other are refused.",
  ["inputs", "configurations"], "every mean, scale and latent, every number of means and scales",
  "Tests use one setting of the grid and a handful of values, and tables swapped or shifted consistently within one of the sides still pass shape checks.",
  [VC + "neural/bottlenecks.py"], [("GsnConditionalLocScaleShift / LocationScaleIndexedEntropyModel / ScaleMapper", VC + "neural/bottlenecks.py")])
P("P32", "VCT entropy model: a symbol's distribution depends only on decoded symbols",
  "The transformer codec's entropy model predicts the mean and scale of symbol i of a window from the already quantised symbols before i (behind a learned start symbol) and from the encoded previous latents only; the encoder codes and the decoder decodes symbol i with these, strings in symbol order, every string used. "
  "Too-short histories are filled by repeating the oldest latent, unsupported lengths are refused. Windows are put back and cut to the latent's size, bits are eight per byte over all strings, the latent returned by compression is the one the decoder obtains (or the rounded one when decoding is skipped), and mismatching dimensions or several clips are refused.",
  ["inputs", "configurations", "schedules"], "every latent and history, every window size and context length",
  "Tests check shapes and one round trip on random weights, where a look-ahead or an unused string makes no visible difference.",
  [VC + "neural/entropy_model.py"], [("VCTEntropyModel", VC + "neural/entropy_model.py")])
P("P33", "VCT transformer layers: causal masking, residuals, and attention as specified",
  "Only a decoder block masks, and it masks exactly the later places, so that no output place depends on a later input place: masked places get zero weight after the softmax. Attention is scaled by the square root of the head's width, and heads must divide the width. "
  "Every block adds its input around normalised self-attention, cross-attention and both feed-forward parts; a decoder without encoder output, mismatching widths, key/value lengths or mask shapes are refused. The start symbol shifts everything one place to the right; positions are added per place. "
  "Stochastic depth is the identity outside training and otherwise keeps whole examples with the keep probability, rescaled. The convolution helpers keep the size at stride one and multiply it by the stride when transposed.",
  ["inputs", "configurations"], "every input, number of heads and layers, mask",
  "Tests check shapes; a mask off by one place or a missing residual has the same shapes.",
  [VC + "neural/entropy_model_layers.py", VC + "neural/layers_utils.py"], [("TransformerBlock / WindowMultiHeadAttention / StartSym", VC + "neural/entropy_model_layers.py")])
P("P34", "VCT patcher: cutting and putting back are exact inverses",
  "The patcher pads to a multiple of the stride at the bottom and right, plus half of what patches exceed the stride by on every side, and reports the number of patches in height, then width. Patches and the pixels in them are in row-major order, channels last, with or without overlap; "
  "putting back inverts cutting without overlap and crops to the given height and width. Patches smaller than the stride, with odd excess, or sizes that are no multiples are refused.",
  ["inputs", "configurations"], "every image size, patch size and stride",
  "Tests use a few sizes; square ones hide exchanged height and width.",
  [VC + "neural/patcher.py"], [("Patcher", VC + "neural/patcher.py")])
P("P35", "VCT transforms treat every frame of every clip by itself and in order",
  "The analysis transforms halve each side four times and the synthesis transforms double it four times through the configured channels; the compression channels and the number of halvings are reported as built, and contradicting channel lists are refused. "
  "Frames are processed independently of each other (in chunks of limited size where so configured) and come back at their own clip and time; synthesis cuts to the clip's height and width. Video containers accept only batches of clips of three-channel frames, report height then width, and iterate over latents in time order.",
  ["inputs", "configurations"], "every number of clips, frames and channels, every frame size and chunk size",
  "Tests use one clip layout; exchanged clip and time axes, or a lost last chunk, only show for others.",
  [VC + "neural/transforms.py", VC + "datamodules/video_data_api.py"], [("ELICAnalysis / ELICSynthesis / ConvGDN*", VC + "neural/transforms.py")])
P("P36", "Memoisation never returns the result of another computation",
  "A memoised function bound to no cache is just called. Bound to a cache, it returns the stored result exactly when the same function was called before with equal positional and keyword arguments (cache objects among them left out; sequences and mappings by content in order, tensors by identity for as long as the cache lives), and counts the hit; "
  "otherwise it computes and stores the result once. An expectation (hit or no hit) that does not come true is refused.",
  ["histories", "inputs"], "every sequence of calls with every kind of arguments, including tensors freed between calls",
  "Tests keep all their tensors alive; a freed tensor whose identity is reused gave a stale result before this work.",
  [VC + "utils/memoize.py"], [("memoize / bind / _ensure_hashable", VC + "utils/memoize.py")])
P("P37", "VCT learning-rate schedules follow ramp, warm-up and cosine at every step",
  "The ramp-cosine schedule is the smaller of a linear ramp that reaches the base rate at its end and a cosine from the base rate to the minimum; the ramp-linear one is the ramp and then the base rate; the warm-up one is the base rate during warm-up and then the cosine. "
  "All hold for every parameter group's own base rate, and the settings are stored before the first rate is computed.",
  ["inputs", "histories"], "every step number, every setting, any number of parameter groups",
  "Tests look at a few steps of one group.",
  [VC + "utils/schedulers.py"], [("get_lr", VC + "utils/schedulers.py")])
P("P38", "VCT pipeline: encoder and decoder walk through the same states",
  "The pipeline encodes the first scene against a learned token and every later scene with its own index against the state left by decoding the scene before; the next state is made from the bottleneck that is transmitted, and decoding from the bottlenecks alone goes through the same states; at most the last context-length latents are kept, and the entropy model is built for the same context length. "
  "Every reconstruction is decoded from the bottleneck whose likelihood is returned with it, in scene order. In evaluation the video is padded (by reflection, at the end) and results are cut back to its own height and width. Rates are minus the base-2 logarithm of the likelihoods. "
  "Nothing is coded to strings before compression was prepared (evaluation mode, tables built); several clips, mismatching channels and devices other than the CPU when it is forced are refused.",
  ["inputs", "configurations", "histories"], "every video, number of scenes, context length and caching",
  "Tests run one short random video; a state built from the wrong scene has the right shape.",
  [VC + "model_pipeline.py"], [("VCTPipeline", VC + "model_pipeline.py")])
