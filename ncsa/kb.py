"""Knowledge base: signatures of the external functions the repository uses, aliases, purity."""
import ast

# tensor functions usable as torch.f(x, ...), F.f(x, ...) or x.f(...): first parameter is the tensor.
_SIGS = """
clamp(x, min=None, max=None)
clip(x, min=None, max=None)
sum(x, dim=None, keepdim=False, dtype=None)
mean(x, dim=None, keepdim=False, dtype=None)
prod(x, dim=None, keepdim=False)
var(x, dim=None, unbiased=True, keepdim=False)
std(x, dim=None, unbiased=True, keepdim=False)
argmin(x, dim=None, keepdim=False)
argmax(x, dim=None, keepdim=False)
softmax(x, dim=None, dtype=None)
log_softmax(x, dim=None, dtype=None)
pad(x, pad, mode='constant', value=None)
interpolate(x, size=None, scale_factor=None, mode='nearest', align_corners=None, recompute_scale_factor=None, antialias=False)
grid_sample(x, grid, mode='bilinear', padding_mode='zeros', align_corners=None)
unfold(x, kernel_size, dilation=1, padding=0, stride=1)
fold(x, output_size, kernel_size, dilation=1, padding=0, stride=1)
conv2d(x, weight, bias=None, stride=1, padding=0, dilation=1, groups=1)
avg_pool2d(x, kernel_size, stride=None, padding=0, ceil_mode=False, count_include_pad=True, divisor_override=None)
normalize(x, p=2.0, dim=1, eps=1e-12, out=None)
mse_loss(x, target, size_average=None, reduce=None, reduction='mean')
cross_entropy(x, target, weight=None, size_average=None, ignore_index=-100, reduce=None, reduction='mean', label_smoothing=0.0)
binary_cross_entropy_with_logits(x, target, weight=None, size_average=None, reduce=None, reduction='mean', pos_weight=None)
embedding(x, weight)
one_hot(x, num_classes=-1)
cat(tensors, dim=0)
concat(tensors, dim=0)
stack(tensors, dim=0)
unsqueeze(x, dim)
squeeze(x, dim=None)
flatten(x, start_dim=0, end_dim=-1)
transpose(x, dim0, dim1)
matmul(x, other)
mm(x, other)
bmm(x, other)
cumsum(x, dim)
sort(x, dim=-1, descending=False)
triu(x, diagonal=0)
tril(x, diagonal=0)
diag(x, diagonal=0)
index_select(x, dim, index)
gather(x, dim, index)
masked_fill(x, mask, value)
norm(x, p='fro', dim=None, keepdim=False)
bincount(x, weights=None, minlength=0)
leaky_relu(x, negative_slope=0.01, inplace=False)
dropout(x, p=0.5, training=True, inplace=False)
fmod(x, other)
remainder(x, other)
broadcast_to(x, size)
chunk(x, chunks, dim=0)
split(x, split_size, dim=0)
full_like(x, fill_value, dtype=None, device=None)
zeros_like(x, dtype=None, device=None)
ones_like(x, dtype=None, device=None)
rand_like(x, dtype=None, device=None)
randn_like(x, dtype=None, device=None)
allclose(x, other, rtol=1e-05, atol=1e-08, equal_nan=False)
isclose(x, other, rtol=1e-05, atol=1e-08, equal_nan=False)
equal(x, other)
einsum(equation, operands)
searchsorted(x, v, right=False)
max(x, dim=None, keepdim=False)
min(x, dim=None, keepdim=False)
median(x, dim=None, keepdim=False)
cumprod(x, dim)
logsumexp(x, dim, keepdim=False)
"""

# tensor functions with one argument and no options
UNARY = """exp log log2 log10 log1p expm1 sin cos tan tanh sigmoid erf erfc erfinv sqrt rsqrt ceil floor round
trunc sign atanh acos asin atan relu reciprocal isnan isinf softplus logsigmoid lgamma sinh cosh ndtr""".split()

# one-tensor methods that stay uninterpreted
OPAQUE_METHODS = """cpu cuda float double half int long bool item numpy tolist numel detach clone contiguous
byte any all isfinite t element_size is_floating_point type_as""".split()

# shape-argument methods: x.f(*dims) or x.f(dims)
SHAPE_METHODS = "view reshape permute expand repeat tile new_zeros new_ones new_empty roll flip movedim sum_to_size".split()

CTORS = """
torch.nn.Conv2d(in_channels, out_channels, kernel_size, stride=1, padding=0, dilation=1, groups=1, bias=True, padding_mode='zeros')
torch.nn.ConvTranspose2d(in_channels, out_channels, kernel_size, stride=1, padding=0, output_padding=0, groups=1, bias=True, dilation=1, padding_mode='zeros')
torch.nn.Linear(in_features, out_features, bias=True)
torch.nn.LayerNorm(normalized_shape, eps=1e-05, elementwise_affine=True)
torch.nn.GroupNorm(num_groups, num_channels, eps=1e-05, affine=True)
torch.nn.InstanceNorm2d(num_features, eps=1e-05, momentum=0.1, affine=False, track_running_stats=False)
torch.nn.BatchNorm2d(num_features, eps=1e-05, momentum=0.1, affine=True, track_running_stats=True)
torch.nn.LeakyReLU(negative_slope=0.01, inplace=False)
torch.nn.ReLU(inplace=False)
torch.nn.Dropout(p=0.5, inplace=False)
torch.nn.Upsample(size=None, scale_factor=None, mode='nearest', align_corners=None)
torch.nn.Parameter(data, requires_grad=True)
torch.nn.Embedding(num_embeddings, embedding_dim)
torch.nn.AvgPool2d(kernel_size, stride=None, padding=0, ceil_mode=False, count_include_pad=True, divisor_override=None)
torch.nn.Softmax(dim=None)
torch.zeros(*size, dtype=None, device=None)
torch.ones(*size, dtype=None, device=None)
torch.empty(*size, dtype=None, device=None)
torch.rand(*size, dtype=None, device=None)
torch.randn(*size, dtype=None, device=None)
torch.full(size, fill_value, dtype=None, device=None)
torch.tensor(data, dtype=None, device=None, requires_grad=False)
torch.as_tensor(data, dtype=None, device=None)
torch.linspace(start, end, steps, dtype=None, device=None)
torch.meshgrid(*tensors, indexing=None)
torch.hub.load_state_dict_from_url(url, model_dir=None, map_location=None, progress=True, check_hash=False, file_name=None)
torch.load(f, map_location=None)
torch.optim.lr_scheduler._LRScheduler(optimizer, last_epoch=-1, verbose=False)
torch.optim.lr_scheduler.LRScheduler(optimizer, last_epoch=-1, verbose=False)
torch.optim.lr_scheduler.LambdaLR(optimizer, lr_lambda, last_epoch=-1, verbose=False)
compressai.entropy_models.EntropyBottleneck(channels, tail_mass=1e-09, init_scale=10, filters=(3,3,3,3))
compressai.entropy_models.GaussianConditional(scale_table, scale_bound=0.11, tail_mass=1e-09)
torch.distributions.Normal(loc, scale, validate_args=None)
torch.distributions.Uniform(low, high, validate_args=None)
math.log(x, base=None)
torch_fidelity.metric_fid.fid_statistics_to_metric(stat_1, stat_2, verbose)
torch_fidelity.metric_fid.fid_features_to_statistics(features)
torch_fidelity.metric_kid.kid_features_to_metric(features_1, features_2)
fvcore.nn.FlopCountAnalysis(model, inputs)
torchmetrics.MeanMetric()
open(file, mode='r')
"""


# methods of objects built by external constructors ("" is the call itself)
METHODS = """
compressai.entropy_models.EntropyBottleneck.(x, training=None)
compressai.entropy_models.EntropyBottleneck.compress(x)
compressai.entropy_models.EntropyBottleneck.decompress(strings, size)
compressai.entropy_models.EntropyBottleneck.update(force=False)
compressai.entropy_models.GaussianConditional.(inputs, scales, means=None, training=None)
compressai.entropy_models.GaussianConditional.build_indexes(scales)
compressai.entropy_models.GaussianConditional.compress(inputs, indexes, means=None)
compressai.entropy_models.GaussianConditional.decompress(strings, indexes, dtype=None, means=None)
compressai.entropy_models.GaussianConditional.update()
"""


class Sig:
    def __init__(self, text):
        f = ast.parse("def %s: pass" % text).body[0] if not "." in text.split("(")[0] else None
        if f is None:
            head, rest = text.split("(", 1)
            f = ast.parse("def f(%s: pass" % rest).body[0]
            self.name = head
        else:
            self.name = f.name
        a = f.args
        self.params = [p.arg for p in a.args]
        self.defaults = {}
        for p, d in zip(self.params[len(self.params) - len(a.defaults):], a.defaults):
            self.defaults[p] = d
        self.vararg = a.vararg.arg if a.vararg else None
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            self.params_kw = True
            if d is not None:
                self.defaults[p.arg] = d
        self.kwonly = [p.arg for p in a.kwonlyargs]


TENSOR_SIGS = {}
for _l in _SIGS.strip().splitlines():
    _s = Sig(_l)
    TENSOR_SIGS[_s.name] = _s
CTOR_SIGS = {}
for _l in CTORS.strip().splitlines():
    _s = Sig(_l)
    CTOR_SIGS[_s.name] = _s

METHOD_SIGS = {}
for _l in METHODS.strip().splitlines():
    _s = Sig(_l)
    METHOD_SIGS[tuple(_s.name.rsplit(".", 1))] = _s

ALIASES = {
    "clip": "clamp", "concat": "cat", "view": "reshape", "absolute": "abs", "negative": "neg", "divide": "div",
    "true_divide": "div", "multiply": "mul", "subtract": "sub", "mm": "matmul", "bmm": "matmul",
    "conv_2d": "conv2d", "swapaxes": "transpose", "greater": "gt", "less": "lt",
}

EXT_ALIASES = {
    "torch.nn.parameter.Parameter": "torch.nn.Parameter",
    "torch.nn.modules.Module": "torch.nn.Module",
    "torch.distributions.normal.Normal": "torch.distributions.Normal",
    "torch.distributions.uniform.Uniform": "torch.distributions.Uniform",
    "numpy.inf": "math.inf",
    "torch.inf": "math.inf",
    "numpy.pi": "math.pi",
    "torch.pi": "math.pi",
    "torch.float": "torch.float32",
    "torch.double": "torch.float64",
    "torch.long": "torch.int64",
    "torch.int": "torch.int32",
    "torch.half": "torch.float16",
    "numpy.float": "float",
}

# method / function names whose call is an observable effect on the receiver
IMPURE = set("""update load_state_dict train eval requires_grad_ step zero_grad backward manual_backward reset
clip_gradients register_buffer register_parameter add_module write writelines mkdir rmtree unlink extractall
urlretrieve add_state copy_ fill_ zero_ data_ptr save_for_backward mark_non_differentiable log log_dict setup fit test
update_tensor_devices write_text write_bytes remove rename move cuda_ close seek save dump set_handle""".split())

# calls whose effects are irrelevant to every property
IGNORED_CALLS = ("print", "logging.", "warnings.", "time.", "tqdm.write")

PURE_BUILTINS = set("""len int float str bool abs min max sum any all range zip enumerate reversed sorted list tuple dict
set frozenset isinstance issubclass getattr hasattr type repr id hash round pow divmod callable iter next map filter
format slice bytes bytearray vars dir chr ord hex""".split())

# functions whose result shares storage with the first argument
ALIAS_FNS = set("t:reshape t:permute t:transpose t:unsqueeze t:squeeze t:flatten t:expand t:detach ng t:t t:chunk t:split t:broadcast_to t:movedim".split())

# Functions understood well enough that two different ones certainly denote different values.
KNOWN = set(UNARY) | set(OPAQUE_METHODS) | set(SHAPE_METHODS) | set(TENSOR_SIGS)

# modules without parameters of their own: one may stand for another
STATELESS = {"ReLU", "LeakyReLU", "GELU", "Sigmoid", "Tanh", "Softmax", "Dropout", "Identity", "AvgPool2d", "MaxPool2d", "Upsample", "Flatten", "Unflatten", "Softplus", "ELU", "SiLU",
             "ZeroPad2d", "ReflectionPad2d", "PixelShuffle", "Sequential", "ModuleList", "ModuleDict", "Size", "Tensor", "Generator", "LowerBound"}
