"""Operation counter."""
from fvcore.nn import FlopCountAnalysis
from fvcore.nn.jit_handles import generic_activation_jit

BASE = ["abs", "add", "div", "mul", "neg", "rsub", "sign", "sub"]
EXTRA = ["erfc", "exp", "log", "log10", "log2", "pow", "reciprocal", "rsqrt", "sigmoid", "softplus", "sqrt", "tanh", "uniform"]


@contract("neuralcompression.functional.count_flops")
def count_flops(module, inputs, counter_overrides=None, use_single_flop_estimates=False):
    """Overrides win over estimates, estimates are used only on request, every plain and in-place elementwise operation counts one per output element; no counter of one call survives into the next."""
    c = {}
    for n in BASE:
        c["aten::" + n] = generic_activation_jit("aten::" + n)
    for n in BASE:
        c["aten::" + n + "_"] = generic_activation_jit("aten::" + n + "_")
    if use_single_flop_estimates:
        for n in EXTRA:
            c["aten::" + n] = generic_activation_jit("aten::" + n)
        for n in EXTRA:
            c["aten::" + n + "_"] = generic_activation_jit("aten::" + n + "_")
    if counter_overrides is not None:
        c.update(counter_overrides)
    f = FlopCountAnalysis(module, tuple(inputs)).set_op_handle(**c)
    f._ignored_ops.add("aten::empty_like")
    f._ignored_ops.add("aten::numel")
    return f.total(), dict(f.by_operator().items()), f.unsupported_ops()
