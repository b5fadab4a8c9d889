"""VCT attention layers."""
from functools import partial
import torch
import torch.nn as nn
from neural.entropy_model_layers import TransformerBlock
from neural.layers_utils import MLP, StochasticDepth, WindowMultiHeadAttention

PROJECT = "torch_vct"
L = "torch_vct:neural.entropy_model_layers."
U = "torch_vct:neural.layers_utils."


@contract(L + "StartSym.forward", rank=3)
def start(self, x):
    """The learned symbol comes first, everything moves one place to the right, the last symbol drops out."""
    B, n, d = x.shape
    if (self.sym * x.new_ones(B, 1, d)).shape != (B, 1, d):
        raise AssertionError
    return torch.cat([self.sym * x.new_ones(B, 1, d), x[:, :-1, :]], dim=1)


@contract(L + "StartSym._shift_to_the_right", ranks={"x": 3})
def shift(x, prefix=None):
    """Without a prefix zeros are shifted in; a prefix of another shape is refused."""
    B, n, d = x.shape
    if prefix is None:
        prefix = x.new_zeros((B, 1, d))
    if prefix.shape != (B, 1, d):
        raise AssertionError
    return torch.cat([prefix, x[:, :-1, :]], dim=1)


@contract(L + "LearnedPosition.forward", rank=3)
def position(self, x):
    """Adds the embedding of each place; other shapes are refused."""
    if not (x.dim() == 3 and x.shape[1:] == torch.Size([self._seq_len, self._hidden_dim])):
        raise AssertionError
    return x + self._emb


@contract(L + "LearnedPosition", facets=["attrs"], only=["_seq_len", "_hidden_dim", "_emb"])
def position_build(self, seq_length, hidden_dim):
    """One trainable vector per place, small and random at first."""
    super().__init__()
    self._emb = nn.Parameter(torch.empty(1, seq_length, hidden_dim).normal_(std=0.02))
    self._seq_len = seq_length
    self._hidden_dim = hidden_dim


@contract(L + "TransformerBlock", facets=["attrs"], only=["is_decoder", "num_heads", "ln_1a", "ln_1b", "ln_2a", "ln_2b", "self_attention", "cross_attention", "mlp1", "mlp2", "drop_path", "look_ahead_mask"],
          opaque=(U + "WindowMultiHeadAttention", U + "MLP", U + "StochasticDepth"), cases=[{"is_decoder": True}, {"is_decoder": False}])
def block_build(self, seq_length, num_heads, hidden_dim, mlp_dim, drop_out_rate=0.1, drop_path_rate=0.1, norm_layer=partial(nn.LayerNorm, eps=1e-6), is_decoder=False):
    """Only a decoder masks, and it masks exactly the later places."""
    super().__init__()
    if is_decoder:
        self.register_buffer("look_ahead_mask", torch.triu(torch.ones(seq_length, seq_length, dtype=torch.float32), diagonal=1))
    else:
        self.look_ahead_mask = None
    self.is_decoder, self.num_heads = is_decoder, num_heads
    self.ln_1a = norm_layer(hidden_dim)
    self.ln_1b = norm_layer(hidden_dim)
    self.ln_2a = norm_layer(hidden_dim)
    self.ln_2b = norm_layer(hidden_dim)
    self.self_attention = WindowMultiHeadAttention(hidden_dim, num_heads, attn_drop=drop_out_rate, proj_drop=drop_out_rate)
    self.cross_attention = WindowMultiHeadAttention(hidden_dim, num_heads, attn_drop=drop_out_rate, proj_drop=drop_out_rate)
    self.mlp1 = MLP(in_features=hidden_dim, mlp_dim=mlp_dim, dropout=drop_out_rate)
    self.mlp2 = MLP(in_features=hidden_dim, mlp_dim=mlp_dim, dropout=drop_out_rate)
    self.drop_path = StochasticDepth(drop_path_rate)


@contract(L + "TransformerBlock.forward", facets=["outcome"])
def block(self, input, encoder_output=None):
    """Masked self-attention, then attention to the encoder's output (or itself), each with normalisation before, dropped path and residual; a decoder without encoder output is refused."""
    if input.dim() != 3:
        raise AssertionError
    if self.is_decoder and encoder_output is None:
        raise ValueError
    x = self.ln_1a(input)
    x = input + self.drop_path(self.self_attention(query=x, key=x, value=x, mask=self.look_ahead_mask)[0])
    x = x + self.drop_path(self.mlp1(self.ln_1b(x)))
    y = self.ln_2a(x)
    if encoder_output is None:
        a = self.cross_attention(query=y, key=y, value=y, mask=None)[0]
    else:
        a = self.cross_attention(query=y, key=encoder_output, value=encoder_output, mask=None)[0]
    y = x + self.drop_path(a)
    return y + self.drop_path(self.mlp2(self.ln_2b(y)))


@contract(L + "Transformer.forward", facets=["outcome"])
def stack(self, input, encoder_output):
    """Every layer sees the previous layer's output and the same encoder output; mismatching widths are refused."""
    if input.dim() != 3:
        raise AssertionError
    if encoder_output is not None:
        if input.shape[-1] != encoder_output.shape[-1]:
            raise ValueError
    for layer in self.layers:
        input = layer(input=input, encoder_output=encoder_output)
    return input


@contract(L + "Transformer", facets=["attrs"], only=["layers", "is_decoder"], opaque=(L + "TransformerBlock",), cases=[{"num_layers": 0}, {"num_layers": 3}])
def stack_build(self, seq_length, num_layers, num_heads, hidden_dim, mlp_expansion, dropout, is_decoder=False, norm_layer=partial(nn.LayerNorm, eps=1e-6)):
    """As many equal blocks as asked for."""
    super().__init__()
    self.is_decoder = is_decoder
    self.layers = nn.ModuleList()
    for i in range(num_layers):
        self.layers.append(TransformerBlock(seq_length=seq_length, num_heads=num_heads, hidden_dim=hidden_dim, mlp_dim=mlp_expansion * hidden_dim, drop_out_rate=dropout, drop_path_rate=dropout,
                                            norm_layer=norm_layer, is_decoder=is_decoder))


@contract(U + "MLP.forward", facets=["outcome"])
def mlp(self, input):
    """Expand, activate, drop, contract, drop."""
    return self.dropout(self.fc2(self.dropout(self.act(self.fc1(input)))))


def start_weights(m):
    nn.init.trunc_normal_(m.weight, std=0.02, a=-2 * 0.02, b=2 * 0.02)
    m.bias.data.fill_(0.01)


@contract(U + "init_weights_truncated_normal", facets=["effects", "outcome"])
def init_weights(m):
    """Linear layers only: weights normal within two standard deviations, small positive bias."""
    if isinstance(m, nn.Linear):
        start_weights(m)


@contract(U + "make_embedding", facets=["effects", "outcome"])
def embedding(input_dim, hidden_dim):
    """A linear layer with weights and bias uniform within one over the root of the input width."""
    l = nn.Linear(input_dim, hidden_dim)
    nn.init.uniform_(l.weight, -(input_dim ** -0.5), input_dim ** -0.5)
    nn.init.uniform_(l.bias, -(input_dim ** -0.5), input_dim ** -0.5)
    return l


@contract(U + "StochasticDepth", facets=["attrs"])
def drop_path_build(self, stochastic_depth_drop_rate):
    super().__init__()
    self._drop_rate = stochastic_depth_drop_rate


@contract(L + "StartSym", facets=["attrs", "effects"], only=["sym"])
def start_build(self, hidden_dim):
    """The same start symbol for every model of a width: drawn from a generator with fixed seed."""
    super().__init__()
    self.sym = nn.Parameter(torch.empty(hidden_dim))
    self.sym.data = self.sym.data.uniform_(-3.0, 3.0, generator=torch.Generator().manual_seed(42))


@contract(L + "EncoderSection", facets=["attrs"], only=["layers", "is_decoder"], opaque=(L + "TransformerBlock",))
def encoder_build(self, num_layers, num_heads, hidden_dim, mlp_expansion, dropout, norm_layer=partial(nn.LayerNorm, eps=1e-6)):
    """Blocks that do not mask and do not require an encoder."""
    super().__init__()
    self.is_decoder = False
    self.layers = nn.ModuleList([TransformerBlock(seq_length=0, num_heads=num_heads, hidden_dim=hidden_dim, mlp_dim=mlp_expansion * hidden_dim, drop_out_rate=dropout, drop_path_rate=dropout,
                                                  norm_layer=norm_layer, is_decoder=False) for _ in range(num_layers)])


@contract(L + "EncoderSection.forward", facets=["outcome"])
def encoder_stack(self, input):
    """The same stack without encoder output."""
    if input.dim() != 3:
        raise AssertionError
    for layer in self.layers:
        input = layer(input=input, encoder_output=None)
    return input


@contract(U + "MLP", facets=["attrs", "effects"], only=["fc1", "fc2", "act", "dropout"])
def mlp_build(self, in_features, mlp_dim, dropout):
    super().__init__()
    self.fc1 = nn.Linear(in_features=in_features, out_features=mlp_dim)
    self.fc2 = nn.Linear(in_features=mlp_dim, out_features=in_features)
    start_weights(self.fc1)
    start_weights(self.fc2)
    self.act = nn.GELU()
    self.dropout = nn.Dropout(p=dropout)


@contract(U + "StochasticDepth.forward")
def drop_path(self, input):
    """Identity outside training or at rate zero; otherwise keeps whole examples with the keep probability and rescales them, on the input's device."""
    if not self.training or self._drop_rate == 0.0:
        return input
    k = 1.0 - self._drop_rate
    r = torch.floor(k + torch.rand([input.shape[0]] + [1] * (input.dim() - 1), dtype=input.dtype, device=input.device))
    return input / k * r


@contract(U + "WindowMultiHeadAttention.forward", facets=["outcome"], ranks={"query": 3, "value": 3, "key": 3})
def attention(self, query, key, value, mask=None):
    """Scaled dot-product attention per head; masked places get no weight, before and after the softmax; key and value lengths that do not fit and masks of another shape are refused."""
    b, nq, c = query.shape
    if c != self.hidden_dim:
        raise AssertionError
    nk = value.shape[-2]
    if nk % nq != 0:
        raise AssertionError
    h = self.num_heads
    q = self.q_linear(query).reshape(b, nq, h, c // h).permute(0, 2, 1, 3).contiguous()
    k = self.k_linear(key).reshape(b, nk, h, c // h).permute(0, 2, 1, 3).contiguous()
    v = self.v_linear(value).reshape(b, nk, h, c // h).permute(0, 2, 1, 3).contiguous()
    a = torch.matmul(q, k.transpose(2, 3)) * self.attn_scale
    if mask is not None:
        if mask.shape[-2:] != (nq, nq):
            raise ValueError
        t = [1] * mask.dim()
        t[-1] = nk // nq
        a = a + torch.tile(mask, t) * -1e6
    a = self.softmax(a)
    if mask is not None:
        a = a * torch.tile(1 - mask, t)
    a = self.attn_dropout(a)
    f = torch.matmul(a, v)
    if f.shape != (b, h, nq, c // h):
        raise AssertionError
    f = self.proj_dropout(self.proj(f.permute(0, 2, 1, 3).contiguous().reshape(b, -1, self.hidden_dim)))
    if f.shape != (b, nq, c):
        raise AssertionError
    return f, a


@contract(U + "WindowMultiHeadAttention", facets=["raises", "attrs", "effects"], only=["hidden_dim", "num_heads", "attn_scale", "q_linear", "k_linear", "v_linear", "proj", "attn_dropout", "proj_dropout", "softmax"])
def attention_build(self, hidden_dim, num_heads, attn_drop=0.0, proj_drop=0.0):
    """Heads must divide the width; scores are scaled by the square root of the head's width."""
    super().__init__()
    if hidden_dim % num_heads != 0:
        raise ValueError
    self.hidden_dim, self.num_heads = hidden_dim, num_heads
    self.attn_scale = (hidden_dim // num_heads) ** (-0.5)
    self.q_linear = nn.Linear(hidden_dim, hidden_dim)
    self.k_linear = nn.Linear(hidden_dim, hidden_dim)
    self.v_linear = nn.Linear(hidden_dim, hidden_dim)
    self.proj = nn.Linear(hidden_dim, hidden_dim)
    start_weights(self.q_linear)
    start_weights(self.k_linear)
    start_weights(self.v_linear)
    start_weights(self.proj)
    self.attn_dropout = nn.Dropout(p=attn_drop)
    self.proj_dropout = nn.Dropout(p=proj_drop)
    self.softmax = nn.Softmax(dim=-1)


@contract(U + "make_conv")
def conv(in_channels, out_channels, kernel_size, stride=1):
    """Padding keeps the size at stride one."""
    return nn.Conv2d(in_channels, out_channels, kernel_size=kernel_size, stride=stride, padding=kernel_size // 2)


@contract(U + "make_deconv")
def deconv(in_channels, out_channels, kernel_size, stride=1):
    """Multiplies the size by the stride."""
    return nn.ConvTranspose2d(in_channels, out_channels, kernel_size=kernel_size, stride=stride, output_padding=stride - 1, padding=kernel_size // 2)
