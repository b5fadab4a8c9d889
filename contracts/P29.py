"""VQ-VAE autoencoder with cross-covariance attention, and the label projector."""
import torch
import torch.nn as nn
import torch.nn.functional as F
from neuralcompression import VqVaeAutoencoderOutput
from neuralcompression.layers import XCA, ChannelNorm2D
from neuralcompression.models._vqvae_xcit_autoencoder import _VqVaeXCiTConvEncoder, _VqvaeXCiTConvDecoder, _ResnetBlock, _AttnBlock, _Downsample, _Upsample

MOD = "neuralcompression.models._vqvae_xcit_autoencoder."
PARTS = ("neuralcompression.models._vqvae_xcit_autoencoder._ResnetBlock", "neuralcompression.models._vqvae_xcit_autoencoder._AttnBlock",
         "neuralcompression.models._vqvae_xcit_autoencoder._Downsample", "neuralcompression.models._vqvae_xcit_autoencoder._Upsample")
NETS = ("neuralcompression.models._vqvae_xcit_autoencoder._VqVaeXCiTConvEncoder", "neuralcompression.models._vqvae_xcit_autoencoder._VqvaeXCiTConvDecoder")


def freeze(m):
    m.eval()
    for p in m.parameters():
        p.requires_grad_(False)


@contract("neuralcompression.models.VqVaeXCiTAutoencoder.forward")
def forward(self, image):
    """Frozen parts are frozen again before every use; in evaluation the image is padded at the bottom and right to the next multiple of the network's factor; the result is cut back to the input's size."""
    if self.freeze_encoder:
        freeze(self.encoder)
    if self.freeze_bottleneck and self.bottleneck_op is not None:
        freeze(self.bottleneck_op)
    _, _, h, w = image.shape
    if not self.training:
        ph, pw = -h % self.factor, -w % self.factor
        if ph != 0 or pw != 0:
            image = F.pad(image, (0, pw, 0, ph), mode="reflect")
    out = VqVaeAutoencoderOutput(latent=self.encoder(image))
    if self.bottleneck_op is not None:
        out = self.bottleneck_op(out)
    out.image = self.decoder(out.latent)[:, :, :h, :w]
    return out


@contract("neuralcompression.models.VqVaeXCiTAutoencoder", facets=["effects", "attrs"], opaque=NETS, only=["encoder", "decoder", "bottleneck_op", "factor", "freeze_encoder", "freeze_bottleneck"])
def build(self, ch=128, out_ch=3, ch_mult=None, num_res_blocks=2, attn_resolutions=None, dropout=0.0, resamp_with_conv=True, in_channels=3,
          resolution=256, embed_dim=256, bottleneck_op=None, freeze_encoder=False, freeze_bottleneck=False, norm_type="group"):
    """Encoder and decoder share every setting; the factor is two per level after the first."""
    super().__init__()
    m = (1, 1, 2, 2, 4) if ch_mult is None else ch_mult
    a = [16] if attn_resolutions is None else attn_resolutions
    self.freeze_encoder, self.freeze_bottleneck = freeze_encoder, freeze_bottleneck
    self.factor = 2 ** (len(m) - 1)
    self.encoder = _VqVaeXCiTConvEncoder(ch=ch, ch_mult=m, num_res_blocks=num_res_blocks, attn_resolutions=a, dropout=dropout, resamp_with_conv=resamp_with_conv,
                                         in_channels=in_channels, resolution=resolution, embed_dim=embed_dim, norm_type=norm_type)
    self.decoder = _VqvaeXCiTConvDecoder(ch=ch, out_ch=out_ch, ch_mult=m, num_res_blocks=num_res_blocks, attn_resolutions=a, dropout=dropout, resamp_with_conv=resamp_with_conv,
                                         in_channels=in_channels, resolution=resolution, embed_dim=embed_dim, norm_type=norm_type)
    self.bottleneck_op = bottleneck_op
    if freeze_encoder:
        freeze(self.encoder)
    if freeze_bottleneck and bottleneck_op is not None:
        freeze(bottleneck_op)


@contract("neuralcompression.models.VqVaeProjector", facets=["outcome", "effects", "attrs"])
def projector(self, vq_model):
    """Takes encoder and bottleneck of a model that has a bottleneck; nothing in it is trained."""
    super().__init__()
    if vq_model.bottleneck_op is None:
        raise AssertionError
    self.encoder = vq_model.encoder
    self.bottleneck_op = vq_model.bottleneck_op
    self.eval()
    for p in self.parameters():
        p.requires_grad_(False)


@contract("neuralcompression.models.VqVaeProjector.train")
def projector_train(self, mode=True):
    """Never enters training mode."""
    return super().train(False)


@contract("neuralcompression.models.VqVaeProjector.forward")
def projector_forward(self, image):
    """The indices of the bottleneck for the encoder's latent."""
    r = self.bottleneck_op(VqVaeAutoencoderOutput(latent=self.encoder(image))).indices
    if r is None:
        raise AssertionError
    return r


@contract(MOD + "_Upsample.forward", facets=["outcome"])
def up_forward(self, x):
    """Doubles both sides."""
    x = F.interpolate(x, scale_factor=2.0, mode="nearest")
    if self.with_conv:
        x = self.conv(x)
    return x


@contract(MOD + "_Downsample.forward", facets=["outcome"])
def down_forward(self, x):
    """Halves both sides; the convolution sees one extra row and column at the bottom and right."""
    if self.with_conv:
        return self.conv(F.pad(x, (0, 1, 0, 1), mode="constant", value=0))
    return F.avg_pool2d(x, kernel_size=2, stride=2)


@contract(MOD + "_Downsample", facets=["attrs"], only=["conv"], cases=[{"with_conv": True}])
def down(self, in_channels, with_conv):
    super().__init__()
    self.conv = nn.Conv2d(in_channels, in_channels, kernel_size=3, stride=2, padding=0)


@contract(MOD + "_Upsample", facets=["attrs"], only=["conv"], cases=[{"with_conv": True}])
def up(self, in_channels, with_conv):
    super().__init__()
    self.conv = nn.Conv2d(in_channels, in_channels, kernel_size=3, stride=1, padding=1)


def swish(x):
    return x * torch.sigmoid(x)


@contract(MOD + "_ResnetBlock.forward", facets=["outcome"])
def res_forward(self, x):
    """Two norm-activation-convolution steps plus a shortcut that is projected exactly when the channel count changes."""
    h = self.conv1(swish(self.norm1(x)))
    h = self.conv2(self.dropout(swish(self.norm2(h))))
    if self.in_channels != self.out_channels:
        x = self.conv_shortcut(x) if self.use_conv_shortcut else self.nin_shortcut(x)
    return x + h


@contract(MOD + "_ResnetBlock", facets=["attrs", "raises"], only=["norm1", "conv1", "norm2", "dropout", "conv2", "in_channels", "out_channels", "use_conv_shortcut", "conv_shortcut", "nin_shortcut"])
def res(self, in_channels, out_channels=None, conv_shortcut=False, dropout=0.0, norm_type="group"):
    """Channels change in the first convolution."""
    super().__init__()
    o = in_channels if out_channels is None else out_channels
    if norm_type not in ("group", "channel"):
        raise ValueError
    self.norm1 = nn.GroupNorm(num_groups=16, num_channels=in_channels, eps=1e-6, affine=True) if norm_type == "group" else ChannelNorm2D(in_channels)
    self.conv1 = nn.Conv2d(in_channels, o, kernel_size=3, stride=1, padding=1)
    self.norm2 = nn.GroupNorm(num_groups=16, num_channels=o, eps=1e-6, affine=True) if norm_type == "group" else ChannelNorm2D(o)
    self.dropout = nn.Dropout(dropout)
    self.conv2 = nn.Conv2d(o, o, kernel_size=3, stride=1, padding=1)
    self.in_channels, self.out_channels, self.use_conv_shortcut = in_channels, o, conv_shortcut
    if in_channels != o:
        if conv_shortcut:
            self.conv_shortcut = nn.Conv2d(in_channels, o, kernel_size=3, stride=1, padding=1)
        else:
            self.nin_shortcut = nn.Conv2d(in_channels, o, kernel_size=1, stride=1, padding=0)


@contract(MOD + "_AttnBlock", facets=["attrs", "raises"], only=["norm", "xca"])
def attn(self, in_channels, resolution_level=None, norm_type="group"):
    """One head over all channels, after the chosen normalisation."""
    super().__init__()
    if norm_type not in ("group", "channel"):
        raise ValueError
    self.norm = nn.GroupNorm(num_groups=16, num_channels=in_channels, eps=1e-6, affine=True) if norm_type == "group" else ChannelNorm2D(in_channels)
    self.xca = XCA(dim=in_channels, num_heads=1, qkv_bias=True)


@contract(MOD + "_AttnBlock.forward", facets=["outcome"])
def attn_forward(self, x):
    """Attention over channels of the flattened positions, put back at their own place, added to the input."""
    b, c, h, w = x.shape
    y = self.xca(self.norm(x).view(b, c, -1).permute(0, 2, 1))
    return x + y.permute(0, 2, 1).reshape(b, c, h, w)


@contract(MOD + "_VqVaeXCiTConvEncoder.forward", cases=[{"ctor.ch_mult": (1, 2, 4), "ctor.num_res_blocks": 2}, {"ctor.ch_mult": (1, 1, 2, 2, 4), "ctor.num_res_blocks": 1}], facets=["outcome"])
def encode(self, x):
    """Every level applies its blocks in order, each followed by its attention if the level has any, and all levels but the last down-sample once."""
    h = self.conv_in(x)
    for i in range(self.num_resolutions):
        for j in range(self.num_res_blocks):
            h = self.down[i].block[j](h)
            if len(self.down[i].attn) > 0:
                h = self.down[i].attn[j](h)
        if i != self.num_resolutions - 1:
            h = self.down[i].downsample(h)
    return self.conv_out(swish(self.norm_out(self.mid(h))))


@contract(MOD + "_VqvaeXCiTConvDecoder.forward", cases=[{"ctor.ch_mult": (1, 2, 4), "ctor.num_res_blocks": 2}, {"ctor.ch_mult": (1, 1, 2, 2, 4), "ctor.num_res_blocks": 1}], facets=["outcome"])
def decode(self, z):
    """Levels in reverse order, one block more than the encoder has, all but the last up-sample once."""
    h = self.mid(self.conv_in(z))
    for i in reversed(range(self.num_resolutions)):
        for j in range(self.num_res_blocks + 1):
            h = self.up[i].block[j](h)
            if len(self.up[i].attn) > 0:
                h = self.up[i].attn[j](h)
        if i != 0:
            h = self.up[i].upsample(h)
    return self.conv_out(swish(self.norm_out(h)))


def norm_(c, t):
    if t not in ("group", "channel"):
        raise ValueError
    return nn.GroupNorm(num_groups=16, num_channels=c, eps=1e-6, affine=True) if t == "group" else ChannelNorm2D(c)


def middle(c, res, dropout, t):
    return nn.Sequential(_ResnetBlock(in_channels=c, out_channels=c, dropout=dropout, norm_type=t), _AttnBlock(c, res, norm_type=t),
                         _ResnetBlock(in_channels=c, out_channels=c, dropout=dropout, norm_type=t))


@contract(MOD + "_VqVaeXCiTConvEncoder", facets=["attrs", "raises"], opaque=PARTS, only=["conv_in", "down", "mid", "norm_out", "conv_out", "num_resolutions", "num_res_blocks"],
          cases=[{"ch_mult": (1, 2, 4), "num_res_blocks": 2, "resolution": 64, "attn_resolutions": [32]}, {"ch_mult": None, "num_res_blocks": 1, "resolution": 256, "attn_resolutions": None},
                 {"ch_mult": (1, 2), "num_res_blocks": 2, "resolution": 64, "attn_resolutions": [32], "norm_type": "channel_last"}, {"ch_mult": (1, 2), "num_res_blocks": 1, "resolution": 64, "attn_resolutions": [16], "norm_type": "channel"}])
def encoder(self, ch=128, ch_mult=None, num_res_blocks=2, attn_resolutions=None, dropout=0.0, resamp_with_conv=True, in_channels=3, resolution=256, embed_dim=256, norm_type="group"):
    """Channels grow by the given multiples in the first block of a level, attention sits at the given resolutions, all levels but the last halve the resolution."""
    super().__init__()
    m = (1, 1, 2, 2, 4) if ch_mult is None else ch_mult
    at = [16] if attn_resolutions is None else attn_resolutions
    t = "group" if norm_type == "channel_last" else norm_type
    self.num_resolutions, self.num_res_blocks = len(m), num_res_blocks
    self.conv_in = nn.Conv2d(in_channels, ch, kernel_size=3, stride=1, padding=1)
    self.down = nn.ModuleList()
    res, c = resolution, ch
    for i in range(len(m)):
        level = nn.Module()
        level.block, level.attn = nn.ModuleList(), nn.ModuleList()
        for j in range(num_res_blocks):
            level.block.append(_ResnetBlock(in_channels=c, out_channels=ch * m[i], dropout=dropout, norm_type=t))
            c = ch * m[i]
            if res in at:
                level.attn.append(_AttnBlock(c, res, norm_type=t))
        if i != len(m) - 1:
            level.downsample = _Downsample(c, resamp_with_conv)
            res = res // 2
        self.down.append(level)
    self.mid = middle(c, res, dropout, t)
    self.norm_out = norm_(c, t)
    self.conv_out = nn.Conv2d(c, embed_dim, kernel_size=3, stride=1, padding=1)


@contract(MOD + "_VqvaeXCiTConvDecoder", facets=["attrs", "raises"], opaque=PARTS, only=["conv_in", "up", "mid", "norm_out", "conv_out", "num_resolutions", "num_res_blocks"],
          cases=[{"ch_mult": (1, 2, 4), "num_res_blocks": 2, "resolution": 64, "attn_resolutions": [32]}, {"ch_mult": None, "num_res_blocks": 1, "resolution": 256, "attn_resolutions": None},
                 {"ch_mult": (1, 2), "num_res_blocks": 2, "resolution": 64, "attn_resolutions": [32], "norm_type": "channel_last"}, {"ch_mult": (1, 2), "num_res_blocks": 1, "resolution": 64, "attn_resolutions": [16], "norm_type": "channel"}])
def decoder(self, ch=128, out_ch=3, ch_mult=None, num_res_blocks=2, attn_resolutions=None, dropout=0.0, resamp_with_conv=True, in_channels=3, resolution=256, embed_dim=256, norm_type="group"):
    """The encoder's levels in reverse, each with one block more, attention at the same resolutions, all levels but the finest double the resolution; channel_last normalises the last layer by channel."""
    super().__init__()
    m = (1, 1, 2, 2, 4) if ch_mult is None else ch_mult
    at = [16] if attn_resolutions is None else attn_resolutions
    t = "group" if norm_type == "channel_last" else norm_type
    self.num_resolutions, self.num_res_blocks = len(m), num_res_blocks
    c = ch * m[len(m) - 1]
    res = resolution // 2 ** (len(m) - 1)
    self.conv_in = nn.Conv2d(embed_dim, c, kernel_size=3, stride=1, padding=1)
    self.mid = middle(c, res, dropout, t)
    levels = []
    for i in reversed(range(len(m))):
        level = nn.Module()
        level.block, level.attn = nn.ModuleList(), nn.ModuleList()
        for j in range(num_res_blocks + 1):
            level.block.append(_ResnetBlock(in_channels=c, out_channels=ch * m[i], dropout=dropout, norm_type=t))
            c = ch * m[i]
            if res in at:
                level.attn.append(_AttnBlock(c, res, norm_type=t))
        if i != 0:
            level.upsample = _Upsample(c, resamp_with_conv)
            res = res * 2
        levels.insert(0, level)
    self.up = nn.ModuleList(levels)
    self.norm_out = norm_(c, "channel" if norm_type == "channel_last" else norm_type)
    self.conv_out = nn.Conv2d(c, out_ch, kernel_size=3, stride=1, padding=1)
