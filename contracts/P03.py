"""Entropy-critical layers are on the CPU whenever bits are written or read."""
import torch


def cpu_layers(self):
    return [self.hyper_bottleneck, self.latent_bottleneck, self.hyper_synthesis_scale, self.hyper_synthesis_mean, self.hyper_analysis]


def all_cpu(module):
    return all(p.device == torch.device("cpu") for p in module.parameters())


def refuse(self, force_cpu):
    if not all_cpu(self) and (force_cpu or not all(all_cpu(m) for m in cpu_layers(self))):
        raise ValueError


@contract("neuralcompression.models.HiFiCAutoencoder.compress", facets=["raises"], rank=4)
def compress_refuses(self, image, force_cpu=True):
    """ValueError exactly when some parameter is off the CPU and either the caller insisted on CPU or an entropy layer is off it."""
    refuse(self, force_cpu)


@contract("neuralcompression.models.HiFiCAutoencoder.decompress", facets=["raises"])
def decompress_refuses(self, compressed_data, force_cpu=True):
    """Same refusal condition as compression."""
    refuse(self, force_cpu)


@contract("neuralcompression.models.HiFiCAutoencoder.update_tensor_devices")
def switch(self, target_operation):
    """'forward' moves the whole model to the encoder's device; 'compress' rebuilds the coding tables and moves
    exactly the five entropy-critical modules to the CPU; anything else is refused and changes nothing."""
    if target_operation == "forward":
        self.to(self.encoder.blocks[0][0].weight.device)
        self.device_setting = "forward"
    elif target_operation == "compress":
        self.update()
        for m in cpu_layers(self):
            m.to(torch.device("cpu"))
        self.device_setting = "compress"
    else:
        raise ValueError


@contract("neuralcompression.models.HiFiCAutoencoder.device_setting", facets=["return"])
def setting(self):
    return SELFATTR("_device_setting")


@contract("neuralcompression.models.HiFiCAutoencoder", only=["device_setting"], facets=["attrs"])
def initial(self, in_channels=3, latent_features=220, hyper_features=320, num_residual_blocks=9, freeze_encoder=False, freeze_bottleneck=False):
    """A fresh model is in forward mode."""
    self.device_setting = "forward"


BASE = "neuralcompression.models._hyperprior_autoencoder._HyperpriorAutoencoderBase"


@contract(BASE + "._set_devices_for_compress", facets=["outcome", "effects"])
def base_set(self):
    """The default for other models: every layer they named goes to the CPU; not having named any is an error."""
    if SELFATTR("_compress_cpu_layers") is None:
        raise RuntimeError
    for m in SELFATTR("_compress_cpu_layers"):
        m.to(torch.device("cpu"))


@contract(BASE + "._check_compress_devices")
def base_check(self):
    """True only if every parameter of every named layer is on the CPU."""
    if SELFATTR("_compress_cpu_layers") is None:
        raise RuntimeError
    return all(all_cpu(m) for m in SELFATTR("_compress_cpu_layers"))


@contract(BASE + ".set_compress_cpu_layers", facets=["effects"])
def base_name(self, compress_cpu_layers):
    self._compress_cpu_layers = compress_cpu_layers


@contract(BASE, facets=["attrs"], only=["_compress_cpu_layers", "_device_setting"])
def base_init(self):
    """No layers are named and forward mode is set at first."""
    self._compress_cpu_layers = None
    self._device_setting = "forward"
