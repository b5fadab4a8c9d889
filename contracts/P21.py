"""Datasets: which item an index names, in which order, and what is refused."""
import functools
import hashlib
import os
import shutil
import urllib.request
from pathlib import Path
import torch
import torchvision.datasets.folder
import torchvision.datasets.utils
from pytorchvideo.data.frame_video import FrameVideo
from pytorchvideo.data.utils import MultiProcessSampler
from torch import Tensor
from torch.utils.data import RandomSampler
from torchvision.datasets.folder import default_loader
from torchvision.transforms import ToTensor
from neuralcompression.data._openimages_v6 import _INVALID_IMAGE_NAMES


def load(path, transform):
    image = default_loader(path)
    return image if transform is None else transform(image)


@contract("neuralcompression.data.CLIC2020Image", facets=["outcome", "attrs"])
def clic_image(self, root, split="train", download=False, transform=None):
    """PNG files of exactly the requested split, in sorted order."""
    self.root = Path(root).joinpath("clic2020")
    self.split = torchvision.datasets.utils.verify_str_arg(split, "split", ("train", "val", "test"))
    self.transform = transform
    if download:
        self.download()
    self.paths = sorted(self.root.joinpath(self.split).glob("*.png"))


@contract("neuralcompression.data.CLIC2020Image.__getitem__")
def clic_image_item(self, index):
    return load(self.paths[index], self.transform)


@contract("neuralcompression.data.CLIC2020Image.__len__")
def clic_image_len(self):
    return len(self.paths)


@contract("neuralcompression.data.DIV2KDataset", facets=["outcome", "attrs"])
def div2k(self, root, split="val", transform=None):
    """Only the validation split; its PNG files in sorted order."""
    if split != "val":
        raise ValueError
    self.root = Path(root)
    self.split = "DIV2K_valid_HR"
    self.transform = transform
    self.paths = sorted(self.root.joinpath("DIV2K_valid_HR").glob("*.png"))


@contract("neuralcompression.data.DIV2KDataset.__getitem__")
def div2k_item(self, index):
    return load(self.paths[index], self.transform)


@contract("neuralcompression.data.DIV2KDataset.__len__")
def div2k_len(self):
    return len(self.paths)


@contract("neuralcompression.data.Kodak", facets=["outcome", "attrs", "effects"])
def kodak(self, root, check_hash=True, download=False, force_download=False, kodak_url="http://r0k.us/graphics/kodak/kodak/", transform=None):
    """24 images in order; an existing directory is overwritten only by force; a missing one without download and a wrong hash are refused."""
    self.root = Path(root)
    self.transform = transform
    self.im_list = [self.root / "kodim{:02}.png".format(i) for i in range(1, 25)]
    if download:
        if self.root.exists() and not force_download:
            raise RuntimeError
        self.root.mkdir(exist_ok=force_download)
        for i in range(1, 25):
            name = "kodim{:02}.png".format(i)
            with urllib.request.urlopen(kodak_url + name) as response, open(self.root / name, "wb") as out:
                shutil.copyfileobj(response, out)
    elif not self.root.exists():
        raise FileNotFoundError
    if check_hash:
        h = hashlib.sha1()
        for p in self.im_list:
            with open(p, "rb") as f:
                h.update(f.read())
        if h.hexdigest() != "076e2a5fd4515b5fda677f15fe63dd112d266bc5":
            raise RuntimeError


@contract("neuralcompression.data.Kodak.__getitem__")
def kodak_item(self, idx):
    return load(str(self.im_list[idx]), self.transform)


@contract("neuralcompression.data.Kodak.__len__")
def kodak_len(self):
    return len(self.im_list)


@contract("neuralcompression.data.OpenImagesV6", facets=["outcome", "attrs"])
def openimages(self, root, split, image_list_file=None, transform=None):
    """'val' lives in 'validation'; names are sorted and without extension; known bad images are left out of the training split only."""
    if split not in ("train", "val", "test"):
        raise ValueError
    self.root = Path(root)
    self.split = {"train": "train", "val": "validation", "test": "test"}[split]
    self.transform = transform
    self.image_list_file = self.root / f"list-{self.split}-files.txt" if image_list_file is None else Path(image_list_file)
    with open(self.image_list_file, "r") as f:
        names = [os.path.splitext(x.rstrip())[0] for x in sorted(f.readlines())]
    if split == "train":
        names = [n for n in names if n not in _INVALID_IMAGE_NAMES]
    self.indices = names


@contract("neuralcompression.data.OpenImagesV6.__getitem__")
def openimages_item(self, index):
    return load(self.root / self.split / (self.indices[index] + ".jpg"), self.transform)


@contract("neuralcompression.data.OpenImagesV6.__len__")
def openimages_len(self):
    return len(self.indices)


@contract("neuralcompression.data.Vimeo90kSeptuplet", facets=["outcome", "attrs"])
def vimeo(self, root, as_video=False, frames_per_group=7, split=None, folder_list=None, pil_transform=None, tensor_transform=None):
    """One to seven frames; exactly one of split and folder list; videos are converted to tensors by default."""
    if frames_per_group not in (1, 2, 3, 4, 5, 6, 7):
        raise ValueError
    if (split is None) == (folder_list is None):
        raise ValueError
    self.root = Path(root)
    self.as_video = as_video
    self.frames_per_group = frames_per_group
    self.pil_transform = ToTensor() if pil_transform is None and as_video else pil_transform
    self.tensor_transform = tensor_transform
    if folder_list is not None:
        self.folder_list = folder_list
    else:
        if split not in ("train", "test"):
            raise ValueError
        with open(self.root / f"sep_{split}list.txt", "r") as f:
            self.folder_list = ["sequences/" + n.strip() for n in f.readlines()]


@contract("neuralcompression.data.Vimeo90kSeptuplet.__len__")
def vimeo_len(self):
    """Every folder contributes one video or all of its frames."""
    return len(self.folder_list) if self.as_video else len(self.folder_list) * self.frames_per_group


def frame(self, folder, n):
    img = default_loader(str(folder / f"im{n}.png"))
    if self.pil_transform is None:
        return img
    img = self.pil_transform(img)
    if not isinstance(img, Tensor):
        raise RuntimeError
    return img


@contract("neuralcompression.data.Vimeo90kSeptuplet.__getitem__")
def vimeo_item(self, idx):
    """Frames 1..n of one folder in order, or the single frame the index names; each transform once."""
    if self.as_video:
        item = torch.stack([frame(self, self.root / self.folder_list[idx], n) for n in range(1, self.frames_per_group + 1)])
    else:
        item = frame(self, self.root / self.folder_list[idx // self.frames_per_group], idx % self.frames_per_group + 1)
    return item if self.tensor_transform is None else self.tensor_transform(item)


@contract("neuralcompression.data.CLIC2020Video.__getitem__")
def clic_video_item(self, index):
    """A video in progress is continued, with its own index; frames in temporal order; the position is reset after the last clip."""
    if self._current_video:
        video, index = self._current_video
    else:
        video = FrameVideo.from_frame_paths(sorted(self._root.joinpath(self._video_paths[index]).glob("*_y.png")), multithreaded_io=self._multithreaded_io)
        self._current_video = video, index
    clip = self._clip_sampler(self._next_clip_start_sec, video.duration, {})
    if clip.aug_index == 0:
        self._current_video_clip = video.get_clip(clip.clip_start_sec, clip.clip_end_sec, self._frame_filter)
    if clip.is_last_clip:
        self._current_video = None
        self._next_clip_start_sec = 0.0
    else:
        self._next_clip_start_sec = clip.clip_end_sec
    sample = {"aug_index": clip.aug_index, "clip_index": clip.clip_index, "label": None, "video": self._current_video_clip["video"],
              "video_index": index, "video_label": None, "video_name": str(self._video_paths[index])}
    return self._transform(sample) if self._transform else sample


@contract("neuralcompression.data.CLIC2020Video.__len__")
def clic_video_len(self):
    return len(self._video_paths)


@contract("neuralcompression.data.CLIC2020Video._sample_frames")
def sample_frames(frames, frames_per_clip):
    """Evenly spread, from the first to the last frame."""
    i = torch.clamp(torch.linspace(0, len(frames) - 1, frames_per_clip), 0, len(frames) - 1).long()
    return [frames[j] for j in i]


@contract("neuralcompression.data.CLIC2020Video.__next__", opaque=("neuralcompression.data.CLIC2020Video.__getitem__",))
def clic_video_next(self):
    """While clips of a video remain, no other video is drawn from the sampler."""
    if not self._video_sampler_iterator:
        self._video_sampler_iterator = iter(MultiProcessSampler(self._video_sampler))
    if self._current_video:
        index = self._current_video[1]
    else:
        index = next(self._video_sampler_iterator)
    return self[index]


@contract("neuralcompression.data.CLIC2020Video", facets=["outcome", "attrs"], opaque=("neuralcompression.data.CLIC2020Video.download",),
          only=["_root", "_clip_sampler", "_split", "_transform", "_multithreaded_io", "_frame_filter", "_video_paths", "_video_sampler", "_next_clip_start_sec"])
def clic_video(self, root, clip_sampler, split="train", download=False, transform=None, video_sampler=RandomSampler, multithreaded_io=False, frames_per_clip=None):
    """Unknown splits are refused; the sampler draws from the videos that are there once any download has finished; clips start at zero."""
    self._root = Path(root)
    self._clip_sampler = clip_sampler
    self._split = torchvision.datasets.utils.verify_str_arg(split, "split", ("train", "val", "test"))
    self._transform = transform
    self._multithreaded_io = multithreaded_io
    if frames_per_clip:
        self._frame_filter = functools.partial(self._sample_frames, frames_per_clip=frames_per_clip)
    if download:
        self.download()
    self._video_paths = [Path(p.name) for p in self._root.glob("*")]
    self._video_sampler = video_sampler(self._video_paths)
    self._next_clip_start_sec = 0.0


@contract("neuralcompression.data.CLIC2020Image.download", facets=["effects"])
def clic_image_download(self):
    """Every split ends up in the folder the dataset reads: the test archive has no folder of its own, the validation archive's is renamed."""
    ASSUME(self.split == "train" or self.split == "val" or self.split == "test")
    where = self.root.joinpath("test") if self.split == "test" else str(self.root)
    torchvision.datasets.utils.download_and_extract_archive(**self.splits[self.split], download_root=str(self.root), extract_root=where)
    if self.split == "val":
        os.rename(self.root.joinpath("valid"), self.root.joinpath(self.split))
    if self.split == "test":
        shutil.rmtree(self.root.joinpath(self.split).joinpath("__MACOSX"))
    else:
        shutil.rmtree(self.root.joinpath("__MACOSX"))
