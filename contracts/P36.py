"""Memoisation."""
import functools
import collections
from torch import Tensor
from utils.memoize import _Cache, _ensure_hashable

PROJECT = "torch_vct"
M = "torch_vct:utils.memoize."


@contract(M + "memoize", facets=["return"], opaque=(M + "_ensure_hashable",))
def memoize(f):
    """Without a cache the function is just called; with one, the result of equal arguments (caches among them left out) is returned from the function's own cache and counted, else computed once and stored; wrong expectations are refused."""
    @functools.wraps(f)
    def wrapper(*args, _private_cache_kwarg=None, _expect_cache_hit=None, **kwargs):
        if _private_cache_kwarg is None:
            if _expect_cache_hit not in [False, None]:
                raise AssertionError
            return f(*args, **kwargs)
        results, hits = _private_cache_kwarg
        a = [x for x in args if not isinstance(x, _Cache)]
        k = [(k, v) for k, v in sorted(kwargs.items()) if not isinstance(v, _Cache)]
        key = _ensure_hashable((tuple(a), tuple(k)))
        if key in results[f]:
            if _expect_cache_hit not in [True, None]:
                raise AssertionError
            hits[f][key] += 1
            return results[f][key]
        if _expect_cache_hit not in [False, None]:
            raise AssertionError
        r = f(*args, **kwargs)
        results[f][key] = r
        return r
    return wrapper


@contract(M + "bind", facets=["return"])
def bind(f, cache, expect_cache_hit=None):
    """Calls the function with the cache and the expectation."""
    @functools.wraps(f)
    def wrapper(*args, **kwargs):
        return f(*args, _private_cache_kwarg=cache, _expect_cache_hit=expect_cache_hit, **kwargs)
    return wrapper


@contract(M + "create_cache", facets=["return"])
def create_cache():
    """Results and hit counts per function, both empty."""
    return _Cache(cache=collections.defaultdict(dict), hits=collections.defaultdict(lambda: collections.defaultdict(int)))


@contract(M + "_ensure_hashable", facets=["outcome"], opaque=(M + "_ensure_hashable",))
def hashable(x):
    """Sequences and mappings are keyed by their contents, in order; tensors by identity."""
    if isinstance(x, (list, tuple)):
        return tuple(_ensure_hashable(y) for y in x)
    if isinstance(x, dict):
        return tuple((_ensure_hashable(k), _ensure_hashable(v)) for k, v in x.items())
    if isinstance(x, Tensor):
        return x
    if hash(x) is None:
        raise AssertionError
    return x
