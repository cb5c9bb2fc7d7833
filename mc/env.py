"""Imported in every worker (and nowhere else): jax in 64-bit CPU mode + the package under test."""
import os, sys, warnings
warnings.filterwarnings("ignore")
import jax
import jax.numpy as jnp
import numpy as np
import equinox as eqx
import hydraxmpm as hdx

try:  # workers share a compilation cache: make its writes atomic
    from jax._src import lru_cache as _lru

    def _put(self, key, value):
        p = os.path.join(str(self.path), key + _lru._CACHE_SUFFIX)
        if not os.path.exists(p):
            t = "%s.%d.tmp" % (p, os.getpid())
            with open(t, "wb") as f:
                f.write(value)
            os.replace(t, p)
    _lru.LRUCache.put = _put
except Exception:
    pass
