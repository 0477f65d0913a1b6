"""Development tool (run with the project's interpreter): record the public names of the libraries the
repository imports, so that the analysis can tell a library member that exists from one that does not."""
import importlib
import json
import os
import pkgutil
import sys

os.environ["JAX_PLATFORMS"] = "cpu"
MODS = """jax jax.numpy jax.numpy.linalg jax.numpy.fft jax.lax jax.nn jax.nn.initializers jax.random jax.tree_util jax.core jax.errors jax.util
jax.experimental jax.experimental.checkify jax.debug jax.dtypes jax.scipy jax.scipy.special jax.typing jax.config jax.ops jax.linear_util
jax.api_util jax.custom_derivatives jax.flatten_util jax.profiler jax.sharding jax.stages jax.test_util
flax flax.linen flax.struct flax.core flax.core.frozen_dict flax.traverse_util flax.errors flax.serialization flax.training
numpy numpy.linalg numpy.random numpy.typing
typing typing_extensions dataclasses enum textwrap functools itertools collections collections.abc abc warnings copy operator math
contextlib inspect types re os os.path sys logging string numbers fractions decimal random time weakref traceback io json pathlib
unittest unittest.mock builtins cmath statistics bisect heapq pprint reprlib""".split()
out = {}
for m in MODS:
    try:
        mod = importlib.import_module(m)
    except Exception as e:
        print("skip", m, e, file=sys.stderr)
        continue
    out[m] = sorted(set(dir(mod)) | {n for n in getattr(mod, "__all__", [])})
known = set(out)
for top in ("jax", "flax", "numpy"):
    p = importlib.import_module(top)
    for x in pkgutil.iter_modules(p.__path__, top + "."):
        known.add(x.name)
for top in ("jax.experimental", "jax.lax", "jax.scipy", "jax.nn", "flax.linen", "flax.core"):
    p = importlib.import_module(top)
    for x in pkgutil.iter_modules(p.__path__, top + "."):
        known.add(x.name)
known |= set(sys.stdlib_module_names)
json.dump({"members": out, "modules": sorted(known)}, open(sys.argv[1], "w"), separators=(",", ":"))
