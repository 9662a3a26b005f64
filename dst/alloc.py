"""Allocation seam: numpy/pyarrow constructors called from rxls can be made to fail."""

from __future__ import annotations

import sys

from . import sim as _sim

NAMES = {"numpy": ("fromiter", "frombuffer", "array", "asarray", "ascontiguousarray", "concatenate", "empty", "zeros", "repeat", "where"), "pyarrow": ("array", "py_buffer", "chunked_array", "nulls")}


def install() -> None:
    import numpy
    import pyarrow

    for modname, names in NAMES.items():
        mod = {"numpy": numpy, "pyarrow": pyarrow}[modname]
        for n in names:
            setattr(mod, n, _wrap(getattr(mod, n), f"{modname}.{n}"))
    import pyarrow.compute as pc

    for n in ("cast", "filter", "is_null", "take"):  # the methods of arrays call these
        setattr(pc, n, _wrap(getattr(pc, n), f"compute.{n}"))
    get = pc.get_function
    pc.get_function = lambda name, *a, **k: _Kernel(get(name, *a, **k), name)


class _Kernel:
    """A compute kernel whose call allocates its result."""

    def __init__(self, raw, name):
        self._raw = raw
        self.call = _wrap(raw.call, f"compute.{name}")

    def __getattr__(self, name):
        return getattr(self._raw, name)


def _wrap(fn, name):
    def seam(*a, **k):
        s = _sim.CUR
        if s is not None and s.active:
            hook = s.hooks.get("alloc")
            if hook is not None and "/rxls/" in sys._getframe(1).f_code.co_filename:
                hook(name)
        return fn(*a, **k)

    seam.__name__ = getattr(fn, "__name__", name)
    seam.__doc__ = fn.__doc__
    return seam
