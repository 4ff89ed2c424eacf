"""Every public function and constructor called through the operation table leaves the arrays, lists and objects it was handed as they were."""
import enum
import inspect
import types
import numpy as np
from . import core, snap

MAXSIZE = 200_000


def _mutable(x):
    if isinstance(x, (np.ndarray, list, dict)):
        return True
    if isinstance(x, tuple):
        return any(_mutable(y) for y in x)
    return type(x).__module__.startswith("dsptoolbox") and not isinstance(x, enum.Enum) and not inspect.isclass(x)


def _calling(name, fn, problems):
    def call(*a, **k):
        args = [(str(i), x) for i, x in enumerate(a) if _mutable(x)] + [(n, x) for n, x in k.items() if _mutable(x)]
        before = [(n, x, snap.freeze(x)) for n, x in args]
        try:
            return fn(*a, **k)
        finally:
            for n, x, b in before:
                m = core.same(snap.freeze(x), b, rtol=0, atol=0)
                if m:
                    problems.append(f"{name} changed its argument {n}: {m}")
    return call


class _Class:
    def __init__(self, name, cls, problems):
        self._n, self._c, self._p = name, cls, problems
        self._call = _calling(name, cls, problems)

    def __call__(self, *a, **k):
        return self._call(*a, **k)

    def __getattr__(self, k):
        v = getattr(self._c, k)
        if inspect.isclass(v) and issubclass(v, enum.Enum):
            return v
        if inspect.ismethod(v) or inspect.isfunction(v):
            v = _calling(f"{self._n}.{k}", v, self._p)
            setattr(self, k, v)
        return v

    def __instancecheck__(self, x):
        return isinstance(x, self._c)


class _Module:
    def __init__(self, mod, problems):
        self._m, self._p = mod, problems

    def __getattr__(self, k):
        v = getattr(self._m, k)
        name = f"{self._m.__name__.split('.')[-1]}.{k}"
        if isinstance(v, types.ModuleType):
            v = _Module(v, self._p) if v.__name__.startswith("dsptoolbox") else v
        elif inspect.isclass(v):
            v = v if issubclass(v, enum.Enum) else _Class(name, v, self._p)
        elif callable(v):
            v = _calling(name, v, self._p)
        setattr(self, k, v)
        return v


def module(mod, problems):
    return _Module(mod, problems)
