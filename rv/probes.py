"""Monitors attached to the public callables of the package under test.

install() wraps every public function and method defined in czone once, in every module namespace
that refers to it.  Calls made while a case is active are counted as events, and are handed to the
monitors registered by the property that is being decided.  Calls made from inside a monitor are
not monitored.
"""
import functools
import importlib
import inspect
import pkgutil
import sys

_state = {"ctx": None, "depth": 0, "installed": False, "hooks": {}}


def hook(name, pre=None, post=None):
    """Attach a monitor for the running case.

    pre(ctx, args, kwargs) -> token is called before, post(ctx, token, args, kwargs, result) after
    a call of the named callable ("Class.method" or "function") that returned.
    """
    _state["hooks"].setdefault(name, []).append((pre, post))


def begin(ctx):
    _state["ctx"] = ctx
    _state["hooks"] = {}
    _state["depth"] = 0


def end():
    _state["ctx"] = None
    _state["hooks"] = {}


class quiet:
    """Calls made in this block are neither counted nor monitored."""

    def __enter__(self):
        _state["depth"] += 1

    def __exit__(self, *a):
        _state["depth"] -= 1
        return False


def _wrap(fn, name):
    @functools.wraps(fn)
    def probe(*args, **kwargs):
        ctx = _state["ctx"]
        if ctx is None or _state["depth"]:
            return fn(*args, **kwargs)
        ctx.events["call:" + name] += 1
        hooks = _state["hooks"].get(name)
        if not hooks:
            return fn(*args, **kwargs)
        tokens = []
        _state["depth"] += 1
        try:
            for pre, _ in hooks:
                tokens.append(pre(ctx, args, kwargs) if pre else None)
        finally:
            _state["depth"] -= 1
        result = fn(*args, **kwargs)
        _state["depth"] += 1
        try:
            for (_, post), tok in zip(hooks, tokens):
                if post:
                    post(ctx, tok, args, kwargs, result)
                    ctx.events["monitored:" + name] += 1
        finally:
            _state["depth"] -= 1
        return result
    probe.__rv_probe__ = True
    return probe


def install():
    if _state["installed"]:
        return
    _state["installed"] = True
    import czone
    for m in pkgutil.walk_packages(czone.__path__, "czone."):
        if ".viz" in m.name:
            continue
        importlib.import_module(m.name)
    mods = [m for n, m in sorted(sys.modules.items()) if n == "czone" or n.startswith("czone.")]
    wrapped = {}
    classes = set()
    for mod in mods:
        for name, obj in list(vars(mod).items()):
            if inspect.isfunction(obj) and (obj.__module__ or "").startswith("czone"):
                if name.startswith("_") or getattr(obj, "__rv_probe__", False):
                    continue
                if id(obj) not in wrapped:
                    wrapped[id(obj)] = (_wrap(obj, obj.__name__), obj)
                setattr(mod, name, wrapped[id(obj)][0])
            elif inspect.isclass(obj) and (obj.__module__ or "").startswith("czone"):
                classes.add(obj)
    for cls in classes:
        for name, obj in list(vars(cls).items()):
            if name.startswith("_"):
                continue
            label = f"{cls.__name__}.{name}"
            if inspect.isfunction(obj):
                setattr(cls, name, _wrap(obj, label))
            elif isinstance(obj, staticmethod):
                setattr(cls, name, staticmethod(_wrap(obj.__func__, label)))
            elif isinstance(obj, classmethod):
                setattr(cls, name, classmethod(_wrap(obj.__func__, label)))
