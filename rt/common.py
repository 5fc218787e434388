"""Shared by the symbolic and the native (replay) mode of the harnesses."""
import collections


class Scenario(object):
    """One bounded obligation: fn(ctx) builds symbolic inputs, drives the public API and checks the result."""

    def __init__(self, name, fn, bounds, weight=1, observe=True, steps=None):
        self.name, self.fn, self.bounds, self.weight, self.observe = name, fn, bounds, weight, observe
        self.steps = steps
        self.plain = False      # the fields the scenario does not care about are zero


_ctx, _ambient = [None], {}


def enter(ctx, scenario):
    """a run of a scenario begins"""
    _ctx[0] = None if scenario.plain else ctx
    _ambient.clear()


def ambient(name, kind):
    """a field the scenario does not care about: arbitrary, the same throughout the run"""
    if _ctx[0] is None:
        return 0
    if name not in _ambient:
        _ambient[name] = getattr(_ctx[0], kind)("any." + name)
    return _ambient[name]


def norm(v):
    """a JSON-able picture of a concrete value, with its type"""
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, int):
        return getattr(v, "name", int(v)) if type(v) is not int else v
    if isinstance(v, float):
        return {"float": repr(v)}
    if isinstance(v, (bytes, bytearray)):
        return {"bytes": bytes(v).hex()}
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, dict):
        return {"dict": [[norm(k), norm(x)] for k, x in v.items()]}
    if isinstance(v, BaseException):
        return {"exc": type(v).__name__}
    if isinstance(v, Outcome):
        return {"outcome": v.kind, "value": norm(v.value) if v.kind == "ok" else type(v.value).__name__}
    if type(v).__name__ in ("datetime", "date", "timedelta"):
        return {"time": str(v)}
    if hasattr(v, "__dict__"):
        return {"obj": type(v).__name__, "vars": norm(dict(vars(v)))}
    return {"repr": type(v).__name__}


class Outcome(object):
    """result of a call: kind 'ok' with its value, or kind 'err' with the exception"""

    def __init__(self, kind, value):
        self.kind, self.value = kind, value

    @property
    def ok(self):
        return self.kind == "ok"

    def is_err(self, *types):
        return self.kind == "err" and (not types or isinstance(self.value, types))


def dict_items(v):
    return list(collections.OrderedDict.items(v)) if isinstance(v, collections.OrderedDict) else list(dict.items(v))
