"""Module-level state of the package under test, put back to what it was right after import.

Every explored path starts from there, and a harness may call reset() between two runs to compare "in a fresh process"
with "after other work in this process".
"""
import copy
import sys
import types

PKG = "cognitivefactory"
SIMPLE = (int, float, str, bytes, bool, type(None), tuple, frozenset)
BOXES = (dict, list, set)
_snap = None


def _modules():
    for name, m in list(sys.modules.items()):
        if m is not None and (name == PKG or name.startswith(PKG + ".")):
            yield m


def _holders():
    """(owner, names) of everything that may hold state: modules, their classes, their functions."""
    seen = set()
    work = list(_modules())
    while work:
        o = work.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        yield o
        for v in list(vars(o).values()) if hasattr(o, "__dict__") else ():
            v = getattr(v, "__func__", v)
            v = getattr(v, "fget", None) or v
            if isinstance(v, (type, types.FunctionType)) and str(getattr(v, "__module__", "")).startswith(PKG):
                work.append(v)
            elif hasattr(v, "cache_clear") and hasattr(v, "__wrapped__"):
                work.append(v)


def _copy(v):
    try:
        return copy.deepcopy(v)
    except Exception:  # noqa: BLE001
        return copy.copy(v)


def _box(v):
    return (v, _copy(v))


def _take():
    snap = []
    for o in _holders():
        names, boxes, simple = set(), [], {}
        for k, v in list(vars(o).items()):
            if k.startswith("__") and k.endswith("__"):
                continue
            names.add(k)
            if isinstance(v, BOXES):
                boxes.append((k,) + _box(v))
            elif isinstance(v, SIMPLE):
                simple[k] = v
        defaults = []
        if isinstance(o, types.FunctionType):
            for v in list(o.__defaults__ or ()) + list((o.__kwdefaults__ or {}).values()):
                if isinstance(v, BOXES):
                    defaults.append(_box(v))
        if boxes or simple or defaults or names or isinstance(o, (types.FunctionType, type, types.ModuleType)):
            snap.append((o, names, boxes, simple, defaults))
    return snap


def _fill(v, was):
    # No comparison: the values may be symbolic.
    if len(v) or len(was):
        fresh = _copy(was)
        v.clear()
        v.extend(fresh) if isinstance(v, list) else v.update(fresh)


def snapshot():
    global _snap
    if _snap is None:
        _snap = _take()


def reset():
    """Back to the state after import (taken at the first call)."""
    if _snap is None:
        snapshot()
        return
    for o, names, boxes, simple, defaults in _snap:
        if hasattr(o, "cache_clear"):
            o.cache_clear()
        d = vars(o)
        for k, v, was in boxes:
            if d.get(k) is not v:
                setattr(o, k, v)
            _fill(v, was)
        for k, was in simple.items():
            if d.get(k, snapshot) is not was:
                setattr(o, k, was)
        for v, was in defaults:
            _fill(v, was)
        if len(d) > len(names):
            for k in [k for k in d if k not in names and not (k.startswith("__") and k.endswith("__"))]:
                v = d[k]
                if isinstance(v, BOXES + SIMPLE) or isinstance(o, types.FunctionType):
                    delattr(o, k)
