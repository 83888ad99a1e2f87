"""Helpers shared by the property modules."""
from __future__ import annotations

import collections
import typing
import enum

from symex.api import Harness, Violation, check, concretely  # noqa: F401
from symex.families import *  # noqa: F401,F403
from symex.families import universe  # noqa: F401
from symex.specs import *  # noqa: F401,F403
from symex.specs import (ANY, BOOL, DC, F, FLOAT, INT, MISSING, NONE, STR, STRB, W, WireOpts,  # noqa
                         make_class, same)


def attempt(fn):
    """(True, value) or (False, SerdeError).  Any other exception propagates (= violation)."""
    from serde import SerdeError

    try:
        return True, fn()
    except SerdeError as e:
        return False, e


def must_fail(fn, msg):
    ok, v = attempt(fn)
    check(not ok, f"{msg}: expected SerdeError, got a result")
    return v


def outcome(fn):
    """(kind, value): ('ok', v) | ('serde', exc) | ('other', exc)."""
    from serde import SerdeError

    try:
        return "ok", fn()
    except SerdeError as e:
        return "serde", e
    except Exception as e:  # noqa: BLE001
        return "other", e


PLAIN = (int, float, bool, str, type(None))


def is_plain(v, tuples=True, sets=False):
    """Only plain data: exactly-typed primitives, lists, tuples and dicts (no subclasses)."""
    t = type(v)
    if t in PLAIN:
        return True
    if t is list or (tuples and t is tuple) or (sets and t is set):
        for e in v:
            if not is_plain(e, tuples, sets):
                return False
        return True
    if t is dict:
        for k, e in v.items():
            if not (is_plain(k, tuples) and is_plain(e, tuples, sets)):
                return False
        return True
    return False


def snapshot(v):
    """A structural copy sharing leaves (leaves are immutable in our programs)."""
    t = type(v)
    if t is list:
        return [snapshot(e) for e in v]
    if t is tuple:
        return tuple([snapshot(e) for e in v])
    if t is collections.deque:
        return collections.deque([snapshot(e) for e in v], v.maxlen)
    if t is dict:
        return {k: snapshot(e) for k, e in v.items()}
    if isinstance(v, dict):
        c = v.copy()
        for k in list(c):
            c[k] = snapshot(c[k])
        return c
    if t in (set, frozenset):
        return t(v)
    import dataclasses

    if dataclasses.is_dataclass(v) and not isinstance(v, type):
        new = object.__new__(type(v))
        for f in dataclasses.fields(v):
            if hasattr(v, f.name):
                object.__setattr__(new, f.name, snapshot(getattr(v, f.name)))
        return new
    return v


def agrees(y, d):
    """A primitive leaf of the result is exactly the leaf of the data it was read from (strict
    classes never convert primitives); leaves with a textual form and mapping keys are not compared."""
    import dataclasses

    t = type(y)
    if y is None or t in (bool, int, str):
        return type(d) is t and bool(y == d)
    if t is float:
        return same(y, d)
    if t in (list, tuple, collections.deque, set, frozenset):
        if isinstance(d, (str, dict)):  # sequences are built from any iterable
            return True
    if t in (list, tuple, collections.deque):
        if not isinstance(d, (list, tuple)) or len(y) > len(d):
            return False
        for a, b in zip(y, d):
            if not agrees(a, b):
                return False
        return True
    if t in (set, frozenset):
        if not isinstance(d, (list, tuple, set, frozenset)):
            return False
        return all([any([agrees(a, b) for b in d]) for a in y])
    if isinstance(y, dict):
        if not isinstance(d, dict) or len(y) != len(d):
            return False
        return all([agrees(a, b) for a, b in zip(y.values(), d.values())])
    if dataclasses.is_dataclass(y):
        if isinstance(d, dict):
            if len(d) == 1 and t.__name__ in d:  # external tagging
                d = d[t.__name__]
            for f in dataclasses.fields(y):
                if f.name in d:
                    if not agrees(getattr(y, f.name), d[f.name]):
                        return False
            return True
        return all([agrees(getattr(y, f.name), e) for f, e in zip(dataclasses.fields(y), d)])
    return True


def combo_class(combo, name="Combo", spec=INT, **opts):
    _, o, default, factory = combo
    has_default = default is not MISSING or factory is not MISSING
    return make_class(name, [F("a_a", INT), F("m_m", spec, default, factory, opts=o),
                             F("z_z", INT, 9 if has_default else MISSING)], **opts)


def combo_value(inp, cls, combo, mid=None):
    v = inp.int("m") if mid is None else mid
    if combo[1].get("skip_if_false"):
        inp.assume(v != 0)
    return cls(a_a=inp.int("a"), m_m=v, z_z=inp.int("z"))


def fresh():
    """Forget everything pyserde remembers between calls, as in a new process (the classes
    themselves keep their generated functions)."""
    import serde.compat
    import serde.core
    import serde.de
    import serde.se

    serde.core.CACHE.classes.clear()
    for mod in (serde.compat, serde.core, serde.se, serde.de):
        for f in list(vars(mod).values()):
            if hasattr(f, "cache_clear"):
                f.cache_clear()
