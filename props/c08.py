"""C08  Exceptions of user code reach the caller unchanged."""
import collections
import dataclasses
import typing

from props.common import *

BOUNDS = ("one raising class at nesting depth 1..4 in every position (direct, field, container "
          "element, optional, flattened, transparent, generic argument, alias); ten exception "
          "types; the input that decides whether user code raises is an unbounded integer")
ASSUMPTIONS = ["union members are excluded: a member whose construction fails is not chosen"]

T = typing.TypeVar("T")


class Custom(Exception):
    pass


class Weird(Exception):
    def __init__(self, a, b):
        super().__init__(a, b)
        self.a, self.b = a, b

    def __str__(self):
        raise RuntimeError("unprintable")


def _excs():
    import serde

    return [ValueError("v"), KeyError("i"), TypeError("t"), AttributeError("a"), IndexError("x"),
            RuntimeError("r"), StopIteration(1), Custom("c"), Weird(1, 2), serde.SerdeError("s"),
            serde.SerdeSkip()]


STATE = {}


def _raise_maybe(i):
    if i > STATE["limit"]:
        raise STATE["exc"]


def _leaf(kind="serde", name="Leaf", **opts):
    def post(self):
        _raise_maybe(self.i)

    fs = [F("i", INT)]
    if kind == "plain":
        return make_class(name, fs, deco=dataclasses.dataclass, ns={"__post_init__": post})
    if kind == "init":
        def init(self, i: int):
            _raise_maybe(i)
            self.i = i

        return make_class(name, fs, ns={"__init__": init})
    if kind == "frozen":
        return make_class(name, fs, ns={"__post_init__": post},
                          deco=lambda c: _serde().serde(dataclasses.dataclass(frozen=True)(c)))
    return make_class(name, fs, ns={"__post_init__": post}, **opts)


def _serde():
    import serde

    return serde


def _host(ann, **opts):
    return make_class("Host", [F("v", INT, ann=ann), F("w", INT)], **opts)


def _generic(leaf):
    g = make_class("G", [F("a", INT, ann=T)], bases=(typing.Generic[T],))
    return g[leaf]


# name -> (type given the leaf class, plain data given the leaf's data (dict form))
POS = {
    "direct": (lambda L: L, lambda d: d),
    "list": (lambda L: list[L], lambda d: [d]),
    "list2": (lambda L: list[list[L]], lambda d: [[d]]),
    "dict": (lambda L: dict[str, L], lambda d: {"k": d}),
    "tuple": (lambda L: tuple[int, L], lambda d: (1, d)),
    "vtuple": (lambda L: tuple[L, ...], lambda d: [d]),
    "deque": (lambda L: collections.deque[L], lambda d: [d]),
    "opt": (lambda L: typing.Optional[L], lambda d: d),
    "optlist": (lambda L: typing.Optional[list[L]], lambda d: [d]),
    "dictlist": (lambda L: dict[str, list[L]], lambda d: {"k": [d]}),
    "defaultdict": (lambda L: collections.defaultdict[str, L], lambda d: {"k": d}),
    "generic": (_generic, lambda d: {"a": d}),
    "listgeneric": (lambda L: list[_generic(L)], lambda d: [{"a": d}]),
    "alias": (lambda L: typing.TypeAliasType("AL", L), lambda d: d),
}
POSFROZEN = {"set": (lambda L: set[L], lambda d: [d]),
             "frozenset": (lambda L: frozenset[L], lambda d: [d])}


def _go(inp, target, data, named, i):
    from serde import from_dict, from_tuple

    limit = inp.int("limit")
    excs = _excs()
    k = inp.choice("exc", len(excs))
    exc = excs[k]
    STATE.update(limit=limit, exc=exc)
    try:
        y = (from_dict if named else from_tuple)(target, data)
    except Exception as e:  # noqa: BLE001
        check(e is exc, "the exception of user code is not the one the caller gets")
        check(i > limit, "user code did not raise")
        inp.reach("raised")
        return
    check(not i > limit, "the exception of user code was swallowed")
    inp.reach("ok")


def _mk(label, pos, kind, how, named):
    tf, df = pos

    def build():
        leaf = _leaf(kind)
        t = tf(leaf)
        if how == "direct":
            return t
        if how == "field":
            return _host(t)
        if how == "nested":
            return make_class("Outer", [F("o", INT, ann=list[_host(t)])])
        if how == "default":
            return make_class("Host", [F("v", INT, ann=t, opts={"default": None})],
                              type_check=_serde().disabled)
        raise AssertionError(how)

    def run(inp, target):
        i = inp.choice("i", 3) if kind == "frozen" else inp.int("i")  # hashed
        d = df({"i": i} if named else (i,))
        if not named and "generic" in label:
            d = [(({"i": i} if False else (i,)),)] if label == "listgeneric" else ((i,),)
        if how == "field":
            d = {"v": d, "w": 1} if named else (d, 1)
        elif how == "nested":
            d = {"o": [{"v": d, "w": 1}]} if named else ([(d, 1)],)
        elif how == "default":
            d = {"v": d} if named else (d,)
        _go(inp, target, d, named, i)

    return Harness(f"{how}:{label}:{kind}:{'dict' if named else 'tuple'}", build, run,
                   reach=("raised", "ok"))


def _special(label, mk, df):
    def run(inp, target):
        i = inp.int("i")
        _go(inp, target, df(i), True, i)

    return Harness(f"special:{label}", mk, run, reach=("raised", "ok"))


SPECIAL = {
    "flatten": (lambda: make_class("Fl", [F("v", INT, ann=_leaf(), opts={"flatten": True}),
                                          F("w", INT)]), lambda i: {"i": i, "w": 1}),
    "flatten_opt": (lambda: make_class("Fl", [F("v", INT, ann=typing.Optional[_leaf()],
                                                opts={"flatten": True}), F("w", INT)]),
                    lambda i: {"i": i, "w": 1}),
    "transparent_leaf": (lambda: _leaf(transparent=True), lambda i: i),
    "transparent_outer": (lambda: make_class("Tr", [F("v", INT, ann=_leaf())], transparent=True),
                          lambda i: {"i": i}),
    "alias": (lambda: make_class("Al", [F("v", INT, ann=typing.Optional[_leaf()],
                                          opts={"rename": "z"})]), lambda i: {"z": {"i": i}}),
    "coerce": (lambda: make_class("Co", [F("v", INT, ann=_leaf(type_check=_serde().coerce))],
                                  type_check=_serde().coerce), lambda i: {"v": {"i": i}}),
    "disabled": (lambda: make_class("Di", [F("v", INT, ann=_leaf(type_check=_serde().disabled))],
                                    type_check=_serde().disabled), lambda i: {"v": {"i": i}}),
    "inherit": (lambda: make_class("Sub", [F("w", INT, default=0)], bases=(_leaf(),)),
                lambda i: {"i": i}),
    "kw_only": (lambda: make_class("Kw", [F("i", INT, opts={"kw_only": True})],
                                   ns={"__post_init__": lambda self: _raise_maybe(self.i)}),
                lambda i: {"i": i}),
    "deny": (lambda: _leaf(deny_unknown_fields=True), lambda i: {"i": i}),
}


def _rec():
    def build():
        cls = make_class("RecU", [F("i", INT), F("n", INT, ann="typing.Optional[RecU]")],
                         deco=lambda c: c, ns={"__post_init__": lambda s: _raise_maybe(s.i)})
        import symex_programs

        symex_programs.typing = typing
        cls = _serde().serde(cls)
        symex_programs.RecU = cls
        return cls

    def run(inp, cls):
        i = inp.int("i")
        j = inp.int("j")
        d = {"i": j, "n": {"i": i, "n": None}}
        limit_first = inp.flag("inner")
        if limit_first:
            inp.assume(j <= i)
            _go(inp, cls, d, True, i)
        else:
            inp.assume(i <= j)
            _go(inp, cls, d, True, j)

    return Harness("special:recursive", build, run, reach=("raised", "ok"))


def _formats(fmt):
    def build():
        return list[_leaf()]

    def run(inp, target):
        import importlib

        from serde.de import Deserializer

        i, limit = inp.int("i"), inp.int("limit")
        exc = inp.pick("exc", _excs())
        STATE.update(limit=limit, exc=exc)

        class De(Deserializer):
            @classmethod
            def deserialize(cls, data, **opts):
                return data

        frm = getattr(importlib.import_module(f"serde.{fmt}"), f"from_{fmt}")
        t, d = (target, [{"i": i}]) if inp.flag("list") else (target.__args__[0], {"i": i})
        try:
            frm(t, d, de=De)
        except Exception as e:  # noqa: BLE001
            check(e is exc and i > limit, "the exception of user code is not the one received")
            inp.reach("raised")
            return
        check(not i > limit, "swallowed")
        inp.reach("ok")

    return Harness(f"format:{fmt}", build, run, reach=("raised", "ok"))


def _typecheck():
    """Failures of the type check remain SerdeError also when user code could raise."""
    def build():
        return _leaf(), make_class("Host", [F("v", INT, ann=_leaf(name="L2"))])

    def run(inp, env):
        leaf, host = env
        STATE.update(limit=0, exc=ValueError("user"))
        v = [None, inp.str("s"), [1], {"a": 1}][inp.choice("bad", 4)]
        from serde import from_dict, from_tuple

        must_fail(lambda: from_dict(leaf, {"i": v}), "type check")
        must_fail(lambda: from_dict(host, {"v": {"i": v}}), "nested type check")
        must_fail(lambda: from_tuple(host, ((v,),)), "nested type check")
        must_fail(lambda: from_dict(list[leaf], [{"i": v}]), "direct type check")
        inp.reach("end")

    return Harness("type-check", build, run)


def harnesses(tier):
    out = []
    kinds = ["serde", "plain", "init"]
    for named in (True, False):
        for l, p in POS.items():
            for kind in kinds:
                for how in ("direct", "field", "nested", "default"):
                    if tier == "quick" and kind == "plain" and how in ("nested", "default"):
                        continue
                    if how == "default" and not named:
                        continue
                    out.append(_mk(l, p, kind, how, named))
        for l, p in POSFROZEN.items():
            for how in ("direct", "field"):
                out.append(_mk(l, p, "frozen", how, named))
    out += [_special(l, mk, df) for l, (mk, df) in SPECIAL.items()]
    out += [_rec(), _typecheck()]
    out += [_formats(f) for f in ("json", "yaml", "toml", "msgpack", "pickle")]
    return out
