"""C27  Results do not depend on what was defined or called before."""
import collections
import dataclasses
import enum
import functools
import itertools
import pathlib
import typing

from props.common import *

BOUNDS = ("every history of up to two (thorough: three) out of 30 definitions and calls - unions in other orders, "
          "taggings and containers, same-named classes, subclasses and hosts with other options, failing calls, other "
          "options, undecorated classes, generics, literals, equal values of other types, tuples, formats, scoped "
          "global (de)serializers - before each of 16 targets; in a new process state (empty caches); values symbolic")
ASSUMPTIONS = ["that defining a host of an undecorated dataclass makes its checks strict is a known finding"]

T = typing.TypeVar("T")


def _lazy(fn):
    return functools.cached_property(lambda self: concretely(lambda: fn(self)))


class P:
    """Classes of one run."""

    A = _lazy(lambda p: make_class("A", [F("i", INT)]))
    B = _lazy(lambda p: make_class("B", [F("s", STR), F("i", INT, 0)]))
    A2 = _lazy(lambda p: make_class("A", [F("i", STR)]))
    Pl = _lazy(lambda p: make_class("Pl", [F("p", INT), F("q", STR, "d")], deco=dataclasses.dataclass))
    IE = _lazy(lambda p: enum.IntEnum("IE", [("X", 1), ("Y", 2)], module="symex_programs"))
    E = _lazy(lambda p: enum.Enum("E", [("X", 1), ("Y", "y")], module="symex_programs"))
    C = _lazy(lambda p: make_class("C", [F("p", INT, ann=pathlib.Path), F("s", INT, ann=set[int]),
                                         F("o", INT, None, ann=typing.Optional[int])]))
    G = _lazy(lambda p: make_class("G", [F("x", INT, ann=T), F("l", INT, MISSING, list, ann=list[T])],
                                   bases=(typing.Generic[T],)))
    H = _lazy(lambda p: make_class("H", [F("u", INT, ann=typing.Union[p.A, p.B, int]),
                                         F("e", INT, ann=typing.Union[str, p.IE])]))
    AB = _lazy(lambda p: typing.Union[p.A, p.B])
    BA = _lazy(lambda p: typing.Union[p.B, p.A])
    A2B = _lazy(lambda p: typing.Union[p.A2, p.B])

    for _n in ("A", "B", "A2", "Pl", "IE", "E", "C", "G", "H", "AB", "BA", "A2B"):
        locals()[_n].attrname = _n


def _try(fn):
    try:
        fn()
    except Exception:  # noqa: BLE001
        pass


def _ops():
    from serde import (AdjacentTagging, InternalTagging, Untagged, coerce, disabled, from_dict, from_tuple, to_dict,
                       to_tuple)
    from serde.json import from_json, to_json
    from serde.toml import to_toml

    it, at = InternalTagging("t"), AdjacentTagging("t", "c")
    U = typing.Union

    def glob(p):
        """Registered and removed again."""
        from plum import dispatch
        from serde import core

        class Ser:
            @dispatch
            def serialize(self, v: p.A) -> str:
                return "A!"

            @dispatch
            def serialize(self, v: int) -> str:  # noqa: F811
                return "int!"

        p.AB, p.A2B, p.H, p.G, p.Pl, p.C  # defined before
        s = Ser()
        saved = list(core.GLOBAL_CLASS_SERIALIZER), dict(core.CACHE.classes)
        core.add_serializer(s)
        try:
            _try(lambda: to_dict(p.A(3), c=p.AB))
            _try(lambda: to_dict([3]))
        finally:
            core.GLOBAL_CLASS_SERIALIZER[:] = saved[0]
            core.CACHE.classes.clear()
            core.CACHE.classes.update(saved[1])

    return {
        "none": lambda p: None,
        "to_ab": lambda p: to_dict(p.A(3), c=p.AB),
        "from_ab": lambda p: from_dict(p.AB, {"B": {"s": "q"}}),
        "from_ba": lambda p: from_dict(p.BA, {"B": {"s": "q"}}),
        "to_a2b": lambda p: to_dict(p.A2("x"), c=p.A2B),
        "from_a2b": lambda p: from_dict(p.A2B, {"A": {"i": "q"}}),
        "int_ab": lambda p: (from_dict(it(p.AB), {"t": "A", "i": 3}), to_dict(p.A(1), c=it(p.AB))),
        "adj_ab": lambda p: (from_dict(at(p.AB), {"t": "A", "c": {"i": 3}}), to_dict(p.A(1), c=at(p.AB))),
        "unt_ab": lambda p: (from_dict(Untagged(p.BA), {"i": 3}), to_dict(p.A(1), c=Untagged(p.BA))),
        "fail_ab": lambda p: _try(lambda: from_dict(p.AB, {"A": 5})),
        "fail_to": lambda p: _try(lambda: to_dict(object(), c=p.AB)),
        "fail_a": lambda p: _try(lambda: from_dict(p.A, {"i": "x"})),
        "fail_h": lambda p: (_try(lambda: from_dict(p.H, {"u": {"A": {}}, "e": 1})),
                             _try(lambda: to_dict(p.H(p.A(1), object())))),
        "host": lambda p: make_class("Q", [F("u", INT, ann=p.AB), F("v", INT, ann=p.A2)], rename_all="camelcase",
                                     tagging=at, type_check=coerce),
        "host2": lambda p: from_dict(make_class("H", [F("u", INT, ann=p.A2B)], tagging=Untagged),
                                     {"u": {"i": "3"}}),
        "sub": lambda p: to_dict(make_class("A", [F("new_f", INT, 3)], bases=(p.A,), rename_all="camelcase",
                                            type_check=disabled)(1)),
        "subb": lambda p: from_dict(make_class("S", [], bases=(p.B,), deny_unknown_fields=True,
                                               type_check=coerce), {"s": 3}),
        "plain": lambda p: (from_dict(p.Pl, {"p": 3}), to_dict(p.Pl(3))),
        "plainhost": lambda p: make_class("PlH", [F("x", INT, ann=p.Pl)]),
        "values": lambda p: [to_dict(v) for v in (1, True, 1.0, "1", None, p.IE.X, [True], {1: True})],
        "enums": lambda p: [to_dict(v) for v in (p.IE.X, p.E.X, [p.IE.X], True, 1)],
        "options": lambda p: (to_dict(p.C(pathlib.Path("a"), {1}), reuse_instances=False, convert_sets=True,
                                      skip_none=True),
                              from_dict(p.C, {"p": "a", "s": [1]}, reuse_instances=False)),
        "formats": lambda p: (from_json(U[int, float], "3"), to_json(p.A(1), cls=p.AB), from_json(p.A, '{"i": 3}'),
                              to_toml(p.A(1)), from_json(p.AB, '{"A": {"i": 3}}')),
        "containers": lambda p: (from_dict(list[p.BA], [{"A": {"i": 3}}]), to_dict({"k": p.A(1)}, c=dict[str, p.AB]),
                                 from_dict(typing.Optional[p.BA], None), from_dict(list[p.A2], [{"i": "x"}])),
        "generic": lambda p: (from_dict(p.G[str], {"x": "3"}), from_dict(p.G[p.A2], {"x": {"i": "x"}}),
                              from_dict(p.G, {"x": 3})),
        "literal": lambda p: [_try(lambda: from_dict(typing.Literal[1, "a"], 1)),
                              _try(lambda: from_dict(typing.Literal[True], True)),
                              _try(lambda: from_dict(typing.Literal["a", 1], "b"))],
        "prims": lambda p: (from_dict(U[str, int], 3), from_dict(U[int, str], "3"), to_dict(3, c=U[str, int]),
                            from_dict(U[bool, int], 1), _try(lambda: from_dict(U[bool, str], 1))),
        "tuples": lambda p: (to_tuple(p.A(1)), from_tuple(p.B, ("x", 2)), to_tuple(p.H(p.A(1), "x")),
                             from_tuple(list[p.AB], [{"A": {"i": 3}}])),
        "lists": lambda p: (from_dict(list[int], [1]), _try(lambda: from_dict(list[int], ["x"])),
                            from_dict(list[str], ["x"]), from_dict(dict[int, str], {"1": "x"}),
                            from_dict(dict[str, int], {"1": 1})),
        "globals": glob,
    }


def _targets():
    from serde import AdjacentTagging, InternalTagging, Untagged, from_dict, from_tuple, to_dict, to_tuple
    from serde.json import from_json

    it, at = InternalTagging("t"), AdjacentTagging("t", "c")
    U = typing.Union

    def direct(p, n, s, inp):
        for u in (p.AB, p.BA):
            check(same(to_dict(p.A(n), c=u), {"A": {"i": n}}), "union written")
            check(same(from_dict(u, {"A": {"i": n}}), p.A(n)), "union read")
            check(same(from_dict(u, {"B": {"s": s}}), p.B(s, 0)), "union read 2")
            must_fail(lambda: from_dict(u, {"A": {"i": s}}), "union")

    def samename(p, n, s, inp):
        check(same(to_dict(p.A2(s), c=p.A2B), {"A": {"i": s}}), "written")
        check(same(from_dict(p.A2B, {"A": {"i": s}}), p.A2(s)), "read")
        must_fail(lambda: from_dict(p.A2B, {"A": {"i": n}}), "other class")
        check(same(from_dict(p.AB, {"A": {"i": n}}), p.A(n)), "the other")

    def tagged(p, n, s, inp):
        for tg, w in ((it, {"i": n, "t": "A"}), (at, {"c": {"i": n}, "t": "A"}), (Untagged, {"i": n})):
            check(same(to_dict(p.A(n), c=tg(p.AB)), w), "written")
            check(same(from_dict(tg(p.AB), w), p.A(n)), "read")
        must_fail(lambda: from_dict(it(p.AB), {"A": {"i": n}}), "other tagging")

    def untagged_order(p, n, s, inp):
        x = make_class("X1", [F("i", INT)])
        y = make_class("X2", [F("i", INT)])
        check(same(from_dict(Untagged(U[x, y]), {"i": n}), x(n)), "first")
        check(same(from_dict(Untagged(U[y, x]), {"i": n}), y(n)), "first of the reordered")
        check(same(to_dict(y(n), c=Untagged(U[x, y])), {"i": n}), "written")

    def plain(p, n, s, inp):
        check(same(to_dict(p.Pl(n, s)), {"p": n, "q": s}), "written")
        check(same(from_dict(p.Pl, {"p": n}), p.Pl(n, "d")), "read")

    def plain_loose(p, n, s, inp):
        g, y = attempt(lambda: from_dict(p.Pl, {"p": s}))
        check(g and same(y.p, s), "not checked")

    def host(p, n, s, inp):
        check(same(to_dict(p.H(p.A(n), s)), {"u": {"A": {"i": n}}, "e": s}), "written")
        check(same(to_dict(p.H(n, p.IE.Y)), {"u": n, "e": 2}), "written 2")
        check(same(from_dict(p.H, {"u": {"B": {"s": s}}, "e": 2}), p.H(p.B(s), p.IE.Y)), "read")
        must_fail(lambda: from_dict(p.H, {"u": {"A": {"i": s}}, "e": s}), "wrong")

    def values(p, n, s, inp):
        for v, w in ((1, 1), (True, True), (1.0, 1.0), (p.IE.X, 1), (p.E.X, 1), (p.E.Y, "y"), ("1", "1"),
                              ([True, 1], [True, 1]), ({1: 1}, {1: 1}), ({True: 1}, {True: 1}), (None, None)):
            check(same(to_dict(v), w), "written")
        for t in (int, bool, float, str, p.IE, p.E):
            k, y = outcome(lambda: from_dict(t, 1))
            exp = {bool: True, float: 1.0, str: "1", p.IE: p.IE.X, p.E: p.E.X}.get(t, 1)
            check(k == "ok" and same(y, exp) or k == "serde", "read")

    def options(p, n, s, inp):
        pa = pathlib.Path("a")
        x = p.C(pa, {1}, None)
        check(same(to_dict(x), {"p": pa, "s": {1}, "o": None}), "defaults")
        check(same(to_dict(x, reuse_instances=False), {"p": "a", "s": {1}, "o": None}), "one option")
        check(same(to_dict(x, convert_sets=True), {"p": pa, "s": [1], "o": None}), "one option")
        check(same(to_dict(x, skip_none=True), {"p": pa, "s": {1}}), "one option")
        check(same(from_dict(p.C, {"p": "a", "s": [1], "o": n}), p.C(pa, {1}, n)), "read")

    def literal(p, n, s, inp):
        L = typing.Literal
        for v, (t, good) in itertools.product((1, True, "a", "b", 0), (
                (L[1, "a"], (1, "a")), (L[True], (True,)), (L["a", 1], (1, "a")), (L["b"], ("b",)))):
            ok, y = attempt(lambda: from_dict(t, v))
            if any(type(g) is type(v) and g == v for g in good):
                check(ok and same(y, v), "literal")
            elif v not in good:
                check(not ok, "no literal")

    def generic(p, n, s, inp):
        check(same(from_dict(p.G[int], {"x": n}), p.G(n)), "int")
        check(same(from_dict(p.G[p.A], {"x": {"i": n}, "l": [{"i": n}]}), p.G(p.A(n), [p.A(n)])), "class")
        check(same(from_dict(p.G[p.A2], {"x": {"i": s}}), p.G(p.A2(s))), "other class")
        check(same(from_dict(p.G, {"x": {"i": n}}).x, {"i": n}), "unbound")
        check(same(to_dict(p.G(p.A(n))), {"x": {"i": n}, "l": []}), "written")

    def containers(p, n, s, inp):
        for u in (p.AB, p.BA):
            check(same(from_dict(list[u], [{"A": {"i": n}}]), [p.A(n)]), "list")
            check(same(to_dict([p.A(n)], c=list[u]), [{"A": {"i": n}}]), "list written")
            check(same(from_dict(typing.Optional[u], {"A": {"i": n}}), p.A(n)), "optional")
        check(same(from_dict(dict[str, p.A2B], {"k": {"A": {"i": s}}}), {"k": p.A2(s)}), "dict")
        check(same(from_dict(dict[int, int], {"1": n}), {1: n}), "keys")

    def prims(p, n, s, inp):
        for u in (U[int, str], U[str, int], U[bool, int, str], U[float, str, int]):
            check(same(from_dict(u, n), n) and same(from_dict(u, s), s), "read")
            check(same(to_dict(n, c=u), n), "written")
        must_fail(lambda: from_dict(U[bool, str], n), "no member")

    def tuples(p, n, s, inp):
        check(same(to_tuple(p.B(s, n)), (s, n)) and same(from_tuple(p.B, (s, n)), p.B(s, n)), "class")
        check(same(to_tuple(p.H(n, s)), (n, s)), "host")
        check(same(from_tuple(p.H, ({"A": {"i": n}}, s)), p.H(p.A(n), s)), "read")

    def formats(p, n, s, inp):
        check(same(from_json(p.A, "{}", de=_De({"i": n})), p.A(n)), "read")
        check(same(from_json(p.AB, "{}", de=_De({"A": {"i": n}})), p.A(n)), "union")
        check(same(from_json(U[int, float], "", de=_De(n)), n), "number")

    def unknown(p, n, s, inp):
        check(same(from_dict(p.B, {"s": s, "zz": n}), p.B(s, 0)), "ignored")
        must_fail(lambda: from_dict(p.B, {"s": n}), "strict")
        must_fail(lambda: from_dict(p.A, {"i": s}), "strict")
        check(same(from_dict(p.A, {"i": n}), p.A(n)), "read")
        must_fail(lambda: p.A(s), "constructor")

    return {f.__name__: f for f in (direct, samename, tagged, untagged_order, plain, plain_loose, host, values, options,
                                    literal, generic, containers, prims, tuples, formats, unknown)}


class _De:
    def __new__(cls, data):
        from serde.json import JsonDeserializer

        class De(JsonDeserializer):
            @classmethod
            def deserialize(cls, _, **opts):
                return data

        return De


# calls and definitions which leave something behind
STATE = ("to_ab", "from_ba", "from_a2b", "int_ab", "unt_ab", "fail_ab", "host", "host2", "sub", "plain", "plainhost",
         "values", "generic", "globals")
# the same, for every change
SMALL = ("to_ab", "from_ba", "from_a2b", "unt_ab", "fail_ab", "host2", "sub", "plainhost", "generic", "globals")


def _harness(target, mode):
    def run(inp, env):
        concretely(fresh)
        p = P()
        for i in range({"one": 1, "pairs": 2, "state": 2, "two": 2, "three": 3, "host": 1}[mode]):
            ops = {"state": STATE, "three": STATE, "pairs": SMALL, "host": ("plainhost",)}.get(mode, list(env))
            if target == "plain_loose" and mode != "host":
                ops = [o for o in ops if o != "plainhost"]
            op = env[inp.pick(f"op{i}", ops)]
            concretely(lambda: op(p))
        n, s = inp.int("n"), inp.str("s", 2)
        _targets()[target](p, n, s, inp)
        inp.reach("end")

    return Harness(f"{target}:{mode}", _ops, run)


def harnesses(tier):
    modes = ("one", "pairs", "state", "two", "three") if tier == "thorough" else ("one", "pairs")
    return [_harness(t, m) for t in _targets() for m in modes] + [_harness("plain_loose", "host")]
