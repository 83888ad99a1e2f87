"""C07  Malformed input raises SerdeError and nothing else."""
import dataclasses
import typing

from props.common import *
from symex.junk import junk, near

BOUNDS = ("type shapes: the whole universe (leaves, containers, two nesting levels; thorough: "
          "three), as field and passed directly, plus classes using each feature; input data "
          "shaped like the type with every node replaced by every kind of plain value; leaf values "
          "unbounded except where the declared type has a C parser (finite pools); serialization "
          "of values of every wrong kind")


def _symbolic(label):
    return not any(t in label for t in ("ss_", "dt_", "path", "datetime", "opt<dt>", "uuid",
                                        "date", "<k", "kstr", "enum", "kie", "sub_", "float",
                                        "mapping", "counter", "absset", "mutset", "alias"))


def _field(label, th):
    sym = _symbolic(label)

    def build():
        spec = th()
        return spec, [make_class("Host", [F("v", spec), F("w", INT)]),
                      make_class("HostC", [F("v", spec), F("w", INT)], type_check=_serde().coerce),
                      make_class("HostD", [F("v", spec), F("w", INT)],
                                 type_check=_serde().disabled)]

    def run(inp, env):
        from serde import from_dict, from_tuple

        spec, clss = env
        mode = inp.choice("mode", 5)
        if mode == 0:
            v = near(inp, "v", spec, sym)
            attempt(lambda: from_dict(clss[0], {"v": v, "w": 1}))
        else:
            v = junk(inp, "v", 1, sym and mode not in (1, 4), keys=["k"])
            cls = clss[mode % 3]
            if mode in (1, 2):
                attempt(lambda: from_dict(cls, {"v": v, "w": 1}))
            else:
                attempt(lambda: from_tuple(cls, (v, 1)))
        inp.reach("end")

    return Harness(f"field:{label}", build, run)


def _serde():
    import serde

    return serde


def _direct(label, th):

    def run(inp, spec):
        from serde import from_dict, from_tuple

        mode = inp.choice("mode", 3)
        if mode == 0:
            v = near(inp, "v", spec, False)
        else:
            v = junk(inp, "v", 1, False, keys=["k"])
        if mode < 2:
            attempt(lambda: from_dict(spec.py, v))
        else:
            attempt(lambda: from_tuple(spec.py, v, reuse_instances=False))
        inp.reach("end")

    return Harness(f"direct:{label}", th, run)


def _top(label, mk, keys):
    """Any data at all given for a class."""
    def run(inp, cls):
        from serde import from_dict, from_tuple

        v = junk(inp, "v", 2, True, keys=keys)
        if inp.flag("dict"):
            attempt(lambda: from_dict(cls, v))
        else:
            attempt(lambda: from_tuple(cls, v))
        inp.reach("end")

    return Harness(f"top:{label}", mk, run)


def _two(label, mk, keys):
    """Dicts with any subset of the keys of a class, each with any value."""
    def run(inp, cls):
        from serde import from_dict

        d = {}
        deep = inp.choice("deep", len(keys))
        for i, k in enumerate(keys):
            if inp.flag("has_" + k):
                d[k] = junk(inp, k, 1, True, keys=["a", "x"]) if i == deep else \
                    [None, inp.int("i"), "a", []][inp.choice("k" + k, 4)]
        attempt(lambda: from_dict(cls, d))
        inp.reach("end")

    return Harness(f"keys:{label}", mk, run)


T = typing.TypeVar("T")


def _generic():
    base = make_class("G", [F("a", INT, ann=T), F("b", INT, ann=list[T])],
                      bases=(typing.Generic[T],))
    return base[inner().cls]


CLASSES_ = {
    "empty": (lambda: make_class("E", []), ["a"]),
    "plain": (lambda: make_class("P", [F("a", INT), F("b", STR)]), ["a", "b"]),
    "undecorated": (lambda: make_class("U", [F("a", INT), F("b", STR)], deco=dataclasses.dataclass),
                    ["a", "b"]),
    "defaults": (lambda: make_class("D", [F("a", INT, default=1), F("b", ListS(INT), factory=list)]),
                 ["a", "b"]),
    "alias": (lambda: make_class("A", [F("a", INT, opts={"alias": ["b"]}),
                                       F("c", Opt(STR), opts={"alias": ["d"]}, default=None)]),
              ["a", "b", "d"]),
    "alias_list": (lambda: make_class("A", [F("a", ListS(INT), opts={"alias": ["b"]})]),
                   ["a", "b"]),
    "deny": (lambda: make_class("N", [F("a", INT)], deny_unknown_fields=True), ["a", "x"]),
    "flatten": (lambda: make_class("Fl", [F("c", inner(), opts={"flatten": True}), F("a", INT)]),
                ["i", "s", "a"]),
    "flatten_opt": (lambda: make_class("Fl", [F("c", Opt(inner()), opts={"flatten": True}),
                                              F("a", INT)]), ["i", "s", "a"]),
    "flatten_dict": (lambda: make_class("Fd", [F("a", INT), F("c", ANY, ann=dict[str, typing.Any],
                                                                opts={"flatten": True})]),
                     ["a", "x"]),
    "transparent": (lambda: make_class("Tr", [F("a", ListS(INT))], transparent=True), ["a"]),
    "rec": (lambda: rec().cls, ["v", "nxt"]),
    "generic": (_generic, ["a", "b"]),
    "coerce": (lambda: make_class("Co", [F("a", Opt(BOOL)), F("b", ListS(BOOL))],
                                  type_check=_serde().coerce), ["a", "b"]),
    "union_ext": (lambda: make_class("Un", [F("a", UnionS(inner(), inner2()))]), ["a", "i"]),
    "union_int": (lambda: make_class("Un", [F("a", UnionS(inner(), inner2()))],
                                     tagging=_serde().InternalTagging("x")), ["a"]),
    "union_adj": (lambda: make_class("Un", [F("a", UnionS(inner(), inner2()))],
                                     tagging=_serde().AdjacentTagging("x", "a")), ["a"]),
    "union_unt": (lambda: make_class("Un", [F("a", UnionS(inner(), INT, ListS(INT)))],
                                     tagging=_serde().Untagged), ["a"]),
    "field_de": (lambda: make_class("De", [F("a", INT, opts={"deserializer": _boom}),
                                           F("b", ListS(INT))]), ["a", "b"]),
    "kw_only": (lambda: make_class("Kw", [F("a", INT, opts={"kw_only": True}), F("b", INT)]),
                ["a", "b"]),
    "rename": (lambda: make_class("Rn", [F("aB", INT, opts={"rename": "b"}), F("x", STR)],
                                  rename_all="pascalcase"), ["b", "X"]),
}


def _boom(v):
    if v is None:
        raise KeyError("boom")
    return 1


class Boom:
    def __str__(self):
        raise ZeroDivisionError


def _ser(label, th):
    """Objects of a class that does not check types may hold anything."""
    sym = _symbolic(label)

    def build():
        spec = th()
        return spec, make_class("HostD", [F("v", spec), F("w", INT)],
                                type_check=_serde().disabled)

    def run(inp, env):
        from serde import to_dict, to_tuple

        spec, cls = env
        if inp.flag("obj"):
            v = object()
        else:
            v = junk(inp, "v", 1, sym, tuples=True)
        x = cls(v=v, w=1)
        if inp.flag("dict"):
            attempt(lambda: to_dict(x, reuse_instances=False))
        else:
            attempt(lambda: to_tuple(x, convert_sets=True))
        inp.reach("end")

    return Harness(f"ser:{label}", build, run)


def _ser_direct(label, th):

    def run(inp, spec):
        from serde import to_dict, to_tuple

        v = object() if inp.flag("obj") else junk(inp, "v", 1, False, tuples=True)
        if inp.flag("dict"):
            attempt(lambda: to_dict(v, c=spec.py))
        else:
            attempt(lambda: to_tuple(v, c=spec.py))
        inp.reach("end")

    return Harness(f"ser-direct:{label}", th, run)


def _formats():
    """Decoders may hand over anything; encoders' own errors are not pyserde's."""
    def build():
        return make_class("P", [F("a", INT), F("b", FLOAT), F("c", ListS(FLOAT))])

    def run(inp, cls):
        import serde.json, serde.yaml, serde.toml, serde.msgpack, serde.pickle  # noqa
        from serde.de import Deserializer

        if inp.flag("full"):
            v = {"a": 1, "b": junk(inp, "b", 0, False), "c": [1, "2"]}
        else:
            v = junk(inp, "v", 1, False, keys=["a", "b"])

        class De(Deserializer):
            @classmethod
            def deserialize(cls, data, **opts):
                return v

        fmt = inp.pick("fmt", ["json", "yaml", "toml", "msgpack", "pickle"])
        import sys

        frm = getattr(sys.modules[f"serde.{fmt}"], f"from_{fmt}")
        target = inp.pick("target", [cls, list[cls], dict[str, cls], float, list[float]])
        attempt(lambda: frm(target, "", de=De))
        inp.reach("end")

    return Harness("formats", build, run)


def harnesses(tier):
    u = universe(tier)
    c = universe("core" if tier == "quick" else tier)
    if tier == "quick":  # deeper shapes of the same containers: thorough tier
        u = [(l, t) for l, t in u if l.count("<") < 2]
        c = [(l, t) for l, t in c if l.count("<") < 2]
    out = [_field(l, t) for l, t in u] + [_direct(l, t) for l, t in c]
    out += [_ser(l, t) for l, t in c] + [_ser_direct(l, t) for l, t in c]
    for l, (mk, keys) in CLASSES_.items():
        out += [_top(l, mk, keys), _two(l, mk, keys)]
    return out + [_formats()]
