"""C28  Inputs are never modified."""
import collections
import dataclasses
import typing

from props.common import *
from symex.junk import junk, near

BOUNDS = ("every type shape of the universe as field and directly, in every option combination and both layouts; every "
          "pair of field features in every class kind (plain, flattened, tagged, inherited, transparent, generic) with "
          "well-formed, incomplete, wrong and unknown data; values symbolic; containers up to two elements; the whole "
          "object graph is compared, including identity of every container and leaf")
ASSUMPTIONS = ["custom (de)serializers and predicates do not modify their arguments themselves",
               "data are dicts without a __missing__ hook"]

T = typing.TypeVar("T")
U = typing.Union


# ---- the whole graph below a value: every container by identity, with its leaves in order
def graph(v):
    t = type(v)
    if t in (list, tuple, collections.deque, set, frozenset):
        return v, t, [graph(e) for e in list(v)]
    if isinstance(v, dict):
        return v, t, [(k, graph(e)) for k, e in list(v.items())]
    if dataclasses.is_dataclass(v) and not isinstance(v, type):
        return v, t, [(k, graph(e)) for k, e in list(vars(v).items())]
    return v, None, None


def unchanged(g):
    v, t, kids = g
    if t is None:
        return True
    if isinstance(v, dict) or t not in (list, tuple, collections.deque, set, frozenset):
        now = list(v.items()) if isinstance(v, dict) else list(vars(v).items())
        if len(now) != len(kids):
            return False
        for (k, e), (k0, g0) in zip(now, kids):
            if k is not k0 and not (type(k) is type(k0) and k == k0):
                return False
            if e is not g0[0] or not unchanged(g0):
                return False
        return True
    now = list(v)
    if len(now) != len(kids):
        return False
    for e, g0 in zip(now, kids):
        if e is not g0[0] or not unchanged(g0):
            return False
    return True


class Watch:
    """with Watch(values...): the values are the same afterwards."""

    def __init__(self, *values):
        self.values = values

    def __enter__(self):
        self.gs = [graph(v) for v in self.values]

    def __exit__(self, et, *_):
        from serde import SerdeError

        if et is None or issubclass(et, Exception):
            for g in self.gs:
                check(unchanged(g), "the input was modified")
        return et is not None and issubclass(et, SerdeError)


OPTS = [{}, {"reuse_instances": True, "convert_sets": True}, {"skip_none": True}, {"convert_sets": True},
        {"reuse_instances": False}]


# ---------------------------------------------------------------- every type
def _types(label, th, where):
    def build():
        spec = th()
        cls = make_class("W", [F("a", INT), F("v", spec), F("o", spec, None, ann=typing.Optional[spec.py])])
        return spec, cls

    def run(inp, env):
        from serde import from_dict, from_tuple, to_dict, to_tuple

        spec, cls = env
        v = spec.draw(inp, "v")
        o = inp.pick("opt", OPTS)
        if where == "field":
            x = cls(1, v, v if inp.flag("o") else None)
            with Watch(x):
                d = to_dict(x, **o)
            with Watch(x):
                t = to_tuple(x, **o)
            d["extra"] = {"k": [1]}
            with Watch(d, x):
                from_dict(cls, d, reuse_instances=bool(o.get("reuse_instances", True)))
            with Watch(t, x):
                from_tuple(cls, t, reuse_instances=bool(o.get("reuse_instances", True)))
        else:
            with Watch(v):
                d = to_dict(v, c=spec.py, **o)
            with Watch(v):
                to_dict(v, **o)
            with Watch(d):
                from_dict(spec.py, d, reuse_instances=bool(o.get("reuse_instances", False)))
        inp.reach("end")

    return Harness(f"{where}:{label}", build, run)


def _wrong(label, th):
    """Data which may be wrong anywhere."""
    def build():
        spec = th()
        return spec, make_class("W", [F("v", spec), F("n", INT, 3)])

    def run(inp, env):
        from serde import from_dict

        spec, cls = env
        w = near(inp, "w", spec, False)
        where = inp.choice("where", 3)
        d = w if where == 0 else {"v": w} if where == 1 else {"v": w, "n": "x"}
        with Watch(d):
            from_dict(spec.py if where == 0 else cls, d)
        inp.reach("end")

    return Harness(f"wrong:{label}", build, run)


def _badobj(label, th):
    """Objects whose fields hold values of other types: writing may fail half way."""
    def build():
        spec = th()
        return spec, make_class("W", [F("a", INT), F("v", spec), F("n", INT)], type_check=_serde().disabled)

    def run(inp, env):
        from serde import to_dict, to_tuple

        spec, cls = env
        v = inp.pick("v", [3, "s", None, [1], {"k": [1]}, (1, [2]), [[1], {"k": 1}], {1: {2: 3}}])
        x = cls(1, v, object() if inp.flag("obj") else 2)
        with Watch(x):
            (to_dict if inp.flag("d") else to_tuple)(x, **inp.pick("opt", OPTS[:2]))
        inp.reach("end")

    return Harness(f"badobj:{label}", build, _anyexc(run))


def _anyexc(run):
    def go(inp, env):
        try:
            run(inp, env)
        except Violation:
            raise
        except Exception:  # noqa: BLE001  objects which break their own annotations
            inp.reach("end")

    return go


def _serde():
    import serde

    return serde


# ---------------------------------------------------------------- features and class kinds
def _ext(v):
    return {"k": [v], "l": v}


KINDS = ("plain", "flatten", "optflat", "flatdict", "inherit", "external", "internal", "adjacent", "untagged", "list",
         "transparent", "generic", "deny", "camel", "frozen", "undeco")


def _host(kind, combo):
    """(type to read and write, wrap a value, wrap data)."""
    import serde
    from serde import AdjacentTagging, ExternalTagging, InternalTagging, Untagged

    ident = (lambda x: x)
    if kind == "inherit":
        base = combo_class(combo, "Base")
        c = make_class("Sub", [F("y", STR, "q", opts={"kw_only": True})], bases=(base,))
        return c, c, ident, ident
    if kind in ("deny", "camel", "frozen", "undeco"):
        opts = {"deny": {"deny_unknown_fields": True}, "camel": {"rename_all": "camelcase"}, "frozen": {},
                "undeco": {}}[kind]
        c = combo_class(combo, deco=lambda k: serde.serde(dataclasses.dataclass(frozen=True)(k)), **opts) \
            if kind == "frozen" else combo_class(combo, deco=dataclasses.dataclass) if kind == "undeco" \
            else combo_class(combo, **opts)
        return c, c, ident, ident
    c = combo_class(combo)
    if kind == "plain":
        return c, c, ident, ident
    if kind == "list":
        h = make_class("H", [F("v", INT, ann=list[c]), F("d", INT, MISSING, dict, ann=dict[str, c])])
        return c, h, lambda x: h([x], {"k": x}), lambda d: {"v": [d], "d": {"k": d}}
    if kind in ("flatten", "optflat"):
        h = make_class("H", [F("v", INT, None if kind == "optflat" else MISSING,
                               ann=typing.Optional[c] if kind == "optflat" else c, opts={"flatten": True}),
                             F("w", INT, 3)])
        return c, h, lambda x: h(x), lambda d: {**d, "w": 1}
    if kind == "flatdict":
        h = make_class("H", [F("x", INT, ann=c), F("v", INT, MISSING, dict, ann=dict[str, typing.Any],
                                                   opts={"flatten": True})])
        return c, h, lambda x: h(x, {"e": [1]}), lambda d: {"x": d, "e": [1]}
    if kind in ("external", "internal", "adjacent", "untagged"):
        tg = {"external": ExternalTagging, "internal": InternalTagging("tg"),
              "adjacent": AdjacentTagging("tg", "ct"), "untagged": Untagged}[kind]
        o = make_class("O", [F("zzz", STR)])
        h = make_class("H", [F("v", INT, ann=U[o, c]), F("l", INT, MISSING, list, ann=list[U[o, c]])], tagging=tg)
        wr = {"external": lambda d: {"Combo": d}, "internal": lambda d: {**d, "tg": "Combo"},
              "adjacent": lambda d: {"tg": "Combo", "ct": d}, "untagged": lambda d: d}[kind]
        return c, h, lambda x: h(x, [x]), lambda d: {"v": wr(d), "l": [wr(d)]}
    if kind == "transparent":
        h = make_class("Tr", [F("v", INT, ann=list[c])], transparent=True)
        return c, h, lambda x: h([x]), lambda d: [d]
    if kind == "generic":
        g = make_class("G", [F("v", INT, ann=T), F("l", INT, MISSING, list, ann=list[T])], bases=(typing.Generic[T],))
        return c, g[c], lambda x: g(x, [x]), lambda d: {"v": d, "l": [d]}
    raise ValueError(kind)


def _feature(combo, kind):
    def build():
        return _host(kind, combo)

    def run(inp, env):
        from serde import from_dict, from_tuple, to_dict, to_tuple

        c, h, wrap, wrapd = env
        o = inp.pick("opt", OPTS[:3])
        x = wrap(combo_value(inp, c, combo))
        with Watch(x):
            d = to_dict(x, **o)
        with Watch(d, x):
            from_dict(h, d)
        if kind not in ("flatten", "optflat", "flatdict"):
            with Watch(x):
                t = to_tuple(x)
            with Watch(t):
                from_tuple(h, t)
        # incomplete, wrong, unknown
        keys = {"alias": "al2", "rename": "reNamed"}
        m = next((keys[k] for k in combo[0].split("+") if k in keys), "m_m")
        inner = {"a_a": 1, m: 2, "z_z": 3}
        mode = inp.choice("mode", 5)
        if mode == 0:
            del inner[m]
        elif mode == 1:
            inner[m] = "x"
        elif mode == 2:
            inner["unknown"] = {"k": [1]}
        elif mode == 3:
            del inner["a_a"]
        d = wrapd(inner)
        with Watch(d):
            from_dict(h, d)
        inp.reach("end")

    return Harness(f"{kind}:{combo[0]}", build, run)


# ---------------------------------------------------------------- values handed out by user code
def _shared(kind):
    """Containers returned by (de)serializers, factories and defaults belong to the user."""
    def build():
        import serde

        kept = {"d": {"i": 3}, "l": [1]}
        env = {"kept": kept}

        class Ser:
            def serialize(self, obj):
                return kept["d"]

        m = make_class("M", [F("i", INT)])
        ser = make_class("S", [F("v", INT, ann=dict[str, int], opts={"serializer": lambda v: kept["d"],
                                                                     "deserializer": lambda v: kept["d"]}),
                               F("l", INT, MISSING, lambda: kept["l"], ann=list[int])])
        tr = make_class("Tr", [F("v", INT, ann=dict[str, int], opts={"serializer": lambda v: kept["d"],
                                                                     "deserializer": lambda v: kept["d"]})],
                        transparent=True)
        o = make_class("O", [F("zzz", STR)])
        tag = {"internal": serde.InternalTagging("tg"), "adjacent": serde.AdjacentTagging("tg", "ct"),
               "external": serde.ExternalTagging, "untagged": serde.Untagged}[kind]
        env["h"] = make_class("H", [F("t", INT, ann=U[o, tr]), F("s", INT, ann=U[o, ser])], tagging=tag)
        env["f"] = make_class("Fl", [F("s", INT, ann=ser, opts={"flatten": True})])
        env["g"] = make_class("Fd", [F("e", INT, MISSING, lambda: kept["d"], ann=dict[str, typing.Any],
                                       opts={"flatten": True}), F("i2", INT, 1)])
        env.update(ser=ser, tr=tr, m=m, tag=tag, o=o)
        return env

    def run(inp, env):
        from serde import from_dict, to_dict, to_tuple

        kept = env["kept"]
        kept.update(d={"i": 3}, l=[1])
        i = inp.int("i")
        s = env["ser"]({"q": i})
        t = env["tr"]({"q": i})
        with Watch(kept, s, t):
            from_dict(env["ser"], to_dict(s))
        with Watch(kept, s, t):
            to_tuple(s)
        h = env["h"](t, s)
        for x in (s, t):
            for u in (U[env["o"], type(x)],):
                with Watch(kept, x):
                    from_dict(env["tag"](u), to_dict(x, c=env["tag"](u)))
        with Watch(kept, h):
            from_dict(env["h"], to_dict(h))
        with Watch(kept, h):
            to_tuple(h)
        f = env["f"](s)
        with Watch(kept, f):
            from_dict(env["f"], to_dict(f))
        with Watch(kept):
            from_dict(env["g"], {"i2": i})
        with Watch(kept):
            from_dict(env["g"], {"i2": i, "zz": i})
        g = env["g"]()
        with Watch(kept, g):
            to_dict(g)
        inp.reach("end")

    return Harness(f"shared:{kind}", build, run)


def _cls_custom(kind):
    """The same for class-level and global-style (de)serializers of nested types."""
    def build():
        import serde
        from plum import dispatch

        c = make_class("C", [F("i", INT)])
        kept = {"C": {"i": 3, "n": [1]}, "l": [{"i": 3}]}

        class Ser:
            @dispatch
            def serialize(self, v: c):
                return kept["C"]

            @dispatch
            def serialize(self, v: list):  # noqa: F811
                return kept["l"]

        class De:
            @dispatch
            def deserialize(self, cls: type[c], v):
                return c(v["i"])

            @dispatch
            def deserialize(self, cls: type[list], v):  # noqa: F811
                return kept["l"]

        o = make_class("O", [F("zzz", STR)])
        tag = {"internal": serde.InternalTagging("tg"), "adjacent": serde.AdjacentTagging("tg", "ct"),
               "external": serde.ExternalTagging, "untagged": serde.Untagged}[kind]
        h = make_class("H", [F("v", INT, ann=U[o, c]), F("f", INT, ann=c, opts={"flatten": True}),
                             F("l", INT, ann=list[int]), F("p", INT, ann=c)],
                       class_serializer=Ser(), class_deserializer=De(), tagging=tag)
        return c, h, kept

    def run(inp, env):
        from serde import from_dict, to_dict, to_tuple

        c, h, kept = env
        kept.update(C={"i": 3, "n": [1]}, l=[{"i": 3}])
        x = h(c(inp.int("i")), c(inp.int("j")), [1], c(inp.int("k")))
        with Watch(kept, x):
            d = to_dict(x)
        with Watch(kept, d):
            from_dict(h, d)
        with Watch(kept, x):
            to_tuple(x)
        inp.reach("end")

    return Harness(f"clscustom:{kind}", build, run)


def _direct(kind):
    """Unions, and anything, passed directly."""
    def build():
        import serde

        c = make_class("C", [F("i", INT), F("l", INT, MISSING, list, ann=list[int])])
        o = make_class("O", [F("zzz", STR)])
        tag = {"internal": serde.InternalTagging("tg"), "adjacent": serde.AdjacentTagging("tg", "ct"),
               "external": serde.ExternalTagging, "untagged": serde.Untagged}[kind]
        wr = {"external": lambda d: {"C": d}, "internal": lambda d: {**d, "tg": "C"},
              "adjacent": lambda d: {"tg": "C", "ct": d}, "untagged": lambda d: d}[kind]
        return c, tag(U[c, o, list[int], dict[str, int]]) if kind != "internal" else tag(U[c, o]), wr

    def run(inp, env):
        from serde import from_dict, to_dict

        c, u, wr = env
        x = c(inp.int("i"), [1])
        with Watch(x):
            to_dict(x, c=u)
        w = wr({"i": inp.int("j"), "l": [2], **({"e": [1]} if inp.flag("extra") else {})})
        mode = inp.choice("mode", 4)
        if mode == 1:
            w = wr({"i": "x"})
        elif mode == 2:
            w = {**w, "more": {"k": 1}}
        elif mode == 3:
            w = junk(inp, "w", 2, False, keys=["C", "tg", "i"])
        with Watch(w):
            from_dict(u, w)
        inp.reach("end")

    return Harness(f"directunion:{kind}", build, run)


def _formats():
    def build():
        c = make_class("C", [F("i", INT), F("l", INT, MISSING, list, ann=list[int]),
                             F("o", INT, None, ann=typing.Optional[int]),
                             F("d", INT, MISSING, dict, ann=dict[str, list[int]])])
        return c, make_class("H", [F("c", INT, ann=c), F("f", INT, ann=c, opts={"flatten": True})])

    def run(inp, env):
        from serde.json import JsonDeserializer, JsonSerializer, from_json, to_json
        from serde.msgpack import MsgPackSerializer, to_msgpack
        from serde.pickle import PickleSerializer, to_pickle
        from serde.toml import TomlDeserializer, TomlSerializer, from_toml, to_toml
        from serde.yaml import YamlDeserializer, YamlSerializer, from_yaml, to_yaml

        c, h = env
        k = inp.pick("fmt", {"json": 0, "toml": 0, "yaml": 0, "msgpack": 0, "pickle": 0})
        to, S = {"json": (to_json, JsonSerializer), "toml": (to_toml, TomlSerializer),
                 "yaml": (to_yaml, YamlSerializer), "msgpack": (to_msgpack, MsgPackSerializer),
                 "pickle": (to_pickle, PickleSerializer)}[k]
        x = h(c(inp.int("i"), [1], None, {"k": [1]}), c(inp.int("j"), [], 3))
        out = []

        class Ser(S):
            @classmethod
            def serialize(cls, obj, **opts):
                out.append(obj)
                return "text"

        extra = {"x": [1]}
        with Watch(x, extra):
            to(x, se=Ser)
        check(len(out) == 1, "serialized once")
        if k in ("json", "toml", "yaml"):
            fr, D = {"json": (from_json, JsonDeserializer), "toml": (from_toml, TomlDeserializer),
                     "yaml": (from_yaml, YamlDeserializer)}[k]
            data = {"i": inp.int("a"), "l": [1], "c": {"i": inp.int("b"), "d": {"k": [1]}}, "z": [1]}
            if inp.flag("bad"):
                data["l"] = "x"

            class De(D):
                @classmethod
                def deserialize(cls, data_, **opts):
                    return data

            with Watch(data):
                fr(h, "text", de=De)
        inp.reach("end")

    return Harness("formats", build, run)


def harnesses(tier):
    out = [_shared(k) for k in ("internal", "adjacent", "external", "untagged")]
    out += [_cls_custom(k) for k in ("internal", "adjacent", "external", "untagged")]
    out += [_direct(k) for k in ("internal", "adjacent", "external", "untagged")]
    out += [_formats()]
    combos = [c for c in feature_combos(tier)]
    single = [c for c in combos if "+" not in c[0]]
    pairs = [c for c in combos if "+" in c[0]]
    for i, kind in enumerate(KINDS):
        cs = combos if tier == "thorough" else single + pairs[i % 8::8]
        out += [_feature(c, kind) for c in cs]
    uni = universe("core") if tier == "quick" else universe(tier)
    for lab, th in uni:
        out += [_types(lab, th, "field"), _types(lab, th, "direct"), _wrong(lab, th)]
    for lab, th in universe("core")[::1 if tier == "thorough" else 6]:
        out.append(_badobj(lab, th))
    return out
