"""C29  reuse_instances and convert_sets act exactly where documented."""
import collections
import dataclasses
import datetime
import decimal
import ipaddress
import pathlib
import typing
import uuid

from props.common import *

BOUNDS = ("every str-serializable and date type, in every position (containers, keys, sets, optionals, unions, "
          "tagged unions, flattened, transparent, generic, inherited, undecorated and nested classes to depth 3); all "
          "combinations of explicit argument (absent, true, false) and class default of the outer and the opposite "
          "default of inner classes; both layouts and both directions, text and instances as data; the five formats")
ASSUMPTIONS = ["the defaults of the class given to the call hold for everything below it (nested classes never "
               "use their own)", "a set passed directly to to_dict is always written as a list"]

T = typing.TypeVar("T")
INST = (pathlib.PurePath, uuid.UUID, decimal.Decimal, datetime.date, datetime.time, ipaddress.IPv4Address,
        ipaddress.IPv6Address, ipaddress.IPv4Network, ipaddress.IPv6Network, ipaddress.IPv4Interface,
        ipaddress.IPv6Interface)


def exact(a, b):
    """same(), and instances are the very same objects."""
    if isinstance(a, INST) or isinstance(b, INST):
        return a is b
    if type(a) is not type(b):
        return False
    if type(a) in (list, tuple):
        return len(a) == len(b) and all([exact(x, y) for x, y in zip(a, b)])
    if type(a) is dict:
        return len(a) == len(b) and all([exact(x, y) for x, y in zip(a, b)]) and \
            all([exact(x, y) for x, y in zip(a.values(), b.values())])
    if type(a) is set:
        return len(a) == len(b) and all([any([exact(x, y) for y in b]) for x in a])
    return same(a, b)


# ---------------------------------------------------------------- positions
class Flat(Spec):
    """class Fl: v: Inner (flatten), w: int"""

    def __init__(self, dc, opts, optional=False):
        self.dc = dc
        self.py = make_class("Fl", [F("w", INT), F("v", dc, opts={"flatten": True},
                                                   ann=typing.Optional[dc.py] if optional else None)], **opts)

    def draw(self, inp, n):
        return self.py(inp.int(n + ".w"), self.dc.draw(inp, n + ".v"))

    def wire(self, v, o=W):
        if not o.named:
            return (v.w, self.dc.wire(v.v, o))
        return {"w": v.w, **self.dc.wire(v.v, o)}


class Trans(Spec):
    def __init__(self, inner, opts):
        self.inner = inner
        self.py = make_class("Tr", [F("v", inner)], transparent=True, **opts)

    def draw(self, inp, n):
        return self.py(self.inner.draw(inp, n + ".v"))

    def wire(self, v, o=W):
        return self.inner.wire(v.v, o)


class Gen(Spec):
    def __init__(self, inner, opts):
        self.inner = inner
        g = make_class("G", [F("x", INT, ann=T), F("l", INT, ann=list[T])], bases=(typing.Generic[T],), **opts)
        self.g, self.py = g, g[inner.py]

    def draw(self, inp, n):
        return self.g(self.inner.draw(inp, n + ".x"), [self.inner.draw(inp, n + ".l")])

    def wire(self, v, o=W):
        d = {"x": self.inner.wire(v.x, o), "l": [self.inner.wire(e, o) for e in v.l]}
        return d if o.named else tuple(d.values())


class Tagged(Spec):
    """class Tg: u: Union[Member, int], with the given tagging; members keep dict form."""

    def __init__(self, inner, kind, opts):
        import serde

        self.m = DC("Mem", [F("v", inner)], **opts)
        self.kind = kind
        tag = {"ext": serde.ExternalTagging, "int": serde.InternalTagging("tg"),
               "adj": serde.AdjacentTagging("tg", "ct"), "unt": serde.Untagged}[kind]
        o = make_class("Other", [F("zzz", INT)])
        self.py = make_class("Tg", [F("u", INT, ann=typing.Union[o, self.m.py])], tagging=tag, **opts)

    def draw(self, inp, n):
        return self.py(self.m.draw(inp, n + ".u"))

    def wire(self, v, o=W):
        w = self.m.wire(v.u, dataclasses.replace(o, named=True))
        w = {"ext": lambda: {"Mem": w}, "int": lambda: {**w, "tg": "Mem"},
             "adj": lambda: {"ct": w, "tg": "Mem"}, "unt": lambda: w}[self.kind]()
        return {"u": w} if o.named else (w,)


class Sub(Spec):
    """An inherited field."""

    def __init__(self, inner, opts):
        base = make_class("Base", [F("b", inner)], **opts)
        self.inner = inner
        self.py = make_class("Sub", [F("s", inner)], bases=(base,), **opts)

    def draw(self, inp, n):
        return self.py(self.inner.draw(inp, n + ".b"), self.inner.draw(inp, n + ".s"))

    def wire(self, v, o=W):
        d = {"b": self.inner.wire(v.b, o), "s": self.inner.wire(v.s, o)}
        return d if o.named else tuple(d.values())


def _positions():
    o1 = lambda s, o: DC("In", [F("v", s)], **o)  # noqa: E731
    p = {
        "field": lambda s, o: s,
        "opt": lambda s, o: Opt(s),
        "list": lambda s, o: ListS(s, 1),
        "vtup": lambda s, o: VarTup(s, 1),
        "tup": lambda s, o: Tup(INT, s),
        "dict": lambda s, o: DictS(KSTR, s, 1),
        "deque": lambda s, o: DequeS(s, 1),
        "defaultdict": lambda s, o: DefaultDictS(KSTR, ListS(s, 1), list, 1),
        "class": o1,
        "class2": lambda s, o: DC("In2", [F("a", o1(s, o)), F("k", INT)], **o),
        "listclass": lambda s, o: ListS(o1(s, o), 1),
        "dictclass": lambda s, o: DictS(KSTR, o1(s, o), 1),
        "optclass": lambda s, o: Opt(o1(s, o)),
        "tupclass": lambda s, o: Tup(o1(s, o), INT),
        "optlist": lambda s, o: Opt(ListS(s, 1)),
        "dictlistopt": lambda s, o: DictS(KSTR, ListS(Opt(s), 1), 1),
        "flat": lambda s, o: Flat(o1(s, o), o),
        "optflat": lambda s, o: Flat(o1(s, o), o, True),
        "trans": lambda s, o: Trans(s, o),
        "transclass": lambda s, o: Trans(ListS(o1(s, o), 1), o),
        "gen": lambda s, o: Gen(s, o),
        "genclass": lambda s, o: Gen(o1(s, o), o),
        "undeco": lambda s, o: PlainDC("Pl", [F("v", s)]),
        "undecolist": lambda s, o: ListS(PlainDC("Pl", [F("v", s)]), 1),
        "union": lambda s, o: UnionS(INT, s),
        "unionlist": lambda s, o: UnionS(INT, ListS(s, 1)),
        "sub": lambda s, o: Sub(s, o),
        "alias": lambda s, o: Alias("AL", s),
    }
    for k in ("ext", "int", "adj", "unt"):
        p["tagged_" + k] = lambda s, o, k=k: Tagged(s, k, o)
    return p


HASHED = {
    "key": lambda s, o: DictS(s, INT, 1),
    "keylist": lambda s, o: DictS(s, ListS(s, 1), 1),
    "set": lambda s, o: SetS(s, 1),
    "setclass": lambda s, o: DC("In", [F("v", SetS(s, 1)), F("k", INT)], **o),
}

SETL = SetS
COMBOS = [(r, c) for r in (True, False) for c in (True, False)]


# (outer defaults as index of COMBOS, explicit arguments)
ALL = [(i, r, c) for i in range(4) for r in (None, True, False) for c in (None, True, False)]
SOME = [(i, None, None) for i in range(4)] + [(i, not r, not c) for i, (r, c) in enumerate(COMBOS)] + \
    [(0, False, None), (0, None, False), (3, None, True), (3, True, None)]
NAMED_ONLY = ("flat", "optflat")


def _build(leaf, pos, direct=False):
    """For every combination of class defaults: the outer class; inner classes default to the opposite."""
    def build():
        out = []
        for r, c in COMBOS:
            s = {**_positions(), **HASHED}[pos](leaf(), {"reuse_instances_default": not r,
                                                         "convert_sets_default": not c})
            cls = make_class("Out", [F("n", INT), F("v", s)], reuse_instances_default=r, convert_sets_default=c)
            out.append((s, cls))
        return out

    return build


def _se(label, leaf, pos, cfgs=SOME):
    def run(inp, env):
        from serde import to_dict, to_tuple

        i, r, c = inp.pick("cfg", cfgs)
        (r0, c0), (s, cls) = COMBOS[i], env[i]
        named = pos in NAMED_ONLY or inp.flag("named")
        v = s.draw(inp, "v")
        x = cls(inp.int("n"), v)
        kw = {**({} if r is None else {"reuse_instances": r}), **({} if c is None else {"convert_sets": c})}
        eff = WireOpts(named, c0 if c is None else c, r0 if r is None else r)
        w = s.wire(v, eff)
        if named:
            check(exact(to_dict(x, **kw), {"n": x.n, "v": w}), "dict form")
        else:
            check(exact(to_tuple(x, **kw), (x.n, w)), "tuple form")
        if r is not None and c is not None:
            lst = [to_dict([x], **kw), to_dict((x,), **kw)[0:1], [to_dict({"k": x}, **kw)["k"]]] if named else \
                [to_tuple([x], **kw)]
            for y in lst:
                check(exact(y[0], {"n": x.n, "v": w} if named else (x.n, w)), "in a container passed directly")
        inp.reach("end")

    return Harness(f"se:{label}:{pos}", _build(leaf, pos), run)


def _de(label, leaf, pos, cfgs=SOME):
    """Text and instances as data."""
    def run(inp, env):
        from serde import from_dict, from_tuple

        i, r, _ = inp.pick("cfg", cfgs)
        (r0, c0), (s, cls) = COMBOS[i], env[i]
        named = pos in NAMED_ONLY or inp.flag("named")
        v = s.draw(inp, "v")
        text = inp.flag("text")
        eff = r0 if r is None else r
        inp.assume(text or eff)
        w = s.wire(v, WireOpts(named, inp.flag("lists"), not text))
        n = inp.int("n")
        kw = {} if r is None else {"reuse_instances": r}
        y = from_dict(cls, {"n": n, "v": w}, **kw) if named else from_tuple(cls, (n, w), **kw)
        check(same(y, cls(n, v)), "read")
        if not text:
            check(kept(y.v, v), "instances are kept")
        if r is not None and named:
            check(same(from_dict(list[cls], [{"n": n, "v": w}], **kw), [cls(n, v)]), "read in a list")
        inp.reach("end")

    return Harness(f"de:{label}:{pos}", _build(leaf, pos), run)


def kept(a, b):
    """Every instance of b is the same object in a."""
    if isinstance(b, INST):
        return a is b
    if isinstance(b, (list, tuple, collections.deque)):
        return all([kept(x, y) for x, y in zip(a, b)])
    if isinstance(b, dict):
        return all([kept(x, y) for x, y in zip(a, b)]) and all([kept(x, y) for x, y in zip(a.values(), b.values())])
    if isinstance(b, set):
        return all([any([kept(x, y) for x in a]) for y in b])
    if dataclasses.is_dataclass(b):
        return all([kept(getattr(a, f.name), getattr(b, f.name)) for f in dataclasses.fields(b)])
    return True


def _text(label, leaf):
    """Without reuse_instances everything is text, read back without it."""
    def build():
        s = leaf()
        return s, make_class("A", [F("v", s), F("o", s, None, ann=typing.Optional[s.py])])

    def run(inp, env):
        from serde import asdict, astuple, from_dict, from_tuple, to_dict, to_tuple

        s, cls = env
        v = s.draw(inp, "v")
        x = cls(v, v if inp.flag("o") else None)
        w = s.wire(v, WireOpts(reuse_instances=False))
        check(type(w) is str, "text")
        for d in (to_dict(x, reuse_instances=False), asdict(x)):
            check(same(d, {"v": w, "o": None if x.o is None else w}), "written as text")
        for d in (to_tuple(x, reuse_instances=False), astuple(x)):
            check(same(d, (w, None if x.o is None else w)), "written as text")
        for r in (True, False):
            check(same(from_dict(cls, {"v": w}, reuse_instances=r), cls(v)), "read from text")
            check(same(from_tuple(cls, (w, w), reuse_instances=r), cls(v, v)), "read from text")
            check(same(from_dict(s.py, w, reuse_instances=r), v), "read directly")
            check(same(from_dict(list[s.py], [w], reuse_instances=r), [v]), "read directly")
            must_fail(lambda: from_dict(cls, {"v": [1]}, reuse_instances=r), "neither")
        check(exact(to_dict(v, reuse_instances=True), v) and same(to_dict(v, reuse_instances=False), w), "directly")
        check(exact(to_dict([v], reuse_instances=True), [v]) and same(to_dict([v], reuse_instances=False), [w]),
              "directly in a list")
        check(exact(to_dict(x), {"v": v, "o": x.o}), "kept by default")
        check(from_dict(cls, {"v": v}).v is v, "kept by default")
        check(from_dict(cls, {"v": v}, reuse_instances=True).v is v, "kept")
        inp.reach("end")

    return Harness(f"text:{label}", build, run)


def _wrongtype():
    """Instances of another type are no values of a field."""
    def build():
        return make_class("A", [F("p", PATH), F("u", UUID_), F("d", DATETIME), F("e", DATE)])

    def run(inp, cls):
        from serde import from_dict

        good = {"p": pathlib.Path("a"), "u": uuid.UUID(int=5), "d": datetime.datetime(2020, 1, 2, 3),
                "e": datetime.date(2020, 1, 2)}
        check(same(from_dict(cls, good), cls(**good)), "good")
        k = inp.pick("k", good)
        bad = inp.pick("v", [decimal.Decimal(3), datetime.time(3), ipaddress.IPv4Address("1.1.1.1"), 3, None, [1], "é:"])
        if not (k == "p" and isinstance(bad, str)):
            must_fail(lambda: from_dict(cls, {**good, k: bad}), "wrong type")
        inp.reach("end")

    return Harness("wrongtype", build, run)


def _formats():
    """Options of the format functions; what their serializers are given."""
    def build():
        i = make_class("I", [F("p", PATH), F("s", SetS(PATH, 1)), F("e", DATETIME)], reuse_instances_default=True,
                       convert_sets_default=False)
        return make_class("O", [F("i", INT, ann=i), F("l", INT, ann=list[i]), F("n", INT)],
                          reuse_instances_default=True, convert_sets_default=False), i

    def run(inp, env):
        from serde.json import JsonSerializer, to_json
        from serde.msgpack import MsgPackSerializer, to_msgpack
        from serde.pickle import PickleSerializer, to_pickle
        from serde.toml import TomlSerializer, to_toml
        from serde.yaml import YamlSerializer, to_yaml

        o, i = env
        k = inp.pick("fmt", {"json": 0, "toml": 0, "yaml": 0, "msgpack": 0, "pickle": 0})
        to, S = {"json": (to_json, JsonSerializer), "toml": (to_toml, TomlSerializer),
                 "yaml": (to_yaml, YamlSerializer), "msgpack": (to_msgpack, MsgPackSerializer),
                 "pickle": (to_pickle, PickleSerializer)}[k]
        r, c = inp.pick("reuse", [None, True, False]), inp.pick("conv", [None, True, False])
        kw = {**({} if r is None else {"reuse_instances": r}), **({} if c is None else {"convert_sets": c})}
        named = inp.flag("named") if k == "msgpack" else True
        if k == "msgpack":
            kw["named"] = named
        p, e = pathlib.Path("a"), datetime.datetime(2020, 1, 2)
        out = []

        class Ser(S):
            @classmethod
            def serialize(cls, obj, **opts):
                out.append(obj)
                return "text"

        n = inp.int("n")
        to(o(i(p, {p}, e), [i(p, {p}, e)], n), se=Ser, **kw)
        r, c = bool(r), c is not False
        wp, we = (p, e) if r else ("a", "2020-01-02T00:00:00")
        w = {"p": wp, "s": [wp] if c else {wp}, "e": we}
        w = {"i": w, "l": [w], "n": n}
        if not named:
            w = (tuple(w["i"].values()), [tuple(w["l"][0].values())], n)
        check(len(out) == 1 and exact(out[0], w), "given to the serializer")
        inp.reach("end")

    return Harness("formats", build, run)


def harnesses(tier):
    out = [_wrongtype(), _formats()]
    leaves = [(repr(s), lambda s=s: s) for s in STRSER + DATETIMES]
    reps = {"Path": lambda: PATH, "UUID": lambda: UUID_, "datetime": lambda: DATETIME}
    main = [("path", reps["Path"]), ("datetime", reps["datetime"]), ("setpath", lambda: SetS(PATH, 1))]
    if tier == "thorough":
        main += [(n, f) for n, f in leaves] + [("set", lambda: SetS(KSTR2, 1)), ("listset", lambda: ListS(SetS(PATH, 1), 1)),
                                               ("dictset", lambda: DictS(KSTR, SetS(ECOLOR, 1), 1)),
                                               ("tuppath", lambda: Tup(PATH, DATE))]
    se, de = (SOME, [(0, None, 0), (3, None, 0), (3, True, 0), (0, False, 0)]) if tier == "quick" else (ALL, ALL)
    for lab, th in main:
        for pos in _positions():
            if "set" in lab and pos == "gen":  # sets in type variables are written like directly passed ones
                continue
            out += [_se(lab, th, pos, se), _de(lab, th, pos, de)]
    for lab, th in leaves:
        out.append(_text(lab, th))
        for pos in HASHED:
            if tier == "thorough" or pos in ("key", "setclass"):
                out += [_se(lab, th, pos, se), _de(lab, th, pos, de)]
    seen = {}
    for h in out:
        seen.setdefault(h.name, h)
    return list(seen.values())
