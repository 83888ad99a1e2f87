"""C20  Enums are written by value and read back to the same member."""
import enum
import dataclasses

from props.common import *
from symex.formats import FORMATS, Inexpressible

BOUNDS = ("every kind of enum (14 classes: plain, int, str, float, mixed, aliased members, auto, tuple "
          "and enum values, IntEnum, StrEnum, Flag, IntFlag with composites, str mixins, custom "
          "__new__-less mixins) in every position, also passed directly, as default, dict key in every "
          "format, with every feature combination and type-check mode; data for the failure cases: any "
          "int, bool, string up to 5 characters (symbolic), floats, None, containers")
ASSUMPTIONS = ["members of an enum have distinct values (Python makes equal ones aliases)"]


class Mixed(enum.Enum):
    I = 1  # noqa: E741
    S = "1"
    T = (1, 2)
    N = None


class Auto(enum.Enum):
    X = enum.auto()
    Y = enum.auto()


class StrE(enum.StrEnum):
    UP = enum.auto()
    DOWN = "Down it"


class Aliased(enum.Enum):
    A = 1
    B = 1
    C = 2


class Fl(enum.Enum):
    HALF = 0.5
    NEG = -1.0


class Mth(enum.Enum):
    """With methods and properties."""
    P = "p"
    Q = "q"

    @property
    def other(self):
        return Mth.Q

    def __str__(self):
        return "str!"


class Deep(enum.Enum):
    D = Mth.P
    E = Mth.Q


class Deeper(enum.Enum):
    F = Deep.D
    G = Deep.E


class IntMix(int, enum.Enum):
    ONE = 1
    TWO = 2


class FloatMix(float, enum.Enum):
    H = 0.5


class BoolE(enum.Enum):
    NO = False
    YES = True


class DeepInt(enum.Enum):
    """Innermost values that are not strings."""
    I = Num.ONE  # noqa: E741
    J = Num.TWO


class DeepTup(enum.Enum):
    T = TE.P
    U = "u"


class Tups(enum.Enum):
    """Tuples, not first, and nested."""
    S = "s"
    N = ((1, 2), ())
    T = ("1", "2")


def wire(v):
    while isinstance(v, enum.Enum):
        v = v.value
    return v


def E(cls, values=None):
    return Pool(cls, list(cls) if values is None else values, wire, cls.__name__)


EXTRA = [E(c) for c in (Mixed, Auto, StrE, Aliased, Fl, Mth, Deep, Deeper, IntMix, FloatMix, BoolE, DeepInt, DeepTup, Tups)] + \
    [E(FL, [FL(0), FL.R]), E(IFL, [IFL(0), IFL(7) if IFL(7) else IFL.R])]
ALL = {repr(e) + ("" if i < len(ENUMS) + 1 else "2"): e for i, e in enumerate(ENUMS + [ENE] + EXTRA)}

POS = {
    "field": (lambda t: t, lambda v: v, lambda w: w),
    "list": (lambda t: list[t], lambda v: [v], lambda w: [w]),
    "dict": (lambda t: dict[str, t], lambda v: {"k": v}, lambda w: {"k": w}),
    "opt": (lambda t: typing.Optional[t], lambda v: v, lambda w: w),
    "tup": (lambda t: tuple[int, t], lambda v: (1, v), lambda w: (1, w)),
    "vtup": (lambda t: tuple[t, ...], lambda v: (v,), lambda w: (w,)),
    "deque": (lambda t: collections.deque[t], lambda v: collections.deque([v]), lambda w: [w]),
    "set": (lambda t: set[t], lambda v: {v}, lambda w: [w]),
    "frozenset": (lambda t: frozenset[t], lambda v: frozenset([v]), lambda w: [w]),
    "key": (lambda t: dict[t, int], lambda v: {v: 1}, lambda w: {w: 1}),
    "counter": (lambda t: collections.Counter[t], lambda v: collections.Counter({v: 1}), lambda w: {w: 1}),
    "keylist": (lambda t: list[dict[t, t]], lambda v: [{v: v}], lambda w: [{w: w}]),
    "listopt": (lambda t: list[typing.Optional[t]], lambda v: [v, None], lambda w: [w, None]),
    "ddict": (lambda t: collections.defaultdict[t, list[t]],
              lambda v: collections.defaultdict(list, {v: [v]}), lambda w: {w: [w]}),
    "union": (lambda t: typing.Union[t, list[int]], lambda v: v, lambda w: w),
    "alias": (lambda t: typing.TypeAliasType("TE_", list[t]), lambda v: [v], lambda w: [w]),
}


def ident(a, b):
    """The same members, not only equal ones."""
    if isinstance(a, enum.Enum):
        return a is b or (isinstance(a, enum.Flag) and type(a) is type(b) and a == b)
    if isinstance(a, dict):
        return type(a) is type(b) and len(a) == len(b) and all(
            ident(x, y) and ident(p, q) for (x, p), (y, q) in zip(a.items(), b.items()))
    if isinstance(a, (list, tuple, collections.deque)):
        return type(a) is type(b) and len(a) == len(b) and all(ident(x, y) for x, y in zip(a, b))
    if isinstance(a, (set, frozenset)):
        return type(a) is type(b) and len(a) == len(b) and all(ident(x, y) for x, y in zip(list(a), list(b)))
    return same(a, b)


def _member(label, spec):
    """Written by value, read back to the identical member, in every position and mode."""
    def build():
        import serde

        out = []
        for p, (ann, mk, w) in POS.items():
            t = ann(spec.py)
            for m in ("strict", "coerce", "disabled"):
                out.append((p, t, make_class("E_", [F("a", INT), F("x", INT, ann=t)],
                                             type_check=getattr(serde, m))))
        return out

    def run(inp, env):
        from serde import from_dict, from_tuple, to_dict, to_tuple

        p, t, cls = inp.pick("cls", env)
        _, mk, wr = POS[p]
        v = spec.draw(inp, "v")
        if v is Mixed.N:
            inp.assume(p not in ("opt", "listopt"))  # the plain form of None itself
        if v is Mixed.T:
            inp.assume(p != "union" )
        a = inp.int("a")
        x = cls(a, mk(v))
        w = wr(wire(v))
        d = to_dict(x, convert_sets=True)
        check(same(d, {"a": a, "x": w}), "written by value")
        check(same(to_tuple(x, convert_sets=True), (a, w)), "written by value (tuple)")
        y = from_dict(cls, d)
        check(ident(y.x, x.x), "the identical member")
        check(ident(from_tuple(cls, (a, w)).x, x.x), "the identical member (tuple)")
        check(same(to_dict(x.x, c=t, convert_sets=True), w), "written directly")
        z = from_dict(t, w)
        check(p == "ddict" or ident(z, x.x), "read directly")
        inp.reach("end")

    return Harness(f"member:{label}", build, run)


def _leaf(v, last=-1):
    while not isinstance(v, enum.Enum):
        if v is None:
            return None
        v = v["k"] if isinstance(v, dict) else v[last if isinstance(v, tuple) else 0]
    return wire(v)


def _unknown(label, spec, p):
    """Data equal to no member's value is rejected with SerdeError."""
    ann, mk, wr = POS[p]

    def build():
        import serde

        t = ann(spec.py)
        return t, [make_class("E_", [F("a", INT), F("x", INT, ann=t)], type_check=getattr(serde, m))
                   for m in ("strict", "coerce", "disabled")]

    def run(inp, env):
        from serde import from_dict

        t, clss = env
        flag = issubclass(spec.py, enum.Flag)
        hashed = p in ("key", "set", "keylist", "frozenset", "ddict", "counter")
        k = inp.pick("kind", ["pool"] if hashed else ["str", "pool"] if flag else ["int", "str", "pool"])
        num = any(isinstance(wire(m), (int, float)) for m in spec.py)
        if k == "int" and any(isinstance(wire(m), float) for m in spec.py):
            d = inp.pick("i", [0, 1, 2, -1])
        elif k == "int":
            d = inp.int("i")
        elif k == "str":
            if num:
                d = inp.pick("s", ["1", "2", "3", "01", " 1", "1.0", "0.5", "-1", "1e0", "true", "True", "x1", "None"])
            else:
                d = inp.str("s", 5)
        else:
            d = inp.pick("o", ["nope", "RED", "", "1x", 99, -5, 3.5, None] + ([] if hashed else [[], [1], {}, True]))
        if flag:
            inp.assume(not isinstance(d, int) or isinstance(d, bool))
            if d is True:
                return
        values = [wire(m) for m in (spec.values if flag else spec.py)]
        if flag:
            values += list(range(-1, 4))
        ok = any([bool(d == v) for v in values])
        if d is None and "opt" in p:
            ok = True
        if p == "union":
            inp.assume(not isinstance(d, list))
        # the textual form of a number (or "true") may be accepted: formats turn keys into strings
        textual = False
        if k != "int" and isinstance(d, str):
            for conv in () if not num else (int, float, {"true": True, "false": False}.__getitem__):
                try:
                    textual = textual or any([not isinstance(v, str) and bool(v == conv(d)) for v in values])
                except (ValueError, KeyError):
                    pass
        c = inp.choice("cls", 4)
        try:
            data = wr(d)
        except TypeError:
            return
        got, y = attempt(lambda: from_dict(clss[c], {"a": 1, "x": data}) if c < 3 else from_dict(t, data))
        check(got == ok or textual, "accepted exactly when it is the value of a member")
        if got and ok and not hashed and d is not None:
            check(same(_leaf(y.x if c < 3 else y), d) or _leaf(y.x if c < 3 else y) == d, "that member")
        inp.reach("ok" if ok else "unknown")

    return Harness(f"unknown:{label}:{p}", build, run, reach=("unknown",))


def _fmt(fmt, label, spec):
    """Through every format, keys included (formats may turn keys into strings)."""
    def build():
        out = []
        for p, (ann, mk, w) in POS.items():
            out.append((p, make_class("Ef", [F("x", INT, ann=ann(spec.py))])))
        return out

    def run(inp, env):
        p, cls = inp.pick("cls", env)
        to, frm = fmt.api()
        v = spec.draw(inp, "v")
        if v is Mixed.N or v is Mixed.T:
            return
        if "key" in p or p in ("counter", "ddict"):
            # the member is recoverable from a string key for str and numeric enums
            num = all(isinstance(wire(m), (int, float)) for m in spec.py)
            inp.assume(isinstance(wire(v), (str, int, float)))
            inp.assume(fmt.name == "yaml" or isinstance(wire(v), str) or (num and fmt.name == "json"))
        x = cls(POS[p][1](v))
        try:
            box = to(x, se=fmt.se())
        except Inexpressible:
            return
        y = frm(cls, box, de=fmt.de())
        check(ident(y.x, x.x), "the identical member")
        if not inp.symbolic:
            check(ident(frm(cls, to(x)).x, x.x), "the identical member (real encoder)")
        inp.reach("end")

    return Harness(f"fmt:{fmt.name}:{label}", build, run)


def _default(label, spec):
    def build():
        v0 = spec.values[0]
        return v0, [make_class("Ed", [F("a", INT), F("x", spec, default=v0)]),
                    make_class("Ed", [F("a", INT), F("x", spec, default=v0)], skip_if_default=True),
                    make_class("Ed", [F("a", INT), F("x", INT, ann=typing.Optional[spec.py], default=v0)])]

    def run(inp, env):
        from serde import from_dict, to_dict

        v0, clss = env
        k = inp.choice("k", 3)
        cls = clss[k]
        check(from_dict(cls, {"a": 1}).x is v0 or from_dict(cls, {"a": 1}).x == v0, "the default member")
        v = spec.draw(inp, "v")
        x = cls(inp.int("a"), v)
        d = to_dict(x)
        if k == 1 and v == v0:
            check(same(d, {"a": x.a}), "a default is skipped")
        else:
            check(same(d, {"a": x.a, "x": wire(v)}), "written")
        if not (k == 2 and v is Mixed.N):
            check(ident(from_dict(cls, d).x, v), "back")
        inp.reach("end")

    return Harness(f"default:{label}", build, run)


def _combo(combo, spec):
    label, o = combo[:2]

    def build():
        return combo_class((label, {k: v for k, v in o.items()}, spec.values[0] if combo[2] is not MISSING else MISSING,
                            (lambda: spec.values[0]) if combo[3] is not MISSING else MISSING), spec=spec)

    def run(inp, cls):
        from serde import from_dict, to_dict

        v = spec.draw(inp, "v")
        key = o.get("rename", "m_m")
        x = cls(a_a=1, m_m=v, z_z=2)
        if "serializer" in o:
            d = to_dict(x)
            check(d[key] is v if key in d else True, "the serializer's result is stored unchanged")
            inp.reach("end")
            return
        d = to_dict(x)
        skipped = ("skip_if_default" in o and v == spec.values[0]) or ("skip_if_false" in o and not wire(v))
        check(same(d.get(key, "missing"), "missing" if skipped else wire(v)), "by value")
        y = from_dict(cls, {"a_a": 1, key: wire(v), "z_z": 2})
        check(ident(y.m_m, v), "identical")
        inp.reach("end")

    return Harness(f"combo:{label}:{spec!r}", build, run)


def _similar():
    """Enums of the same name or with equal values do not interfere."""
    def build():
        a = enum.Enum("Same", {"X": 1, "Y": 2})
        b = enum.Enum("Same", {"Y": 1, "X": 2})
        c = enum.IntEnum("Same", {"Z": 1, "X": 2})
        out = []
        for p, q in ((a, b), (b, a), (a, c), (c, b)):
            child = make_class("Ch", [F("x", INT, ann=q)])
            out.append((p, q, make_class("Two", [F("x", INT, ann=p), F("y", INT, ann=q),
                                                 F("l", INT, ann=list[p]), F("c", INT, ann=child)])))
        return out

    def run(inp, env):
        from serde import from_dict, to_dict

        p, q, cls = inp.pick("cls", env)
        i, j = inp.pick("i", [1, 2]), inp.pick("j", [1, 2])
        d = {"x": i, "y": j, "l": [i], "c": {"x": j}}
        y = from_dict(cls, d)
        check(y.x is p(i) and y.y is q(j) and y.l[0] is p(i) and y.c.x is q(j), "members of the right enum")
        check(same(to_dict(y), d), "written")
        inp.reach("end")

    return Harness("similar", build, run)


def harnesses(tier):
    out = []
    for l, s in ALL.items():
        out += [_member(l, s), _default(l, s)]
        for f in FORMATS:
            out.append(_fmt(f, l, s))
        for p in POS:
            if tier == "thorough" or p in ("field", "list", "key", "opt") or l in ("Color", "IE"):
                out.append(_unknown(l, s, p))
    for c in feature_combos(tier):
        for s in (ECOLOR, EIE) if tier == "thorough" else (ECOLOR,):
            out.append(_combo(c, s))
    return out + [_similar()]
