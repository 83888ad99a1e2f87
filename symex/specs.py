"""Reference model of the documented type universe.

A Spec couples a type annotation with (a) a symbolic generator of its values, (b) the documented
wire form of a value (what `to_dict`/`to_tuple` must produce), written independently of pyserde,
and (c) type-exact equality.  Container lengths are forked up to `maxlen`; leaves are symbolic.
"""
from __future__ import annotations

import collections
import dataclasses
import datetime
import decimal
import enum
import ipaddress
import pathlib
import sys
import types
import typing
import uuid
from typing import Any, Literal, NewType, Optional, Union

PROG = types.ModuleType("symex_programs")
sys.modules["symex_programs"] = PROG


@dataclasses.dataclass(frozen=True)
class WireOpts:
    named: bool = True
    convert_sets: bool = False
    reuse_instances: bool = True
    skip_none: bool = False


W = WireOpts()
TUP = WireOpts(named=False)


def same(a, b) -> bool:
    """Type-exact deep equality (1 != True, 1 != 1.0, list != tuple, NaN == NaN)."""
    ta, tb = type(a), type(b)
    if ta is not tb:
        return False
    if ta is float:
        return bool(a == b) or (bool(a != a) and bool(b != b))
    if ta in (list, tuple, collections.deque):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if not same(x, y):
                return False
        return True
    if isinstance(a, dict):
        if ta is collections.defaultdict and a.default_factory is not b.default_factory:
            return False
        if len(a) != len(b):
            return False
        ka, kb = list(a.keys()), list(b.keys())
        for k in ka:
            m = [j for j in kb if same(k, j)]
            if len(m) != 1 or not same(a[k], b[m[0]]):
                return False
        return True
    if ta in (set, frozenset):
        if len(a) != len(b):
            return False
        la, lb = list(a), list(b)
        for k in la:
            if not any(same(k, j) for j in lb):
                return False
        return True
    if dataclasses.is_dataclass(a):
        for f in dataclasses.fields(a):
            if not f.compare:
                continue
            if not same(getattr(a, f.name), getattr(b, f.name)):
                return False
        return True
    return bool(a == b) or (ta is decimal.Decimal and a.is_nan() and b.is_nan())


class Spec:
    py: Any = None
    hashable = False

    def draw(self, inp, n):
        raise NotImplementedError

    def wire(self, v, o: WireOpts = W):
        raise NotImplementedError

    def ok(self, v) -> bool:
        """Does v have the declared type, all the way down?"""
        raise NotImplementedError

    def __repr__(self):
        return getattr(self, "label", None) or getattr(self.py, "__name__", None) or str(self.py)


class Leaf(Spec):
    hashable = False

    def __init__(self, py, kind, *args):
        self.py, self.kind, self.label, self.args = py, kind, kind, args

    def draw(self, inp, n):
        return getattr(inp, self.kind)(n, *self.args)

    def wire(self, v, o=W):
        return v

    def ok(self, v):
        if self.kind == "int":
            return isinstance(v, int)
        return type(v) is self.py


INT = Leaf(int, "int")
STR = Leaf(str, "str")
STRB = Leaf(str, "str", 5)  # bounded: searched for substrings by the code under test
BOOL = Leaf(bool, "bool")
FLOAT = Leaf(float, "float")


class NewT(Leaf):
    def __init__(self, name, base, kind):
        self.py, self.kind, self.label = NewType(name, base), kind, f"NewType_{kind}"
        self.args = ()
        self.base = base

    def ok(self, v):
        return isinstance(v, int) if self.base is int else type(v) is self.base


class NoneS(Spec):
    py = type(None)
    label = "None"

    def draw(self, inp, n):
        return None

    def wire(self, v, o=W):
        return None

    def ok(self, v):
        return v is None


NONE = NoneS()


class Pool(Spec):
    """Finite pool of concrete values; the choice is symbolic."""

    hashable = True

    def __init__(self, py, values, wire=None, label=None, reuse=False):
        self.py, self.values = py, list(values)
        self._wire = wire or (lambda v: v)
        self.label = label or getattr(py, "__name__", str(py))
        self.reuse = reuse

    def draw(self, inp, n):
        return inp.pick(n, self.values)

    def wire(self, v, o=W):
        if self.reuse and o.reuse_instances:
            return v
        return self._wire(v)

    def ok(self, v):
        return isinstance(v, self.py) if isinstance(self.py, type) else v in self.values


class AnyS(Spec):
    """typing.Any holding plain data."""

    py = Any
    label = "Any"

    def draw(self, inp, n):
        k = inp.choice(n + ".kind", 4)
        if k == 0:
            return inp.int(n + ".i")
        if k == 1:
            return inp.str(n + ".s")
        if k == 2:
            return None
        return [inp.int(n + ".e")]

    def wire(self, v, o=W):
        return v

    def ok(self, v):
        return True


ANY = AnyS()


class Opt(Spec):
    def __init__(self, inner, pep604=False):
        self.inner = inner
        self.py = (inner.py | None) if pep604 else Optional[inner.py]
        self.label = f"Opt[{inner!r}]"

    def draw(self, inp, n):
        return self.inner.draw(inp, n + "?") if inp.flag(n + ".some") else None

    def wire(self, v, o=W):
        return None if v is None else self.inner.wire(v, o)

    def ok(self, v):
        return v is None or self.inner.ok(v)


def _len(inp, n, maxlen):
    return inp.choice(n + ".len", maxlen + 1)


class ListS(Spec):
    def __init__(self, inner, maxlen=2, py=None, label="List"):
        self.inner, self.maxlen = inner, maxlen
        self.py = py if py is not None else list[inner.py]
        self.label = f"{label}[{inner!r}]"

    def draw(self, inp, n):
        return [self.inner.draw(inp, f"{n}[{i}]") for i in range(_len(inp, n, self.maxlen))]

    def wire(self, v, o=W):
        return [self.inner.wire(e, o) for e in v]

    def ok(self, v):
        return type(v) is list and all(self.inner.ok(e) for e in v)


class DequeS(ListS):
    def __init__(self, inner, maxlen=2):
        super().__init__(inner, maxlen, collections.deque[inner.py], "Deque")

    def draw(self, inp, n):
        return collections.deque(super().draw(inp, n))

    def ok(self, v):
        return type(v) is collections.deque and all(self.inner.ok(e) for e in v)


class VarTup(Spec):
    def __init__(self, inner, maxlen=2):
        self.inner, self.maxlen = inner, maxlen
        self.py = tuple[inner.py, ...]
        self.label = f"VarTup[{inner!r}]"
        self.hashable = inner.hashable

    def draw(self, inp, n):
        return tuple([self.inner.draw(inp, f"{n}[{i}]")
                      for i in range(_len(inp, n, self.maxlen))])

    def wire(self, v, o=W):
        return tuple([self.inner.wire(e, o) for e in v])

    def ok(self, v):
        return type(v) is tuple and all(self.inner.ok(e) for e in v)


class Tup(Spec):
    def __init__(self, *inners):
        self.inners = inners
        self.py = tuple[tuple(i.py for i in inners)]
        self.label = f"Tup{list(inners)!r}"
        self.hashable = all(i.hashable for i in inners)

    def draw(self, inp, n):
        return tuple([s.draw(inp, f"{n}({i})") for i, s in enumerate(self.inners)])

    def wire(self, v, o=W):
        return tuple([s.wire(e, o) for s, e in zip(self.inners, v)])

    def ok(self, v):
        return type(v) is tuple and len(v) == len(self.inners) and \
            all(s.ok(e) for s, e in zip(self.inners, v))


class SetS(Spec):
    """Elements come from a hashable (pool) spec."""

    def __init__(self, inner, maxlen=2, frozen=False, py=None):
        assert inner.hashable
        self.inner, self.maxlen, self.ctor = inner, maxlen, frozenset if frozen else set
        self.py = py or self.ctor[inner.py]
        self.label = f"{self.ctor.__name__}[{inner!r}]"
        self.hashable = frozen

    def draw(self, inp, n):
        return self.ctor([self.inner.draw(inp, f"{n}{{{i}}}")
                          for i in range(_len(inp, n, self.maxlen))])

    def wire(self, v, o=W):
        if o.convert_sets:
            return [self.inner.wire(e, o) for e in v]
        return self.ctor([self.inner.wire(e, o) for e in v])

    def ok(self, v):
        return type(v) is self.ctor and all(self.inner.ok(e) for e in v)


class DictS(Spec):
    def __init__(self, key, val, maxlen=2, py=None, label="Dict"):
        self.key, self.val, self.maxlen = key, val, maxlen
        self.py = py if py is not None else dict[key.py, val.py]
        self.label = f"{label}[{key!r},{val!r}]"

    def draw(self, inp, n):
        res = {}
        for i in range(_len(inp, n, self.maxlen)):
            res[self.key.draw(inp, f"{n}.k{i}")] = self.val.draw(inp, f"{n}.v{i}")
        return res

    def wire(self, v, o=W):
        return {self.key.wire(k, o): self.val.wire(e, o) for k, e in v.items()}

    def ok(self, v):
        return type(v) is dict and all(self.key.ok(k) and self.val.ok(e) for k, e in v.items())


class DefaultDictS(DictS):
    def __init__(self, key, val, factory, maxlen=2):
        super().__init__(key, val, maxlen, collections.defaultdict[key.py, val.py], "DefaultDict")
        self.factory = factory

    def draw(self, inp, n):
        return collections.defaultdict(self.factory, super().draw(inp, n))

    def ok(self, v):
        return type(v) is collections.defaultdict and v.default_factory is self.factory and \
            all(self.key.ok(k) and self.val.ok(e) for k, e in v.items())


class CounterS(Spec):
    def __init__(self, key, maxlen=2):
        self.key, self.maxlen = key, maxlen
        self.py = collections.Counter[key.py]
        self.label = f"Counter[{key!r}]"

    def draw(self, inp, n):
        c = collections.Counter()
        for i in range(_len(inp, n, self.maxlen)):
            c[self.key.draw(inp, f"{n}.k{i}")] = inp.int(f"{n}.c{i}")
        return c

    def wire(self, v, o=W):
        return {self.key.wire(k, o): e for k, e in v.items()}

    def ok(self, v):
        return type(v) is collections.Counter and all(self.key.ok(k) for k in v)


class LitS(Spec):
    hashable = True

    def __init__(self, *values):
        self.values = values
        self.py = Literal[values]
        self.label = f"Literal{list(values)!r}"

    def draw(self, inp, n):
        return inp.pick(n, self.values)

    def wire(self, v, o=W):
        return v

    def ok(self, v):
        if LITERAL_EQ["on"]:
            return isinstance(v, tuple({type(x) for x in self.values})) and \
                any(v == x for x in self.values)
        return any(type(v) is type(x) and v == x for x in self.values)


# beartype accepts an equal value of any of the literal types; its notion where the constructor's
# own check decides
LITERAL_EQ = {"on": False}


class UnionS(Spec):
    """Untagged view: members that are not dataclasses serialize as themselves; dataclass members
    per `tagging` (the tagging of the class that owns the field)."""

    def __init__(self, *members, tagging="External", tag=None, content=None, py=None):
        self.members = members
        self.py = py if py is not None else Union[tuple(m.py for m in members)]
        self.label = f"Union{list(members)!r}"
        self.tagging, self.tag, self.content = tagging, tag, content

    def draw(self, inp, n):
        i = inp.choice(n + ".alt", len(self.members))
        return self.members[i].draw(inp, f"{n}|{i}")

    def member(self, v):
        for m in self.members:
            if m.ok(v):
                return m
        raise AssertionError(f"not a member: {v!r}")

    def wire(self, v, o=W):
        m = self.member(v)
        # union members are always rendered in named form
        w = m.wire(v, dataclasses.replace(o, named=True))
        if not isinstance(m, DC):
            return w
        name = m.cls.__name__
        if self.tagging == "External":
            return {name: w}
        if self.tagging == "Internal":
            return {**w, self.tag: name}
        if self.tagging == "Adjacent":
            return {self.content: w, self.tag: name}
        return w

    def ok(self, v):
        return any(m.ok(v) for m in self.members)


MISSING = type("Missing", (), {"__repr__": lambda s: "MISSING"})()


@dataclasses.dataclass
class F:
    """A field of a generated class."""

    name: str
    spec: Spec
    default: Any = MISSING
    factory: Any = MISSING
    opts: dict = dataclasses.field(default_factory=dict)  # keyword options of serde.field
    key: str | None = None  # documented wire key
    ann: Any = None  # annotation override


def make_class(name, fields, bases=(), deco=None, ns=None, **serde_opts):
    """Equivalent of a `@serde(**serde_opts) class name(*bases): ...` statement."""
    import serde

    body = {"__module__": "symex_programs", "__qualname__": name}
    ann = {}
    for f in fields:
        ann[f.name] = f.ann if f.ann is not None else f.spec.py
        kw = dict(f.opts)
        if f.default is not MISSING:
            kw["default"] = f.default
        if f.factory is not MISSING:
            kw["default_factory"] = f.factory
        if f.opts:
            body[f.name] = serde.field(**kw)
        elif f.factory is not MISSING:
            body[f.name] = dataclasses.field(default_factory=f.factory)
        elif f.default is not MISSING:
            body[f.name] = f.default
    body["__annotations__"] = ann
    body.update(ns or {})
    cls = types.new_class(name, bases, exec_body=lambda d: d.update(body))
    setattr(PROG, name, cls)
    if deco is not None:
        return deco(cls)
    return serde.serde(cls, **serde_opts)


class DC(Spec):
    """A serde class with plain fields (wire form: field name -> wire(value))."""

    def __init__(self, name, fields, cls=None, **serde_opts):
        self.fields = [f if isinstance(f, F) else F(*f) for f in fields]
        self.cls = cls if cls is not None else make_class(name, self.fields, **serde_opts)
        self.py = self.cls
        self.label = name

    def draw(self, inp, n):
        return self.cls(**{f.name: f.spec.draw(inp, f"{n}.{f.name}") for f in self.fields})

    def wire(self, v, o=W):
        if not o.named:
            return tuple([f.spec.wire(getattr(v, f.name), o) for f in self.fields])
        res = {}
        for f in self.fields:
            w = f.spec.wire(getattr(v, f.name), o)
            if o.skip_none and w is None:
                continue
            res[f.key or f.name] = w
        return res

    def ok(self, v):
        return type(v) is self.cls and all(f.spec.ok(getattr(v, f.name)) for f in self.fields)


# ------------------------------------------------------------------ concrete pools
class Color(enum.Enum):
    RED = "red"
    BLUE = "blue"


class Num(enum.Enum):
    ONE = 1
    TWO = 2


class IE(enum.IntEnum):
    A = 1
    B = 2


class SE(str, enum.Enum):
    X = "x"
    Y = "y"


class FL(enum.Flag):
    R = 1
    W = 2


class IFL(enum.IntFlag):
    R = 1
    W = 2


class TE(enum.Enum):
    P = (1, 2)
    Q = (3, 4)


class NE(enum.Enum):
    """Nested enum: values are enum members."""

    C = Color.RED
    D = Color.BLUE


class MyInt(int):
    pass


class MyStr(str):
    pass


class MyFloat(float):
    pass


for _c in (Color, Num, IE, SE, FL, IFL, TE, NE, MyInt, MyStr, MyFloat):
    setattr(PROG, _c.__name__, _c)


def _ev(e):
    v = e.value
    return _ev(v) if isinstance(v, enum.Enum) else v


def EnumS(cls, values=None):
    return Pool(cls, values or list(cls), _ev, cls.__name__)


ENUMS = [EnumS(Color), EnumS(Num), EnumS(IE), EnumS(SE), EnumS(FL, [FL.R, FL.W, FL.R | FL.W]),
         EnumS(IFL, [IFL.R, IFL.R | IFL.W]), EnumS(TE)]
ECOLOR, ENUM_, EIE, ESE, EFL, EIFL, ETE = ENUMS
ENE = EnumS(NE)

SUBINT = Pool(MyInt, [MyInt(0), MyInt(7)], label="MyInt")
SUBSTR = Pool(MyStr, [MyStr(""), MyStr("q")], label="MyStr")
SUBFLOAT = Pool(MyFloat, [MyFloat(0.5)], label="MyFloat")
PRIM_SUB = [SUBINT, SUBSTR, SUBFLOAT]

KSTR = Pool(str, ["", "k", "Z z"], label="kstr")
KINT = Pool(int, [0, -3], label="kint")
KFLOAT = Pool(float, [0.5, -2.0], label="kfloat")
KBOOL = Pool(bool, [True, False], label="kbool")

_STRSER = [
    (pathlib.Path, [pathlib.Path("/a/b"), pathlib.Path("c d")]),
    (pathlib.PurePosixPath, [pathlib.PurePosixPath("x/y")]),
    (pathlib.PureWindowsPath, [pathlib.PureWindowsPath("c:\\x")]),
    (uuid.UUID, [uuid.UUID(int=0), uuid.UUID(int=2**127 + 5)]),
    (decimal.Decimal, [decimal.Decimal("0.10"), decimal.Decimal("-1E+3")]),
    (ipaddress.IPv4Address, [ipaddress.IPv4Address("127.0.0.1")]),
    (ipaddress.IPv6Address, [ipaddress.IPv6Address("::1")]),
    (ipaddress.IPv4Network, [ipaddress.IPv4Network("10.0.0.0/8")]),
    (ipaddress.IPv6Network, [ipaddress.IPv6Network("2001:db8::/32")]),
    (ipaddress.IPv4Interface, [ipaddress.IPv4Interface("10.1.2.3/24")]),
    (ipaddress.IPv6Interface, [ipaddress.IPv6Interface("::1/128")]),
]
STRSER = [Pool(t, vs, str, t.__name__, reuse=True) for t, vs in _STRSER]
PATH, PPATH, WPATH, UUID_, DECIMAL, IP4 = STRSER[:6]

_DT = [
    (datetime.datetime, [datetime.datetime(2020, 2, 29, 23, 59, 59, 999999),
                         datetime.datetime(1, 1, 1, tzinfo=datetime.timezone.utc)]),
    (datetime.date, [datetime.date(2024, 2, 29), datetime.date(9999, 12, 31)]),
    (datetime.time, [datetime.time(0, 0), datetime.time(23, 59, 59, 5)]),
]
DATETIMES = [Pool(t, vs, lambda v: v.isoformat(), t.__name__, reuse=True) for t, vs in _DT]
DATETIME, DATE, TIME = DATETIMES
