"""Bounded families of type shapes (label, thunk -> Spec).  Thunks run inside `build`, because
they define classes."""
from __future__ import annotations

import dataclasses
import collections
import pathlib
import typing

from .specs import *  # noqa: F401,F403
from .specs import DC, F, make_class


def inner():
    return DC("Inner", [F("i", INT), F("s", STR)])


def inner2():
    return DC("Inner2", [F("f", BOOL), F("o", Opt(INT))])


def nested():
    return DC("Nested", [F("a", inner()), F("l", ListS(STR, 1))])


class PlainDC(DC):
    """A dataclass without the serde decorator."""

    def __init__(self, name, fields):
        super().__init__(name, fields, cls=make_class(name, fields, deco=dataclasses.dataclass))


def plain():
    return PlainDC("Plain", [F("p", INT), F("q", STR)])


def rec():
    """Self-referencing class, depth <= 2."""
    return RecDC()


class RecDC(DC):
    def __init__(self):
        import serde

        cls = make_class("Rec", [F("v", INT), F("nxt", NONE, ann="typing.Optional[Rec]")],
                         deco=lambda c: c)
        import symex_programs

        symex_programs.typing = typing
        cls = serde.serde(cls)
        symex_programs.Rec = cls
        self.depth = 2
        super().__init__("Rec", [F("v", INT)], cls=cls)

    def draw(self, inp, n, d=None):
        d = self.depth if d is None else d
        v = inp.int(n + ".v")
        if d > 0 and inp.flag(n + ".more"):
            return self.cls(v, self.draw(inp, n + ">", d - 1))
        return self.cls(v, None)

    def wire(self, v, o=W):
        nxt = None if v.nxt is None else self.wire(v.nxt, o)
        if not o.named:
            return (v.v, nxt)
        if o.skip_none and nxt is None:
            return {"v": v.v}
        return {"v": v.v, "nxt": nxt}

    def ok(self, v):
        return type(v) is self.cls and isinstance(v.v, int) and \
            (v.nxt is None or self.ok(v.nxt))


NTI = NewT("NTI", int, "int")
NTS = NewT("NTS", str, "str")

LEAVES = [
    ("int", lambda: INT), ("str", lambda: STR), ("bool", lambda: BOOL), ("float", lambda: FLOAT),
    ("newtype", lambda: NTI), ("any", lambda: ANY),
    ("literal", lambda: LitS("a", 1, True, "b")),
] + [(f"enum_{e!r}", lambda e=e: e) for e in ENUMS + [ENE]] \
  + [(f"sub_{e!r}", lambda e=e: e) for e in PRIM_SUB] \
  + [(f"ss_{e!r}", lambda e=e: e) for e in STRSER] \
  + [(f"dt_{e!r}", lambda e=e: e) for e in DATETIMES]

CLASSES = [("dc", inner), ("dc_nested", nested), ("plain_dc", plain), ("rec", rec)]

UNIONS = [
    ("u_prim", lambda: UnionS(INT, STR)),
    ("u_prim3", lambda: UnionS(STR, BOOL, FLOAT, NONE) if False else UnionS(STR, FLOAT)),
    ("u_dc", lambda: UnionS(inner(), inner2())),
    ("u_mix", lambda: UnionS(INT, inner(), STRB)),
    ("u_list", lambda: UnionS(ListS(INT, 1), DictS(KSTR, INT, 1))),
    ("u_none", lambda: OptUnion(INT, STR)),
]


def OptUnion(*ms):
    return UnionS(*ms, NONE)


class BareTup(VarTup):
    def __init__(self, py=tuple):
        super().__init__(ANY4, 2)
        self.py = py


class BareDeque(DequeS):
    def __init__(self):
        super().__init__(INT, 2)
        self.py = collections.deque


class BareCounter(CounterS):
    def __init__(self):
        super().__init__(KSTR2, 2)
        self.py = collections.Counter


# representatives used under containers
REPS = [
    ("int", lambda: INT), ("str", lambda: STR), ("enum", lambda: ECOLOR), ("path", lambda: PATH),
    ("datetime", lambda: DATETIME), ("dc", inner), ("opt", lambda: Opt(INT)),
    ("literal", lambda: LitS("a", 1)), ("union", lambda: UnionS(INT, STR)),
    ("udc", lambda: UnionS(inner(), INT)), ("float", lambda: FLOAT),
]
KEYS = [("kstr", lambda: KSTR), ("kint", lambda: KINT), ("kenum", lambda: ECOLOR),
        ("kie", lambda: EIE), ("kpath", lambda: PATH), ("kuuid", lambda: UUID_),
        ("kfloat", lambda: KFLOAT), ("kdate", lambda: DATE),
        # keys recovered from text through a subclass, NewType, alias or (nested) enum
        ("ksub_int", lambda: SUBINT), ("ksub_str", lambda: SUBSTR), ("ksub_float", lambda: SUBFLOAT),
        ("knewint", lambda: NewKey()),
        ("kalias", lambda: Alias("AKey", KINT)),
        ("kaliasnew", lambda: Alias("AKeyNew", NewKey())),
        ("kaliasenum", lambda: Alias("AKeyEnum", EIE)), ("kne", lambda: ENE),
        ("kifl", lambda: EIFL), ("kdec", lambda: DECIMAL), ("klit", lambda: LitKey())]

class Alias(Spec):
    """PEP 695 alias of another spec."""

    def __init__(self, name, inner):
        self.inner = inner
        self.py = typing.TypeAliasType(name, inner.py)
        self.label = f"alias {name}"
        self.hashable = inner.hashable

    def draw(self, inp, n):
        return self.inner.draw(inp, n)

    def wire(self, v, o=W):
        return self.inner.wire(v, o)

    def ok(self, v):
        return self.inner.ok(v)


class OptKey(Opt):
    """Optional of a hashable type."""

    hashable = True


class NewKey(Pool):
    """NewType of int as a dict key."""

    def __init__(self):
        super().__init__(NTI.py, [0, -3], label="knewint")

    def ok(self, v):
        return isinstance(v, int)


class LitKey(Pool):
    """Literal of strings as a dict key."""

    def __init__(self):
        super().__init__(typing.Literal["a", "b"], ["a", "b"], label="klit")


class AnyElem(Pool):
    """Elements of bare containers: plain values."""

    def __init__(self):
        super().__init__(object, [1, "a", None, 2.5], label="any4")


ANY4 = AnyElem()
KBARE = Pool(typing.Any, ["b", "a"], label="kstr")
import collections.abc as _abc  # noqa: E402

ABSTRACT = [
    ("bare_list", lambda: ListS(ANY4, 2, py=list, label="bare")),
    ("bare_dict", lambda: DictS(KSTR2, ANY4, 1, py=dict, label="bare")),
    ("bare_tuple", lambda: BareTup()),
    ("bare_set", lambda: SetS(Pool(typing.Any, ["b", "a"], label="kstr"), 2, py=set)),
    ("bare_set_mixed", lambda: SetS(Pool(typing.Any, ["b", 1, None], label="kmix"), 2, py=set)),
    ("bare_deque", lambda: BareDeque()),
    ("bare_counter", lambda: BareCounter()),
    ("bare_frozenset", lambda: SetS(KBARE, 2, frozen=True, py=frozenset)),
    ("typing_bare_list", lambda: ListS(ANY4, 2, py=typing.List, label="tbare")),
    ("typing_bare_dict", lambda: DictS(KSTR2, ANY4, 1, py=typing.Dict, label="tbare")),
    ("typing_bare_tuple", lambda: BareTup(typing.Tuple)),
    ("typing_bare_set", lambda: SetS(KBARE, 1, py=typing.Set)),
    ("typing_bare_frozenset", lambda: SetS(KBARE, 1, frozen=True, py=typing.FrozenSet)),
    ("list<bare_frozenset>", lambda: ListS(SetS(KBARE, 1, frozen=True, py=frozenset), 1)),
    ("opt<bare_frozenset>", lambda: Opt(SetS(KBARE, 1, frozen=True, py=frozenset))),
    ("set<frozenset>", lambda: SetS(SetS(KSTR2, 1, frozen=True), 1)),
    ("set<frozenset<path>>", lambda: SetS(SetS(PATH, 1, frozen=True), 1)),
    ("frozenset<bare_frozenset>",
     lambda: SetS(SetS(KBARE, 1, frozen=True, py=frozenset), 1, frozen=True)),
    ("typing_list<int>", lambda: ListS(INT, 1, py=typing.List[int])),
    ("typing_dict<kstr,int>", lambda: DictS(KSTR2, INT, 1, py=typing.Dict[str, int])),
    ("typing_set<kenum>", lambda: SetS(ECOLOR, 1, py=typing.Set[Color])),
    ("seq<int>", lambda: ListS(INT, 1, py=_abc.Sequence[int])),
    ("seq<path>", lambda: ListS(PATH, 1, py=_abc.Sequence[pathlib.Path])),
    ("mutseq<dc>", lambda: (lambda d: ListS(d, 1, py=_abc.MutableSequence[d.cls]))(inner())),
    ("mapping<kstr,int>", lambda: DictS(KSTR2, INT, 1, py=_abc.Mapping[str, int])),
    ("mapping<kstr,path>", lambda: DictS(KSTR2, PATH, 1, py=_abc.Mapping[str, pathlib.Path])),
    ("mutmapping<kstr,dc>",
     lambda: (lambda d: DictS(KSTR2, d, 1, py=_abc.MutableMapping[str, d.cls]))(inner())),
    ("absset<kenum>", lambda: SetS(ECOLOR, 1, py=_abc.Set[Color])),
    ("mutset<kpath>", lambda: SetS(PATH, 1, py=_abc.MutableSet[pathlib.Path])),
    ("pep604<int>", lambda: Opt(INT, pep604=True)),
    ("pep604union", lambda: UnionS(INT, STR, py=int | str)),
    ("pep604union_none", lambda: UnionS(INT, STR, NONE, py=int | str | None)),
    ("alias<int>", lambda: Alias("AInt", INT)),
    ("alias<list<path>>", lambda: Alias("APaths", ListS(PATH, 1))),
    ("alias<union>", lambda: Alias("AUnion", UnionS(INT, inner()))),
    ("nested_dict", lambda: DictS(KSTR2, DictS(KINT, ListS(ECOLOR, 1), 1), 1)),
    ("set<tup>", lambda: SetS(Tup(KINT, KSTR2), 1)),
    ("set<vtup>", lambda: SetS(VarTup(KINT, 1), 1)),
    ("frozenset<opt>", lambda: SetS(OptKey(KINT), 1, frozen=True)),
    ("tup1<int>", lambda: Tup(INT)),
    ("tup3", lambda: Tup(BOOL, STR, ListS(INT, 1))),
]

_FACT = {"int": int, "str": str, "list": list, "float": float}


def containers(elem_label, elem, small=False):
    m = 1 if small else 2
    out = [
        (f"list<{elem_label}>", lambda: ListS(elem(), m)),
        (f"opt<{elem_label}>", lambda: Opt(elem())),
        (f"vtup<{elem_label}>", lambda: VarTup(elem(), m)),
        (f"tup<{elem_label},int>", lambda: Tup(elem(), INT)),
        (f"tup<int,{elem_label}>", lambda: Tup(INT, elem())),
        (f"dict<kstr,{elem_label}>", lambda: DictS(KSTR2, elem(), m)),
        (f"deque<{elem_label}>", lambda: DequeS(elem(), m)),
    ]
    return out


KSTR2 = Pool(str, ["k", "Z z"], label="kstr2")


def _ddict(val, factory):
    return DefaultDictS(KSTR2, val, val.py if factory == "own" else factory, 1)


def universe(tier="quick"):
    u = list(LEAVES) + list(CLASSES) + list(UNIONS)
    for lab, th in REPS:
        small = lab in ("udc", "union", "dc", "opt")
        for c in containers(lab, th, small):
            if c[0] == "opt<opt>":
                continue
            u.append(c)
    for lab, th in KEYS:
        u.append((f"dict<{lab},int>", lambda th=th: DictS(th(), INT, 1)))
        u.append((f"set<{lab}>", lambda th=th: SetS(th(), 2)))
        u.append((f"counter<{lab}>", lambda th=th: CounterS(th(), 1)))
    u += ABSTRACT
    u.append(("frozenset<kstr>", lambda: SetS(KSTR2, 2, frozen=True)))
    u.append(("frozenset<kpath>", lambda: SetS(PATH, 2, frozen=True)))
    u.append(("defaultdict<kstr,int>", lambda: DefaultDictS(KSTR2, INT, int, 1)))
    u.append(("defaultdict<kstr,list<int>>",
              lambda: DefaultDictS(KSTR2, ListS(INT, 1), list, 1)))
    for lab, val, fac in (
            ("opt<int>", lambda: Opt(INT), None), ("union", lambda: UnionS(INT, STR), None),
            ("newtype", lambda: NewT("NewInt", int, "int"), int), ("dc", inner, "own"),
            ("path", lambda: PATH, "own"), ("dict", lambda: DictS(KSTR2, INT, 1), dict),
            ("vtup", lambda: VarTup(INT, 1), tuple), ("kset", lambda: SetS(KSTR2, 1), set),
            ("defaultdict", lambda: DefaultDictS(KSTR2, INT, int, 1), collections.defaultdict)):
        u.append((f"defaultdict<kstr,{lab}>", lambda val=val, fac=fac: _ddict(val(), fac)))
    u.append(("dict<kint,list<path>>", lambda: DictS(KINT, ListS(PATH, 1), 1)))
    # depth 2
    outer = [
        ("list", lambda s: ListS(s, 1)), ("opt", lambda s: Opt(s)),
        ("tup", lambda s: Tup(s, INT)), ("dict", lambda s: DictS(KSTR2, s, 1)),
        ("vtup", lambda s: VarTup(s, 1)), ("deque", lambda s: DequeS(s, 1)),
    ]
    mids = [("list<int>", lambda: ListS(INT, 2)), ("dict<kstr,int>", lambda: DictS(KSTR2, INT, 1)),
            ("tup<str,path>", lambda: Tup(STR, PATH)), ("list<dc>", lambda: ListS(inner(), 1)),
            ("set<kenum>", lambda: SetS(ECOLOR, 1)), ("opt<dt>", lambda: Opt(DATETIME)),
            ("union", lambda: UnionS(INT, inner())),
            ("opt<dict>", lambda: Opt(DictS(KSTR2, INT, 1))),
            ("opt<list>", lambda: Opt(ListS(STR, 1))), ("opt<dc>", lambda: Opt(inner()))]
    for ol, of in outer:
        for ml, mf in mids:
            if ol == "opt" and ml.startswith("opt"):
                continue
            u.append((f"{ol}<{ml}>", lambda of=of, mf=mf: of(mf())))
    if tier == "thorough":
        leaves2 = [x for x in LEAVES if x[0] not in dict(REPS)]
        for lab, th in leaves2 + [("plain", plain), ("nested", nested)]:
            for c in containers(lab, th, True):
                u.append(c)
        for ol, of in outer:
            for ol2, of2 in outer:
                for ml, mf in mids:
                    if (ol2 == "opt" and ml.startswith("opt")) or (ol, ol2) == ("opt", "opt"):
                        continue
                    u.append((f"{ol}<{ol2}<{ml}>>",
                              lambda of=of, of2=of2, mf=mf: of(of2(mf()))))
    seen = {}
    for lab, th in u:
        seen.setdefault(lab, th)
    if tier == "core":
        for lab in CORE:
            assert lab in seen, lab
        return [(lab, seen[lab]) for lab in CORE]
    return list(seen.items())


# ---- combinations of field features: (label, opts, default, factory, wire key)
def feature_combos(tier="quick"):
    """Every set of up to two (thorough: three) compatible per-field features of an int field."""
    import itertools

    feats = {
        "kw_only": {"kw_only": True},
        "alias": {"alias": ["al1", "al2"]},
        "rename": {"rename": "reNamed"},
        "default": {},
        "factory": {},
        "skip_if_default": {"skip_if_default": True},
        "skip_if_false": {"skip_if_false": True},
        "serde_opts": {"repr": False, "metadata": {"x": 1}},
        "ser": {"serializer": _ident, "deserializer": _ident},
    }
    out = [("none", {}, MISSING, MISSING)]
    for n in (1, 2, 3) if tier == "thorough" else (1, 2):
        for combo in itertools.combinations(feats, n):
            if "default" in combo and "factory" in combo:
                continue
            if "skip_if_default" in combo and not ({"default", "factory"} & set(combo)):
                continue
            if "skip_if_default" in combo and "skip_if_false" in combo:
                continue
            opts = {}
            for c in combo:
                opts.update(feats[c])
            out.append(("+".join(combo), opts, 3 if "default" in combo else MISSING,
                        _five if "factory" in combo else MISSING))
    return out


def _ident(v):
    return v


def _five():
    return 5


# one representative of every kind of type and of every kind of position
CORE = ["int", "str", "bool", "float", "newtype", "any", "literal", "enum_Color", "enum_IE", "enum_FL",
        "enum_TE", "enum_NE", "sub_MyInt", "ss_Path", "ss_UUID", "ss_Decimal", "ss_IPv4Address",
        "dt_datetime", "dt_date", "dt_time", "dc", "dc_nested", "plain_dc", "rec", "u_prim", "u_mix",
        "u_list", "u_none", "list<str>", "opt<int>", "opt<dc>", "vtup<path>", "tup<dc,int>", "tup<int,enum>",
        "dict<kstr,datetime>", "dict<kint,int>", "dict<kenum,int>", "deque<path>", "list<opt>", "list<udc>",
        "opt<literal>", "set<kstr>", "set<kpath>", "counter<kstr>", "bare_list", "bare_dict",
        "bare_tuple", "seq<path>", "mapping<kstr,path>", "mutset<kpath>", "pep604union_none",
        "alias<list<path>>", "nested_dict", "frozenset<kpath>", "defaultdict<kstr,list<int>>",
        "list<list<dc>>", "dict<opt<dt>>", "opt<list<dc>>", "vtup<dict<kstr,int>>", "deque<opt<dc>>",
        "tup<opt<list>>"]
