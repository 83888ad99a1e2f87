"""C19  Literal fields accept exactly their listed values."""
from props.common import *
from symex.formats import FORMATS, Inexpressible

BOUNDS = ("Literal types over strings (also with quotes, braces, newlines, spaces and dashes), "
          "integers, booleans, bytes and None in every mix; every container position, also passed directly, "
          "every type-check mode and feature combination; data: any int, bool, float and any string "
          "up to 6 characters (symbolic), None, containers; any pair of literals of similar names in one class")
ASSUMPTIONS = ["Literals of enum members: data of the members' own value types and text; no floats or booleans equal to them"]

SETS = {
    "a": ("a",), "strs": ("a", "b", ""), "one": (1,), "ints": (0, 1, -3, 2**70), "true": (True,),
    "bools": (True, False), "1True": (1, True), "True1": (True, 1), "1s1": (1, "1"), "FalseTrue": ("True", False, 0),
    "none": (None, "a"), "quotes": ("it's", 'q"', "\\", "\n"), "jinja": ("{{x}}", "{%", "{a}", "%s"),
    "names": ("a-b", "a b", "a_b"), "bytes": (b"x", "x"), "uni": ("é", "ß"), "nonelit": (None,),
}


def listed(values, d):
    return any([type(d) is type(v) and bool(d == v) for v in values])


def _data(inp, n, values):
    k = inp.pick(n + ".kind", ["listed", "int", "bool", "str", "float", "other"])
    if k == "listed":
        return inp.pick(n + ".v", values)
    if k == "int":
        return inp.int(n + ".i")
    if k == "bool":
        return inp.bool(n + ".b")
    if k == "float":
        return inp.float(n + ".f")
    if k == "str":
        return inp.str(n + ".s", 6)
    return inp.pick(n + ".o", [None, [], ["a"], {}, {"a": 1}, b"x", (1,)])


POS = {
    "field": (lambda t: t, lambda v: v, lambda w: w),
    "list": (lambda t: list[t], lambda v: [v], lambda w: [w]),
    "dict": (lambda t: dict[str, t], lambda v: {"k": v}, lambda w: {"k": w}),
    "opt": (lambda t: typing.Optional[t], lambda v: v, lambda w: w),
    "tup": (lambda t: tuple[int, t], lambda v: (1, v), lambda w: (1, w)),
    "vtup": (lambda t: tuple[t, ...], lambda v: (v,), lambda w: (w,)),
    "deque": (lambda t: collections.deque[t], lambda v: collections.deque([v]), lambda w: [w]),
    "listopt": (lambda t: list[typing.Optional[t]], lambda v: [v], lambda w: [w]),
    "dictlist": (lambda t: dict[str, list[t]], lambda v: {"k": [v]}, lambda w: {"k": [w]}),
    "alias": (lambda t: typing.TypeAliasType("TA", t), lambda v: v, lambda w: w),
    "union": (lambda t: typing.Union[t, list[str]], lambda v: v, lambda w: w),
    "unionfirst": (lambda t: typing.Union[dict[str, int], t], lambda v: v, lambda w: w),
    "annotated": (lambda t: typing.Optional[list[t]], lambda v: [v], lambda w: [w]),
}


def _accept(label, values, pos):
    ann, mk, wire = POS[pos]

    def build():
        import serde

        t = ann(typing.Literal[values])
        return t, [make_class("L", [F("a", INT), F("x", INT, ann=t)], type_check=m)
                   for m in (serde.strict, serde.coerce, serde.disabled)]

    def run(inp, env):
        from serde import from_dict, from_tuple, to_dict, to_tuple

        t, clss = env
        d = _data(inp, "d", values)
        how = inp.choice("how", 4)
        if pos.startswith("union"):
            inp.assume(not isinstance(d, (list, dict, tuple)))
        ok = listed(values, d) or (d is None and "opt" in pos)
        if how < 3:
            cls = clss[how]
            got, y = attempt(lambda: from_dict(cls, {"a": 1, "x": wire(d)}))
            check(got == ok and (not ok or same(y.x, mk(d))), "read by name")
            got, z = attempt(lambda: from_tuple(cls, (1, wire(d))))
            check(got == ok and (not ok or same(z.x, mk(d))), "read by position")
            if ok:
                check(same(to_dict(y), {"a": 1, "x": wire(d)}), "written by name")
                check(same(to_tuple(y), (1, wire(d))), "written by position")
        else:
            got, y = attempt(lambda: from_dict(t, wire(d)))
            check(got == ok and (not ok or same(y, mk(d))), "directly")
            got, y = attempt(lambda: from_tuple(t, wire(d)))
            check(got == ok and (not ok or same(y, mk(d))), "directly by position")
            if ok:
                check(same(to_dict(mk(d), c=t), wire(d)), "written directly")
        inp.reach("ok" if ok else "fail")

    return Harness(f"accept:{label}:{pos}", build, run, reach=("ok", "fail"))


def _hashed(label, values):
    """As dict keys and set elements."""
    def build():
        t = typing.Literal[values]
        return [("set", make_class("Ls", [F("x", INT, ann=set[t])])),
                ("frozenset", make_class("Lf", [F("x", INT, ann=frozenset[t])])),
                ("key", make_class("Lk", [F("x", INT, ann=dict[t, int])])),
                ("dset", set[t]), ("dkey", dict[t, int])]

    def run(inp, env):
        from serde import from_dict

        pos, t = inp.pick("pos", env)
        d = inp.pick("d", [*values, "zz", 1, 0, True, None, "", 2.5, "a"])
        ok = listed(values, d)
        data = {d: 1} if "key" in pos else [d]
        got, y = attempt(lambda: from_dict(t, data) if pos[0] == "d" else from_dict(t, {"x": data}).x)
        exp = {d: 1} if "key" in pos else frozenset([d]) if pos == "frozenset" else {d}
        check(got == ok and (not ok or same(y, exp)), "accepted exactly when listed")
        inp.reach("end")

    return Harness(f"hashed:{label}", build, run)


SIMILAR = [("a-b",), ("a_b",), ("a b",), ("a", "b"), ("b", "a"), ("a__b",), (1,), ("1",), (True,), ("True",), (-1,),
           ("-1",), ("_1",), ("",), ("_",), (None,), ("None",), ("a", 1), ("a", "1"), ("A",), (0,), (False,)]


def _several(i):
    """Two literals in one class, in a class and its base, in a class and its child."""
    def build():
        out = []
        a = typing.Literal[SIMILAR[i]]
        for w in SIMILAR:
            b = typing.Literal[w]
            base = make_class("B0", [F("x", INT, ann=a)])
            child = make_class("Ch", [F("c", INT, ann=b)])
            out.append((w, [
                make_class("Two", [F("x", INT, ann=a), F("y", INT, ann=b)]),
                make_class("Two", [F("y", INT, ann=b)], bases=(base,)),
                make_class("Two", [F("x", INT, ann=list[a]), F("y", INT, ann=typing.Optional[b])]),
                make_class("Two", [F("x", INT, ann=a), F("c", INT, ann=child)]),
            ]))
        return out

    def run(inp, env):
        from serde import from_dict

        w, clss = inp.pick("w", env)
        k = inp.choice("k", 4)
        d = inp.pick("d", [*SIMILAR[i], *w, 1, "1", True])
        first = inp.flag("first")
        x, y = (d, w[0]) if first else (SIMILAR[i][0], d)
        data = {"x": [x] if k == 2 else x}
        data.update({"c": {"c": y}} if k == 3 else {"y": y})
        ok = listed(SIMILAR[i], x) and (listed(w, y) or (k == 2 and y is None))
        got, r = attempt(lambda: from_dict(clss[k], data))
        check(got == ok, "accepted exactly when listed for that field")
        if got:
            check(same(r.x, data["x"]) and same(r.c.c if k == 3 else r.y, y), "values")
        inp.reach("end")

    return Harness(f"several:{i}", build, run)


def _union(i):
    """Two literals in one union: the values of both are accepted; in the strict order with str."""
    def build():
        a = typing.Literal[SIMILAR[i]]
        return [(w, make_class("U", [F("u", INT, ann=typing.Union[a, typing.Literal[w], list[int]]),
                                     F("l", INT, ann=list[typing.Union[typing.Literal[w], a, list[int]]])]))
                for w in SIMILAR if w != SIMILAR[i]]

    def run(inp, env):
        from serde import from_dict, to_dict

        w, cls = inp.pick("w", env)
        d = inp.pick("d", [*SIMILAR[i], *w, 1, "1", True, 2.5, "zzz"])
        got, r = attempt(lambda: from_dict(cls, {"u": d, "l": [d]}))
        check(got == (listed(SIMILAR[i], d) or listed(w, d)), "accepted exactly when listed")
        if got:
            check(same(r.u, d) and same(r.l, [d]), "value")
            check(same(to_dict(r), {"u": d, "l": [d]}), "written")
        inp.reach("end")

    return Harness(f"unions:{i}", build, run)


class LStr(str, enum.Enum):
    A = "a"
    B = "b"


class LInt(enum.IntEnum):
    X = 1
    Y = 2


def _equalmembers():
    """Members which equal a listed value (of another type) are not taken for it when written."""
    cases = [(typing.Union[typing.Literal["a", 1], LStr], ["a", 1, LStr.A, LStr.B]),
             (typing.Union[LStr, typing.Literal["a", 1]], ["a", 1, LStr.A, LStr.B]),
             (typing.Union[typing.Literal[1], LInt], [1, LInt.X, LInt.Y]),
             (typing.Union[typing.Literal[1, "x"], bool, LInt], [1, "x", True, False, LInt.X]),
             (typing.Union[typing.Literal[1, "a"], float, LInt, LStr], [1, "a", 1.0, LInt.X, LStr.A])]

    def build():
        return [(t, vs, make_class("Eqm", [F("u", INT, ann=t), F("l", INT, ann=list[t]), F("z", INT)]))
                for t, vs in cases]

    def run(inp, env):
        from serde import to_dict, to_tuple

        t, vs, cls = inp.pick("case", env)
        v, w, z = inp.pick("v", vs), inp.pick("w", vs), inp.int("z")
        pv, pw = [e.value if isinstance(e, enum.Enum) else e for e in (v, w)]
        x = cls(v, [w], z)
        check(same(to_dict(x), {"u": pv, "l": [pw], "z": z}), "written by value")
        check(same(to_tuple(x), (pv, [pw], z)), "written by value in tuples")
        check(same(to_dict(v, t), pv), "directly")
        inp.reach("end")

    return Harness("equalmembers", build, run)


class LColor(enum.Enum):
    R = "r"
    G = "g"


class LTup(enum.Enum):
    P = (1, "x")
    Q = (2, "y")


class LNest(enum.Enum):
    N = LColor.G
    M = LInt.Y


class LFlag(enum.IntFlag):
    A = 1
    B = 2


ENUMLITS = {
    "one": (LColor.R,), "two": (LColor.G, LColor.R), "mix": (LColor.R, "g", 5), "str": (LStr.A, "b"),
    "int": (LInt.Y, "x"), "tup": (LTup.P, "p"), "nest": (LNest.N, LNest.M), "flag": (LFlag.A | LFlag.B, LFlag.A),
    "several": (LColor.R, LInt.X, "q"), "none": (None, LColor.G),
}


def _inner(v):
    return _inner(v.value) if isinstance(v, enum.Enum) else v


def _enumlit(label, values, pos):
    """Enum members are listed by their value."""
    ann, mk, wire = POS[pos]

    def build():
        import serde

        t = ann(typing.Literal[values])
        return t, [make_class("L", [F("a", INT), F("x", INT, ann=t)], type_check=m)
                   for m in (serde.strict, serde.coerce, serde.disabled)]

    def run(inp, env):
        from serde import from_dict, from_tuple, to_dict, to_tuple

        t, clss = env
        d = inp.pick("d", [*values, *map(_inner, values), "g", "b", 2, 4, 7, "zz", [1, "x"], [2, "y"], None, {}])
        if pos.startswith("union"):
            inp.assume(not isinstance(d, (list, dict, tuple)))
        exp = [v for v in values if type(v) is type(d) and v == d] or \
            [v for v in values if isinstance(v, enum.Enum) and
             (_inner(v) == d or (isinstance(d, list) and _inner(v) == tuple(d)))]
        ok = bool(exp) or (d is None and "opt" in pos)
        v = exp[0] if exp else None
        how = inp.choice("how", 4)
        if how < 3:
            cls = clss[how]
            got, y = attempt(lambda: from_dict(cls, {"a": 1, "x": wire(d)}))
            check(got == ok and (not ok or same(y.x, mk(v))), "read by name")
            got, z = attempt(lambda: from_tuple(cls, (1, wire(d))))
            check(got == ok and (not ok or same(z.x, mk(v))), "read by position")
            if ok:
                check(same(to_dict(y), {"a": 1, "x": wire(_inner(v))}), "written by name")
                check(same(to_tuple(y), (1, wire(_inner(v)))), "written by position")
        else:
            got, y = attempt(lambda: from_dict(t, wire(d)))
            check(got == ok and (not ok or same(y, mk(v))), "directly")
            if ok:
                check(same(to_dict(mk(v), c=t), wire(_inner(v))), "written directly")
        inp.reach("ok" if ok else "fail")

    return Harness(f"enumlit:{label}:{pos}", build, run, reach=("ok", "fail"))


def _enumlit_fmt(fmt):
    def build():
        return [(s, make_class("Lf", [F("x", INT, ann=typing.Literal[s]), F("l", INT, ann=list[typing.Literal[s]]),
                                      F("d", INT, ann=dict[typing.Literal[s], int])]))
                for n, s in ENUMLITS.items() if n not in ("tup", "none")]

    def run(inp, env):
        s, cls = inp.pick("s", env)
        to, frm = fmt.api()
        v = inp.pick("v", [v for v in s if type(v) is not int])
        x = cls(v, [v], {v: 1})
        try:
            box = to(x, se=fmt.se())
        except Inexpressible:
            return
        check(same(frm(cls, box, de=fmt.de()), x), "round trip")
        if not inp.symbolic and fmt.real_conforms({"x": _inner(v), "l": [_inner(v)], "d": {_inner(v): 1}}):
            check(same(frm(cls, to(x)), x), "real round trip")
        inp.reach("end")

    return Harness(f"enumlit_fmt:{fmt.name}", build, run)


def _combo(combo):
    label, o = combo[:2]

    def build():
        return combo_class(combo, spec=LitS(3, 5, "a", True))

    def run(inp, cls):
        from serde import from_dict

        key = o.get("rename", "m_m")
        d = _data(inp, "d", (3, 5, "a", True))
        inp.assume(d is not None)
        for k in [key] + (["al2"] if "alias" in o else []):
            got, y = attempt(lambda: from_dict(cls, {"a_a": 1, k: d, "z_z": 2}))
            ok = listed((3, 5, "a", True), d)
            if "serializer" in o and isinstance(d, (int, float, bool)):
                return  # (custom deserializer: the type check of the class decides, C06)
            check(got == ok and (not ok or same(y.m_m, d)), "accepted exactly when listed")
        inp.reach("end")

    return Harness(f"combo:{label}", build, run)


def _fmt(fmt):
    def build():
        return [(s, make_class("Lf", [F("x", INT, ann=typing.Literal[s]), F("l", INT, ann=list[typing.Literal[s]])]))
                for s in SETS.values() if b"x" not in s]

    def run(inp, env):
        s, cls = inp.pick("s", env)
        to, frm = fmt.api()
        v = inp.pick("v", s)
        x = cls(v, [v])
        try:
            box = to(x, se=fmt.se())
        except Inexpressible:
            return
        check(same(frm(cls, box, de=fmt.de()), x), "round trip")
        if not inp.symbolic and fmt.real_conforms({"x": v, "l": [v]}):
            check(same(frm(cls, to(x)), x), "real round trip")
        inp.reach("end")

    return Harness(f"fmt:{fmt.name}", build, run)


def harnesses(tier):
    return [_equalmembers()] + _all(tier)


def _all(tier):
    out = []
    core = ("strs", "ints", "1True", "FalseTrue", "none", "quotes")
    for l, s in SETS.items():
        for p in POS:
            if tier == "quick" and l not in core and p not in ("field", "list", "union"):
                continue
            out.append(_accept(l, s, p))
        out.append(_hashed(l, s))
    out += [f(i) for i in range(len(SIMILAR)) for f in (_several, _union)]
    out += [_enumlit(l, s, p) for l, s in ENUMLITS.items() for p in POS]
    out += [_enumlit_fmt(f) for f in FORMATS]
    out += [_combo(c) for c in feature_combos(tier)]
    return out + [_fmt(f) for f in FORMATS]
