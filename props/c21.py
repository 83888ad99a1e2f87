"""C21  Numbers are coerced to float exactly when the format front end says so."""
import dataclasses
import decimal

from props.common import *
from symex.formats import JSON, MSGPACK, TOML, YAML, Box

BOUNDS = ("float declared in 24 positions (fields, containers, keys' siblings, Optionals, containers in "
          "unions, generic arguments, flattened and transparent classes, aliases, NewType, subclasses), also "
          "with every feature combination and passed directly; every front end with coerce_numbers on, off "
          "and by default; leaf data: any float (symbolic), ints up to 2**53 from a pool (converted by C code), booleans, pools of "
          "numeric and other strings, None, containers")
ASSUMPTIONS = ["a value that is itself a member of a union is matched by its own type first (documented "
               "order of members), so a bare int is never turned into a float member"]

T = typing.TypeVar("T")
NF = typing.NewType("NF", float)


class MyF(float):
    pass


def _gen():
    @dataclasses.dataclass
    class Box_(typing.Generic[T]):
        g: T

    Box_.__module__ = "symex_programs"
    import serde

    return serde.serde(Box_)


def _child(**o):
    return make_class("Ch", [F("c", FLOAT)], **o)


POS = {
    "field": (lambda: float, lambda x: x, lambda v: v),
    "newtype": (lambda: NF, lambda x: x, lambda v: v),
    "list": (lambda: list[float], lambda x: [x], lambda v: v[0]),
    "dict": (lambda: dict[str, float], lambda x: {"k": x}, lambda v: v["k"]),
    "opt": (lambda: typing.Optional[float], lambda x: x, lambda v: v),
    "tup": (lambda: tuple[int, float], lambda x: [1, x], lambda v: v[1]),
    "vtup": (lambda: tuple[float, ...], lambda x: [x], lambda v: v[0]),
    "deque": (lambda: collections.deque[float], lambda x: [x], lambda v: v[0]),
    "ddict": (lambda: collections.defaultdict[str, float], lambda x: {"k": x}, lambda v: v["k"]),
    "ddictl": (lambda: collections.defaultdict[str, list[float]], lambda x: {"k": [x]}, lambda v: v["k"][0]),
    "listopt": (lambda: list[typing.Optional[float]], lambda x: [x], lambda v: v[0]),
    "optlist": (lambda: typing.Optional[list[float]], lambda x: [x], lambda v: v[0]),
    "dictlist": (lambda: dict[str, list[float]], lambda x: {"k": [x]}, lambda v: v["k"][0]),
    "listdict": (lambda: list[dict[str, float]], lambda x: [{"k": x}], lambda v: v[0]["k"]),
    "union": (lambda: typing.Union[list[float], str], lambda x: [x], lambda v: v[0]),
    "uniondc": (lambda: typing.Union[_child(), str], lambda x: {"Ch": {"c": x}}, lambda v: v.c),
    "alias": (lambda: typing.TypeAliasType("LF", list[float]), lambda x: [x], lambda v: v[0]),
    "alias2": (lambda: typing.TypeAliasType("AF", float), lambda x: x, lambda v: v),
    "dc": (lambda: _child(), lambda x: {"c": x}, lambda v: v.c),
    "listdc": (lambda: list[_child()], lambda x: [{"c": x}], lambda v: v[0].c),
    "trans": (lambda: _child(transparent=True), lambda x: x, lambda v: v.c),
    "gen": (lambda: _gen()[float], lambda x: {"g": x}, lambda v: v.g),
    "genlist": (lambda: _gen()[list[float]], lambda x: {"g": [x]}, lambda v: v.g[0]),
    "plain": (lambda: make_class("Pl", [F("c", FLOAT)], deco=dataclasses.dataclass),
              lambda x: {"c": x}, lambda v: v.c),
    "annseq": (lambda: collections.abc.Sequence[float], lambda x: [x], lambda v: v[0]),
    "mapping": (lambda: collections.abc.Mapping[str, float], lambda x: {"k": x}, lambda v: v["k"]),
}


def _de(v):
    from serde.de import Deserializer

    class De(Deserializer):
        @classmethod
        def deserialize(cls, data, **opts):
            return v

    return De


# (front end, coerce_numbers option) -> what it converts
MODES = {
    "json": ("json", {}, "num"), "json-on": ("json", {"coerce_numbers": True}, "num"),
    "json-off": ("json", {"coerce_numbers": False}, ""),
    "yaml": ("yaml", {}, "str"), "yaml-on": ("yaml", {"coerce_numbers": True}, "str"),
    "yaml-off": ("yaml", {"coerce_numbers": False}, ""),
    "toml": ("toml", {}, ""), "msgpack": ("msgpack", {}, ""), "pickle": ("pickle", {}, ""),
    "dict": ("dict", {}, ""),
}


def read(mode, cls, data):
    import importlib

    fmt, opts, _ = MODES[mode]
    if fmt == "dict":
        from serde import from_dict

        return from_dict(cls, data)
    m = importlib.import_module(f"serde.{fmt}")
    return getattr(m, f"from_{fmt}")(cls, "", de=_de(data), **opts)


NUMERIC = ["1.5", "1e-3", "-7", " 2 "]
OTHER = ["", "x1"]


def leaf(inp):
    k = inp.pick("kind", ["int", "float", "bool", "numstr", "str", "none", "list"])
    if k == "int":
        return k, inp.pick("i", [0, -7])
    if k == "float":
        return k, inp.float("f")
    if k == "bool":
        return k, inp.flag("b")
    if k == "numstr":
        return k, inp.pick("s", NUMERIC)
    if k == "str":
        return k, inp.pick("s", OTHER)
    return k, {"none": None, "list": [1.5], "dict": {"a": 1.5}}[k]


def expected(conv, k, x):
    """(accepted, value) of data x for a strictly checked float."""
    if k == "float":
        return True, x
    if conv and k == "int":
        return True, x  # compared with ==
    if conv == "str" and k == "numstr":
        return True, float(x)
    return False, None


def _where(pos, modes):
    ann, wr, get = POS[pos]

    def build():
        import serde

        t = ann()
        return t, make_class("Fc", [F("a", INT), F("x", INT, ann=t), F("z", INT)]), \
            make_class("Fd", [F("a", INT), F("x", INT, ann=t), F("z", INT)], type_check=serde.disabled)

    def run(inp, env):
        t, cls, dcls = env
        mode = inp.pick("mode", modes)
        conv = MODES[mode][2]
        k, x = leaf(inp)
        if k == "none":
            inp.assume("opt" not in pos)
        ok, exp = expected(conv, k, x)
        data = {"a": 1, "x": wr(x), "z": 2}
        how = inp.pick("how", ["strict", "disabled", "direct"])
        if pos in ("gen", "genlist"):  # type arguments are converted like types passed directly
            inp.assume(conv or k == "float")
        if how == "strict":
            got, y = attempt(lambda: read(mode, cls, data))
            check(got == ok, "accepted exactly when the front end coerces it")
            if ok:
                v = get(y.x)
                check(type(v) is float and (bool(v == exp) or same(v, exp)), "the number as float")
                check(same(y.a, 1) and same(y.z, 2), "other fields")
            else:
                inp.reach("rejected")
        elif how == "disabled":
            got, y = attempt(lambda: read(mode, dcls, data))
            if conv or (pos in ("gen", "genlist", "union", "uniondc", "dc", "listdc", "trans", "plain")):
                check(got == ok, "accepted exactly when the front end coerces it (disabled)")
                if ok:
                    v = get(y.x)
                    check(type(v) is float and (bool(v == exp) or same(v, exp)), "the number as float")
            else:
                check(got and same(get(y.x), x), "unchanged where nothing is coerced")
        elif how == "direct":
            inp.assume(conv or k == "float")
            got, y = attempt(lambda: read(mode, t, wr(x)))
            check(got == ok, "accepted exactly when the front end coerces it (direct)")
            if ok:
                v = get(y)
                check(type(v) is float and (bool(v == exp) or same(v, exp)), "the number as float (direct)")
        inp.reach("end")

    return Harness(f"where:{pos}", build, run, reach=("end", "rejected"))


def _else(label, th):
    """Coercion changes nothing about types without a float in them."""
    def build():
        import serde

        s = th()
        return s, [make_class("No", [F("a", INT), F("x", s)], type_check=getattr(serde, m))
                   for m in ("strict", "disabled")]

    def run(inp, env):
        s, clss = env
        mode = inp.pick("mode", ["json", "yaml"])
        from symex.junk import near

        w = near(inp, "w", s, sym=False)
        c = inp.choice("c", 3)
        cls = s.py if c == 2 else clss[c]
        data = w if c == 2 else {"a": 1, "x": w}
        k1, v1 = outcome(lambda: read(mode, cls, data))
        k2, v2 = outcome(lambda: read(mode + "-off", cls, data))
        check(k1 == k2, "the same outcome")
        if k1 == "ok":
            check(same(v1, v2), "the same value")
        inp.reach("end")

    return Harness(f"else:{label}", build, run)


def _mixed():
    """Every number of one object at once: floats become floats, nothing else does."""
    def build():
        ch = make_class("Mc", [F("f", FLOAT), F("i", INT)])
        u = typing.Union[int, float]
        return make_class("Mx", [
            F("f", FLOAT), F("i", INT), F("any", INT, ann=typing.Any), F("u", INT, ann=u),
            F("lf", INT, ann=list[float]), F("li", INT, ann=list[int]), F("bare", INT, ann=list),
            F("dk", INT, ann=dict[int, float]), F("ch", INT, ann=ch), F("dec", DECIMAL),
            F("cnt", INT, ann=collections.Counter[str]), F("lit", INT, ann=typing.Literal[1, "1"]),
            F("opt", INT, ann=typing.Optional[list[typing.Optional[float]]], default=None),
            F("df", INT, ann=float, default=3.5)])

    def run(inp, cls):
        mode = inp.pick("mode", ["json", "yaml"])
        n = [inp.pick(f"n{i}", [0, -5]) if i in (0, 2) else i + 10 for i in range(4)]
        data = {"f": n[0], "i": n[1], "any": n[2], "u": n[3], "lf": [n[1], n[2]], "li": [n[0], n[3]],
                "bare": [n[0]], "dk": {"5": n[3]}, "ch": {"f": n[2], "i": n[3]}, "dec": "1", "cnt": {"k": 2},
                "lit": 1, "opt": [None, n[1]]}
        y = read(mode, cls, data)

        def fl(v, e):
            check(type(v) is float and bool(v == e), "a float")

        def un(v, e):
            check(type(v) is int and bool(v == e), "an int")

        fl(y.f, n[0]), un(y.i, n[1]), un(y.any, n[2]), un(y.u, n[3])
        check(len(y.lf) == 2 and len(y.li) == 2, "lengths")
        fl(y.lf[0], n[1]), fl(y.lf[1], n[2]), un(y.li[0], n[0]), un(y.li[1], n[3]), un(y.bare[0], n[0])
        check(list(y.dk) == [5] and type(list(y.dk)[0]) is int, "int keys")
        fl(y.dk[5], n[3]), fl(y.ch.f, n[2]), un(y.ch.i, n[3])
        check(same(y.dec, decimal.Decimal("1")) and same(y.cnt, collections.Counter(k=2)) and same(y.lit, 1)
              and same(y.df, 3.5), "others")
        check(y.opt[0] is None, "None")
        fl(y.opt[1], n[1])
        inp.reach("end")

    return Harness("mixed", build, run)


def _combo(combo):
    label, o = combo[:2]

    def build():
        c = (label, o, 0.5 if combo[2] is not MISSING else MISSING,
             (lambda: 0.5) if combo[3] is not MISSING else MISSING)
        return [combo_class(c, spec=FLOAT), combo_class(c, spec=FLOAT, rename_all="camelcase"),
                combo_class(c, spec=FLOAT, deny_unknown_fields=True)]

    def run(inp, env):
        j = inp.choice("cls", 3)
        cls = env[j]
        mode = inp.pick("mode", ["json", "yaml", "dict"])
        conv = MODES[mode][2]
        k, x = leaf(inp)
        names = {"a_a": "a_a", "z_z": "z_z", "m_m": o.get("rename", "m_m")}
        if j == 1:
            names = {n: o["rename"] if n == "m_m" and "rename" in o else n[0] + n[2].upper() for n in names}
        key = names["m_m"]
        if "alias" in o:
            key = inp.pick("key", [key] + list(o["alias"]))
        ok, exp = expected(conv, k, x)
        if "deserializer" in o:  # gets the plain value, whatever it is
            ok, exp = k == "float", x
        got, y = attempt(lambda: read(mode, cls, {names["a_a"]: 1, key: x, names["z_z"]: 2}))
        check(got == ok, "accepted exactly when the front end coerces it")
        if ok:
            check(type(y.m_m) is float and (bool(y.m_m == exp) or same(y.m_m, exp)), "the number as float")
            check(same(y.a_a, 1) and same(y.z_z, 2), "other fields")
        inp.reach("end")

    return Harness(f"combo:{label}", build, run)


def _shapes():
    """Layouts in which the float travels through another class."""
    def build():
        import serde

        ch = _child()
        par = make_class("Par", [F("p", FLOAT)])
        sub = make_class("Sub", [F("s", FLOAT)], bases=(par,))
        flat = make_class("Flat", [F("a", INT), F("b", INT, ann=ch, opts={"flatten": True})])
        optflat = make_class("OFlat", [F("a", INT), F("b", INT, ann=typing.Optional[ch], default=None,
                                                      opts={"flatten": True})])
        out = {"sub": (sub, lambda x: {"p": x, "s": x}, lambda y: (y.p, y.s)),
               "flat": (flat, lambda x: {"a": 1, "c": x}, lambda y: (y.b.c,)),
               "optflat": (optflat, lambda x: {"a": 1, "c": x}, lambda y: (y.b.c,))}
        for tag in ("ExternalTagging", "InternalTagging('t')", "AdjacentTagging('t', 'c')", "Untagged"):
            t = eval(tag, {**vars(serde), "ExternalTagging": serde.ExternalTagging})
            w = {"E": lambda d: {"Ch": d}, "I": lambda d: {"t": "Ch", **d},
                 "A": lambda d: {"t": "Ch", "c": d}, "U": lambda d: d}[tag[0]]
            cls = make_class("Tg", [F("u", INT, ann=typing.Union[ch, list[float], int])], tagging=t)
            out[tag] = (cls, lambda x, w=w: {"u": w({"c": x})}, lambda y: (y.u.c,))
            out[tag + "-list"] = (cls, lambda x: {"u": [x, x]}, lambda y: tuple(y.u))
        return out

    def run(inp, env):
        n = inp.pick("n", env)
        cls, wr, get = env[n]
        mode = inp.pick("mode", ["json", "json-off", "yaml", "yaml-off", "msgpack", "dict"])
        conv = MODES[mode][2]
        k, x = leaf(inp)
        inp.assume(k != "none" or n != "optflat")
        ok, exp = expected(conv, k, x)
        got, y = attempt(lambda: read(mode, cls, wr(x)))
        check(got == ok, "accepted exactly when the front end coerces it")
        if ok:
            for v in get(y):
                check(type(v) is float and (bool(v == exp) or same(v, exp)), "the number as float")
        inp.reach("end")

    return Harness("shapes", build, run)


def _callable():
    """The numbers function is called exactly with the data of the floats."""
    def build():
        return make_class("Cl", [F("a", FLOAT), F("i", INT), F("l", INT, ann=list[float]),
                                 F("d", INT, ann=dict[str, float]), F("n", INT, ann=NF)]), \
            make_class("Cs", [F("s", INT, ann=MyF)])

    def run(inp, env):
        from serde import from_dict, from_tuple

        cls, sub = env
        seen = []
        n = [inp.int(f"n{i}") for i in range(5)]

        def num(v):
            seen.append(v)
            return 0.25

        data = {"a": n[0], "i": n[1], "l": [n[2]], "d": {"k": n[3]}, "n": n[4]}
        if inp.flag("tuple"):
            y = from_tuple(cls, (n[0], n[1], [n[2]], {"k": n[3]}, n[4]), deserialize_numbers=num)
        else:
            y = from_dict(cls, data, deserialize_numbers=num)
        check(same(seen, [n[0], n[2], n[3], n[4]]), "called once for every float, with its data")
        check(same(y, cls(0.25, n[1], [0.25], {"k": 0.25}, 0.25)), "its results are used")
        s = from_dict(sub, {"s": n[0]}, deserialize_numbers=num)
        check(type(s.s) is MyF and s.s == 0.25, "subclasses of float")
        inp.reach("end")

    return Harness("callable", build, run)


def harnesses(tier):
    modes = list(MODES)
    if tier == "quick":
        modes = ["json", "json-off", "yaml", "yaml-off", "toml", "msgpack", "dict"]
    out = [_where(p, modes) for p in POS] + [_mixed(), _shapes(), _callable()]
    out += [_combo(c) for c in feature_combos(tier)]
    skip = () if tier == "thorough" else ("u_mix", "list<udc>", "dc_nested", "tup<opt<list>>", "tup<dc,int>",
                                          "tup<int,enum>", "u_list", "deque<opt<dc>>")
    out += [_else(l, t) for l, t in universe("core" if tier == "quick" else tier)
            if "float" not in l and l != "nested_dict" and l not in skip]
    return out
