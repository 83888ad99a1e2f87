"""C33  Names have no influence on one another."""
import datetime
import pathlib

from props.common import *

BOUNDS = ("classes with three fields of similar, reserved, foreign or generated-looking names in every order, under "
          "12 feature mixes; member classes, enums and union members named like identifiers of the generated code, "
          "builtins or the names of other types; dicts and tuples; field values symbolic")
ASSUMPTIONS = ["names starting with __serde and Python keywords are excluded (reserved)"]

NAMES = {
    "under": ("x", "_x", "x_"), "under2": ("__x", "x", "x__"), "case": ("x", "X", "xX"), "plural": ("type", "type_", "types"),
    "kvobj": ("k", "v", "obj"), "data": ("data", "res", "subres"), "cls": ("cls", "fake_dict", "errors"),
    "suffix": ("a_serializer", "a", "a_skip_if"), "suffix2": ("a", "a_skip_if_default", "a_deserializer"),
    "flat": ("flatten_extra", "x_flatten_data", "x"), "flat2": ("flatten_known_fields", "extra", "data_x"),
    "unicode": ("\u00e9", "e", "\u0451"), "opts": ("reuse_instances", "convert_sets", "skip_none"),
    "gen": ("serde_scope", "maybe_generic", "deserialize_numbers"), "builtin": ("int", "str", "list"),
    "mods": ("typing", "collections", "copy"), "dc": ("fields", "field", "dataclass"), "digits": ("a1", "a11", "a_1"),
    "prefix": ("a", "aa", "aaa"), "dictm": ("get", "items", "keys"),
}


def _c3(names, specs, opts=({}, {}, {}), defaults=(MISSING,) * 3, factories=(MISSING,) * 3, **kw):
    return make_class("Nm", [F(n, s, d, f, opts=o) for n, s, d, f, o in zip(names, specs, defaults, factories, opts)], **kw)


def _tag(i):
    return lambda v: [i, v]


def _untag(i):
    def f(v):
        if v[0] != i:
            raise ValueError("another field's data")
        return v[1]
    return f


def _is(i):
    return lambda v: bool(v == i)


def _three(inp):
    return [inp.int(f"v{i}") for i in range(3)]


def _wires(names, vals):
    return dict(zip(names, vals))


# feature -> (build(names), run(inp, names, env))
def _ser_b(ns):
    return _c3(ns, [INT] * 3, [{"serializer": _tag(i), "deserializer": _untag(i)} for i in range(3)])


def _ser(inp, ns, cls):
    from serde import from_dict, from_tuple, to_dict, to_tuple

    v = _three(inp)
    x = cls(*v)
    w = [[i, e] for i, e in enumerate(v)]
    check(same(to_dict(x), _wires(ns, w)) and same(to_tuple(x), tuple(w)), "each field's own serializer")
    check(same(from_dict(cls, _wires(ns, w)), x) and same(from_tuple(cls, tuple(w)), x), "each field's own deserializer")


def _skip_b(ns):
    return _c3(ns, [INT] * 3, [{"skip_if": _is(i)} for i in range(3)])


def _skip(inp, ns, cls):
    from serde import to_dict

    v = _three(inp)
    exp = {n: e for i, (n, e) in enumerate(zip(ns, v)) if not bool(e == i)}
    check(same(to_dict(cls(*v)), exp), "each field's own predicate")


def _skipdef_b(ns):
    return _c3(ns, [INT] * 3, [{"skip_if_default": True}, {"skip_if_false": True}, {"skip_if_default": True}],
               (7, 7, MISSING), (MISSING, MISSING, lambda: 8))


def _skipdef(inp, ns, cls):
    from serde import from_dict, to_dict

    v = _three(inp)
    keep = [not bool(v[0] == 7), not bool(v[1] == 0), not bool(v[2] == 8)]
    d = to_dict(cls(*v))
    check(same(d, {n: e for n, e, k in zip(ns, v, keep) if k}), "each field's own default")
    y = from_dict(cls, d)
    check(same([getattr(y, n) for n in ns], [v[0], v[1] if keep[1] else 7, v[2]]), "and back")


def _default_b(ns):
    return _c3(ns, [INT, ListS(INT), INT], [{}, {}, {"alias": ["al"]}], (1, MISSING, 3), (MISSING, lambda: [2], MISSING))


def _default(inp, ns, cls):
    from serde import from_dict

    v = [inp.int("v0"), [inp.int("v1")], inp.int("v2")]
    has = [inp.flag(f"has{i}") for i in range(3)]
    y = from_dict(cls, {n: e for n, e, h in zip(ns, v, has) if h})
    exp = [e if h else d for e, h, d in zip(v, has, (1, [2], 3))]
    check(same([getattr(y, n) for n in ns], exp), "each field's own default and data")


def _required_b(ns):
    return _c3(ns, [INT] * 3)


def _required(inp, ns, cls):
    from serde import from_dict

    v = _three(inp)
    miss = inp.choice("miss", 3)
    e = must_fail(lambda: from_dict(cls, {n: e for i, (n, e) in enumerate(zip(ns, v)) if i != miss}), "missing")
    check(f"'{ns[miss]}'" in str(e), "names the missing field")


def _alias_b(ns):
    return _c3(ns, [INT] * 3, [{"alias": [f"al{i}", "al"]} for i in range(3)])


def _alias(inp, ns, cls):
    from serde import from_dict

    v = _three(inp)
    keys = [inp.pick(f"key{i}", [n, f"al{i}"]) for i, n in enumerate(ns)]
    y = from_dict(cls, dict(zip(keys, v)))
    check(same([getattr(y, n) for n in ns], v), "each field's own aliases")


def _rotate_b(ns):
    return _c3(ns, [INT, STR, BOOL], [{"rename": ns[(i + 1) % 3]} for i in range(3)], deny_unknown_fields=True)


def _rotate(inp, ns, cls):
    from serde import from_dict, from_tuple, to_dict, to_tuple

    v = [inp.int("v0"), inp.str("v1"), inp.bool("v2")]
    x = cls(*v)
    d = to_dict(x)
    check(same(d, {ns[1]: v[0], ns[2]: v[1], ns[0]: v[2]}) and same(to_tuple(x), tuple(v)), "renamed to each other")
    check(same(from_dict(cls, d), x) and same(from_tuple(cls, tuple(v)), x), "and back")


def _types_b(ns):
    return _c3(ns, [PATH, DATETIME, SetS(ECOLOR, 1)])


def _types(inp, ns, cls):
    from serde import from_dict, from_tuple, to_dict, to_tuple

    specs = [PATH, DATETIME, SetS(ECOLOR, 1)]
    v = [s.draw(inp, f"v{i}") for i, s in enumerate(specs)]
    x = cls(*v)
    for reuse in (False, True):
        o = WireOpts(reuse_instances=reuse)
        d = to_dict(x, reuse_instances=reuse)
        check(same(d, {n: s.wire(e, o) for n, s, e in zip(ns, specs, v)}), "written")
        check(same(from_dict(cls, d, reuse_instances=reuse), x), "read")
        t = to_tuple(x, reuse_instances=reuse)
        check(same(from_tuple(cls, t, reuse_instances=reuse), x), "as tuples")


def _unions_b(ns):
    a, b = inner(), inner2()
    return (make_class("Nm", [F(n, INT, ann=t) for n, t in zip(ns, (
        typing.Union[a.cls, b.cls, int], typing.Union[str, a.cls], typing.Literal["a", 1]))]), a.cls, b.cls)


def _unions(inp, ns, env):
    from serde import from_dict, from_tuple, to_dict, to_tuple

    cls, a, b = env
    va, vb = a(inp.int("i"), inp.str("s")), b(inp.bool("f"), None)
    wa, wb = {"Inner": {"i": va.i, "s": va.s}}, {"Inner2": {"f": vb.f, "o": None}}
    n = inp.int("n")
    j, k = inp.choice("j", 3), inp.choice("k", 2)
    x = cls([va, vb, n][j], ["q", va][k], inp.pick("l", ["a", 1]))
    d = to_dict(x)
    check(same(d, _wires(ns, [[wa, wb, n][j], ["q", wa][k], getattr(x, ns[2])])), "written")
    check(same(from_dict(cls, d), x) and same(from_tuple(cls, to_tuple(x)), x), "read")


def _flat_b(ns):
    a = inner()
    return a.cls, [make_class("Nm", [
        F(ns[0], INT), F(ns[1], INT, ann=a.cls, opts={"flatten": True}),
        F(ns[2], INT, ann=dict[str, typing.Any], opts={"flatten": True})]), make_class("Nm", [
            F(ns[1], INT, ann=typing.Optional[a.cls], opts={"flatten": True}), F(ns[0], INT),
            F(ns[2], INT, ann=dict, opts={"flatten": True}, factory=dict)], deny_unknown_fields=True)]


def _flat(inp, ns, env):
    from serde import from_dict, to_dict

    a, clss = env
    cls = inp.pick("cls", clss)
    x = cls(**{ns[0]: inp.int("v"), ns[1]: a(inp.int("i"), inp.str("s")), ns[2]: {"other": inp.int("o")}})
    d = to_dict(x)
    c = getattr(x, ns[1])
    exp = {ns[0]: getattr(x, ns[0]), "i": c.i, "s": c.s, "other": getattr(x, ns[2])["other"]}
    check(len(d) == 4 and all([same(d[k], e) for k, e in exp.items()]), "inlined")
    check(same(from_dict(cls, d), x), "and back")


def _coerce_b(ns):
    import serde

    return _c3(ns, [INT, STR, BOOL], type_check=serde.coerce)


def _coerce(inp, ns, cls):
    from serde import from_dict, to_dict

    v, b = inp.int("v", 0, 9), inp.bool("b")
    y = from_dict(cls, _wires(ns, [b, v, v]))
    check(same([getattr(y, n) for n in ns], [int(b), str(v), bool(v)]), "each converted to its own type")
    must_fail(lambda: from_dict(cls, _wires(ns, ["x", v, v])), "inconvertible")
    x = cls(*[getattr(y, n) for n in ns])
    check(same(to_dict(x), _wires(ns, [int(b), str(v), bool(v)])), "written")


def _kw_b(ns):
    return _c3(ns, [INT, STR, INT], [{"kw_only": True}, {}, {"init": False, "skip": True}], (MISSING, MISSING, 4)), \
        _c3(ns, [INT, STR, INT], [{}, {"init": False}, {"kw_only": True}], (MISSING, "d", MISSING))


def _kw(inp, ns, env):
    from serde import from_dict, from_tuple, to_dict, to_tuple

    j = inp.choice("cls", 2)
    cls = env[j]
    a, b, c = inp.int("a"), inp.str("b"), inp.int("c")
    if j == 0:
        x = cls(b, **{ns[0]: a})
        exp, t = {ns[0]: a, ns[1]: b}, (a, b)
    else:
        x = cls(a, **{ns[2]: c})
        exp, t = {ns[0]: a, ns[1]: "d", ns[2]: c}, (a, "d", c)
    check(same(to_dict(x), exp) and same(to_tuple(x), t), "written")
    check(same(from_dict(cls, exp), x) and same(from_tuple(cls, t), x), "read")


MIXES = {"ser": (_ser_b, _ser), "skip": (_skip_b, _skip), "skipdef": (_skipdef_b, _skipdef),
         "default": (_default_b, _default), "required": (_required_b, _required), "alias": (_alias_b, _alias),
         "rotate": (_rotate_b, _rotate), "types": (_types_b, _types),
         "unions": (_unions_b, _unions), "flat": (_flat_b, _flat), "coerce": (_coerce_b, _coerce), "kw": (_kw_b, _kw)}


def _names(label, mix, tier="quick"):
    import itertools

    b, r = MIXES[mix]
    orders = list(itertools.permutations(NAMES[label]))[::1 if tier == "thorough" else 3]

    def build():
        return [(ns, b(ns)) for ns in orders]

    def run(inp, env):
        ns, e = inp.pick("order", env)
        r(inp, ns, e)
        inp.reach("end")

    return Harness(f"fields:{label}:{mix}" + (":all" if tier == "thorough" else ""), build, run)


# ---- names of the member classes
TYPENAMES = ["obj", "data", "cls", "res", "k", "v", "int", "str", "list", "dict", "typing", "collections", "copy", "Path",
             "datetime", "SerdeError", "UserError", "to_obj", "from_obj", "serde_scope", "fake_dict", "errors", "Any",
             "Literal", "isinstance", "set", "Exception", "enum_value", "coerce_object", "deserialize_enum", "Own",
             "is_instance", "class_serializers", "typename", "Optional", "Union", "type", "tuple", "repr", "ensure", "get_generic_arg",
             "is_bearable", "is_dataclass", "class_deserializers", "disabled", "TypeCheck", "Color", "float", "bool"]


def _types_named(tn):
    """A member class and an enum of that name, in every position."""
    def build():
        dc = DC(tn, [F("i", INT), F("p", PATH)])
        en = types_enum(tn)
        out = []
        for t in (dc.cls, en):
            mix = {"m": t, "l": list[t], "o": typing.Optional[t], "d": dict[str, t], "t": tuple[int, t],
                   "u": typing.Union[int, t], "p": pathlib.Path, "w": datetime.datetime}
            out.append((t, make_class("Own", [F(n, INT, ann=a) for n, a in mix.items()])))
        return out

    def run(inp, env):
        from serde import from_dict, from_tuple, to_dict, to_tuple

        j = inp.choice("kind", 2)
        t, cls = env[j]
        if j == 0:
            v = t(inp.int("i"), pathlib.Path("a"))
            w = {"i": v.i, "p": "a"}
            u = {tn: w}
        else:
            v = inp.pick("e", [t.A, t.B])
            w = u = v.value
        n, dt = inp.int("n"), datetime.datetime(2020, 1, 2)
        x = cls(v, [v], v, {"k": v}, (n, v), v, pathlib.Path("q"), dt)
        d = to_dict(x, reuse_instances=False)
        check(same(d, {"m": w, "l": [w], "o": w, "d": {"k": w}, "t": (n, w), "u": u, "p": "q",
                       "w": dt.isoformat()}), "written")
        check(same(from_dict(cls, d, reuse_instances=False), x), "read")
        check(same(from_tuple(cls, to_tuple(x, reuse_instances=False), reuse_instances=False), x), "as tuples")
        bad = {**d, "m": inp.pick("bad", [None, "nope", [1]])}
        must_fail(lambda: from_dict(cls, bad), "wrong data")
        inp.reach("end")

    return Harness(f"types:{tn}", build, run)


def types_enum(name):
    return enum.Enum(name, {"A": "a", "B": "b"}, module="symex_programs")


def _twins():
    """Two different member classes and enums of the same name in one class."""
    def build():
        a1 = make_class("Twin", [F("a", INT)])
        a2 = make_class("Twin", [F("b", STR)])
        e1 = enum.Enum("Te", {"A": "a"})
        e2 = enum.Enum("Te", {"B": "a", "C": 1})
        cls = make_class("TwH", [F("x", INT, ann=a1), F("y", INT, ann=list[a2]), F("e", INT, ann=e1),
                                 F("f", INT, ann=dict[str, e2]), F("u", INT, ann=typing.Union[e1, int]),
                                 F("w", INT, ann=typing.Union[int, e2, str]),
                                 F("o", INT, ann=typing.Optional[a2])])
        return a1, a2, e1, e2, cls

    def run(inp, env):
        from serde import from_dict, from_tuple, to_dict, to_tuple

        a1, a2, e1, e2, cls = env
        a, b = inp.int("a"), inp.str("b")
        f = inp.pick("f", [e2.B, e2.C])
        x = cls(a1(a), [a2(b)], e1.A, {"k": f}, inp.pick("u", [e1.A, 3]), inp.pick("w", [5, e2.B]), a2(b))
        d = to_dict(x)
        check(same(d, {"x": {"a": a}, "y": [{"b": b}], "e": "a", "f": {"k": f.value},
                       "u": "a" if x.u is e1.A else 3, "w": 5 if x.w == 5 else "a", "o": {"b": b}}), "written")
        check(same(from_dict(cls, d), x) and same(from_tuple(cls, to_tuple(x)), x), "read")
        inp.reach("end")

    return Harness("twins", build, run)


def _relatives(deco, tagging):
    """A class, its (un)decorated child and grandchild of the same name, nested and in unions."""
    def family(ns):
        import dataclasses

        import serde

        stack = lambda c: serde.serialize(serde.deserialize(c))  # noqa: E731
        kcats = lambda c: serde.deserialize(serde.serialize(c))  # noqa: E731
        d = {"serde": serde.serde, "dataclass": dataclasses.dataclass, "stack": stack, "kcats": kcats,
             "de": serde.deserialize, "se": serde.serialize}[deco]
        p = make_class(ns[0], [F("a", INT)], deco=None if deco in ("serde", "dataclass") else d)
        c = make_class(ns[1], [F("b", INT, 2)], bases=(p,), deco=d)
        g = make_class(ns[2], [F("c", Opt(STR), None)], bases=(c,), deco=serde.serde if deco == "dataclass" else d)
        kw = {"tagging": getattr(serde, tagging)} if tagging else {}
        hosts = []
        for first in (p, c, g):
            rest = [x for x in (p, c, g) if x is not first]
            hosts.append(make_class("RelHost", [F("x", INT, ann=first), F("l", INT, ann=list[rest[0]]),
                                                F("o", INT, ann=typing.Optional[rest[1]])]))
        u = make_class("RelUnion", [F("u", INT, ann=typing.Union[g, int, str])], **kw)
        return (p, c, g), hosts, u

    def build():
        return [family(("Rel", "Rel", "Rel")), family(("RelP", "RelC", "RelG"))]

    def run(inp, env):
        from serde import from_dict, from_tuple, to_dict, to_tuple

        a, b = inp.int("a"), inp.int("b")
        data = {"a": a, "b": b, "c": "t"}
        k, what = inp.choice("k", 3), inp.pick("what", ["direct", "field", "union", "wrong"])
        out = []
        for n in range(2):
            cs, hosts, u = env[n]
            mk = [lambda: cs[0](a), lambda: cs[1](a, b), lambda: cs[2](a, b, "t")]
            full = lambda o: (type(o) is cs[0] and (o.a,)) or (type(o) is cs[1] and (o.a, o.b)) or \
                (type(o) is cs[2] and (o.a, o.b, o.c))  # noqa: E731
            if what == "direct":
                x = mk[k]()
                d, t = to_dict(x), to_tuple(x)
                y, z = from_dict(cs[k], data), from_tuple(cs[k], t)
                out.append((d, t, full(y), full(z)))
            elif what == "wrong":
                r = attempt(lambda: from_dict(cs[k], {"a": "x", "b": b}))
                q = attempt(lambda: from_dict(hosts[k], {"x": {"b": b}, "l": [], "o": None}))
                out.append((r[0], q[0]))
            elif what == "field":
                r = [j for j in range(3) if j != k]
                x = hosts[k](mk[k](), [mk[r[0]]()], mk[r[1]]())
                d = to_dict(x)
                y = from_dict(hosts[k], d)
                out.append((d, to_tuple(x), full(y.x), full(y.l[0]), full(y.o)))
            else:
                x = u(mk[2]() if k else 3)
                d = to_dict(x)
                y = from_dict(u, d)
                e = d["u"]
                if k and tagging == "AdjacentTagging":
                    e = e["c"]
                elif k and tagging in (None, "ExternalTagging"):
                    e = list(e.values())[0]
                out.append((e, full(y.u) if k else y.u))
        check(same(out[0], out[1]), "relatives of the same name")
        if what == "direct":
            check(same(out[0][0], [{"a": a}, {"a": a, "b": b}, data][k]), "own fields")
        inp.reach("end")

    return Harness(f"relatives:{deco}:{tagging}", build, run)


def similar(mix):
    """Fields of similar names, for the checks of single features."""
    return [_names(l, mix) for l in ("under", "under2", "suffix", "suffix2", "case", "digits")]


def harnesses(tier):
    out = [_names(l, m, tier) for l in NAMES for m in MIXES]
    return out + [_types_named(t) for t in TYPENAMES] + [_twins()] + \
        [_relatives(d, t) for d in ("serde", "dataclass", "stack", "kcats", "de", "se") for t in (None, "Untagged")]
