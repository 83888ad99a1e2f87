"""C10  Field skip options omit exactly the fields they describe."""
from props.common import *
from props.c33 import similar

BOUNDS = ("every type shape of the universe under every skip option, with unbounded symbolic leaf "
          "values (finite pools where values are hashed or parsed by C code); all pairs of skip "
          "options with the other field features; skip_if predicates are symbolic decisions over "
          "the value")
ASSUMPTIONS = ["skip_if/skip_if_false predicates are applied to types whose truth value is the "
               "same before and after serialization"]


def _default_of(spec, inp):
    return spec.draw(inp, "d")


def _if_default(label, th):
    """skip_if_default by value: the default is a concrete draw, the value symbolic."""
    def build():
        from symex.api import ReplayInputs

        spec = th()
        mk = lambda: spec.draw(ReplayInputs(), "d")  # noqa: E731
        return spec, mk, make_class("SkD", [
            F("a", INT), F("v", spec, factory=mk, opts={"skip_if_default": True}), F("z", INT, default=1)])

    def run(inp, env):
        from serde import from_dict, to_dict

        spec, mk, cls = env
        x = cls(a=inp.int("a"), v=spec.draw(inp, "v"), z=inp.int("z"))
        d = to_dict(x)
        eq = bool(x.v == mk())
        check(("v" in d) == (not eq), "skipped exactly when equal to the default")
        check(same(d["a"], x.a) and same(d["z"], x.z) and len(d) == (2 if eq else 3),
              "the other fields are unaffected")
        if not eq:
            check(same(d["v"], spec.wire(x.v, W)), "written as usual")
        check(same(from_dict(cls, {"a": x.a}).v, mk()), "absent: the default")
        inp.reach("skipped" if eq else "kept")

    return Harness(f"default:{label}", build, run, reach=("kept",) if label in NEVER else
                   ("skipped", "kept") if label not in SINGLE else ("skipped",))


SINGLE = {"sub_MyFloat", "ss_PurePosixPath", "ss_PureWindowsPath", "ss_IPv4Address",
          "ss_IPv6Address", "ss_IPv4Network", "ss_IPv6Network", "ss_IPv4Interface",
          "ss_IPv6Interface"}
NEVER = set()


def _skip(label, th):
    """skip, skip_serializing, skip_deserializing for every type."""
    def build():
        from symex.api import ReplayInputs

        spec = th()
        mk = lambda: spec.draw(ReplayInputs(), "d")  # noqa: E731
        return spec, mk, make_class("Sk", [
            F("a", INT),
            F("s", spec, factory=mk, opts={"skip": True}),
            F("ss", spec, factory=mk, opts={"skip_serializing": True}),
            F("sd", spec, factory=mk, opts={"skip_deserializing": True}),
            F("z", INT, default=1)])

    def run(inp, env):
        from serde import from_dict, to_dict

        spec, mk, cls = env
        v, dv = spec.draw(inp, "v"), mk()
        which = inp.pick("which", ["s", "ss", "sd"])
        x = cls(a=inp.int("a"), z=inp.int("z"))
        setattr(x, which, v)
        d = to_dict(x)
        check("s" not in d and "ss" not in d, "skipped fields are not written")
        check(same(d["a"], x.a) and same(d["z"], x.z) and len(d) == 3, "other fields are")
        check(same(d["sd"], spec.wire(x.sd, W)), "skip_deserializing fields are written")
        wire = spec.wire(v, WireOpts(reuse_instances=False, convert_sets=True))
        y = from_dict(cls, {"a": x.a, which: wire, "z": x.z})
        check(same(y.s, dv) and same(y.sd, dv), "skipped fields take their default")
        check(same(y.ss, v if which == "ss" else dv), "skip_serializing fields are read")
        check(same((y.a, y.z), (x.a, x.z)), "other fields are read as usual")
        y = from_dict(cls, {"a": x.a, "s": object(), "sd": object()})
        check(same(y.s, dv) and same(y.sd, dv), "whatever the input has for them")
        inp.reach("end")

    return Harness(f"skip:{label}", build, run)


def _none(label, th):
    """skip_if_none on Optional[T], alone and with skip_if_false / skip_if_default."""
    def build():
        spec = Opt(th())
        other = {"i": F("i", INT), "j": F("j", Opt(STR), default=None)}
        mk = lambda n, o, dv: make_class(n, [other["i"], F("v", spec, opts=o, **dv), other["j"]])  # noqa
        return spec, [
            (mk("N1", {"skip_if_none": True}, {"default": None}), lambda v: v is None),
            (mk("N2", {"skip_if_none": False}, {"default": None}), lambda v: False),
            (mk("N3", {"skip_if_none": True, "skip_if_default": True},
                {"factory": lambda: None}), lambda v: v is None),
            (mk("N4", {"skip_if": lambda v: True}, {"default": None}), lambda v: True),
            (mk("N5", {"skip_if": lambda v: False, "skip_if_none": True}, {"default": None}),
             lambda v: False),
            (mk("N6", {"skip_if_none": True, "kw_only": True}, {"default": None}),
             lambda v: v is None),
        ]

    def run(inp, env):
        from serde import to_dict

        spec, cs = env
        cls, exp = inp.pick("cls", cs)
        x = cls(i=inp.int("i"), v=spec.draw(inp, "v"), j=inp.str("j") if inp.flag("j?") else None)
        d = to_dict(x)
        check(("v" in d) != exp(x.v), "skipped exactly when None")
        check(same(d["i"], x.i) and same(d["j"], x.j) and len(d) == 3 - exp(x.v), "others")
        if "v" in d:
            check(same(d["v"], spec.wire(x.v, W)), "written as usual")
        inp.reach("end")

    return Harness(f"none:{label}", build, run)


def _if_default_none(label, th):
    """Optional[T] with a default that is not None: only the default is skipped."""
    def build():
        from symex.api import ReplayInputs

        inner_ = th()
        spec = Opt(inner_)
        mk = lambda: inner_.draw(ReplayInputs(), "d")  # noqa: E731
        return spec, mk, [
            make_class("OD1", [F("v", spec, factory=mk, opts={"skip_if_default": True})]),
            make_class("OD2", [F("v", spec, factory=mk, opts={"skip_if_default": True,
                                                             "skip_if_none": True})]),
            make_class("OD3", [F("v", spec, factory=mk, opts={"skip_if_default": True})],
                       skip_if_none=True),
        ]

    def run(inp, env):
        from serde import to_dict

        spec, mk, clss = env
        k = inp.choice("cls", 3)
        x = clss[k](spec.draw(inp, "v"))
        d = to_dict(x)
        exp = (x.v is not None and bool(x.v == mk())) or (k > 0 and x.v is None)
        check(("v" in d) != exp, "each option skips what it describes")
        sn = to_dict(x, skip_none=True)
        check(("v" in sn) != (exp or x.v is None), "skip_none too")
        inp.reach("end")

    return Harness(f"optdefault:{label}", build, run)


FALSE = {
    "int": lambda: INT, "str": lambda: STR, "bool": lambda: BOOL, "float": lambda: FLOAT,
    "list": lambda: ListS(INT), "liststr": lambda: ListS(STR), "dict": lambda: DictS(KSTR2, INT),
    "tuple": lambda: VarTup(INT), "deque": lambda: DequeS(INT), "opt_int": lambda: Opt(INT),
    "opt_list": lambda: Opt(ListS(INT)), "set": lambda: SetS(KSTR2), "counter": lambda: CounterS(KSTR2),
    "union": lambda: UnionS(INT, STR), "literal": lambda: LitS("", "a", 0, 2),
    "enum": lambda: ECOLOR, "any": lambda: ANY, "opt_dc": lambda: Opt(inner()),
    "deque_dc": lambda: DequeS(inner(), 1), "defaultdict": lambda: DefaultDictS(KSTR2, INT, int, 1),
    "dict_dc": lambda: DictS(KSTR2, inner(), 1), "date": lambda: DATE, "path": lambda: PATH,
}


def _false(label, th):
    """skip_if_false and skip_if with the equivalent predicate."""
    def build():
        spec = th()
        out = []
        for i, o in enumerate([
                {"skip_if_false": True}, {"skip_if": lambda v: not v},
                {"skip_if_false": True, "kw_only": True}, {"skip_if_false": True, "rename": "v"},
                {"skip_if_false": True, "alias": ["q"]},
                {"skip_if_false": False}, {"skip_if": lambda v: bool(v)},
                {"skip_if_false": True, "skip_if": lambda v: False},
                {"skip_if_false": True, "skip_if_none": True}]):
            out.append((make_class(f"SF{i}", [F("a", INT), F("v", spec, opts=o),
                                              F("z", INT, opts={"skip_if": lambda v: v > 3})]), i))
        return spec, out

    def run(inp, env):
        from serde import to_dict

        spec, clss = env
        cls, i = inp.pick("cls", clss)
        x = cls(a=inp.int("a"), v=spec.draw(inp, "v"), z=inp.int("z"))
        t = bool(x.v)
        exp = {5: False, 6: t, 7: False}.get(i, not t)
        d = to_dict(x)
        check(("v" in d) != exp, "skipped exactly when the value is false")
        check(("z" in d) != bool(x.z > 3), "skip_if of another field is independent")
        check(same(d["a"], x.a), "other fields")
        if "v" in d:
            check(same(d["v"], spec.wire(x.v, W)), "as usual")
        inp.reach("end")

    return Harness(f"false:{label}", build, run)


def _combo(combo):
    _, o, default, factory = combo

    def build():
        extra = [("serialize", {"skip_serializing": True}), ("both", {"skip": True}),
                 ("if", {"skip_if": lambda v: v > 10}), ("none", {"skip_if_none": True})]
        if default is not MISSING or factory is not MISSING:
            extra.append(("de", {"skip_deserializing": True}))
        else:
            extra.pop(1)
        out = []
        for n, e in extra:
            if "skip_if" in e and ("skip_if_default" in o or "skip_if_false" in o):
                continue
            c = (combo[0], {**o, **e}, default, factory)
            out += [(n, combo_class(c, f"Co_{n}")),
                    (n, combo_class(c, f"CoC_{n}", rename_all="camelcase"))]
        return out

    def run(inp, clss):
        from serde import from_dict, to_dict

        i = inp.choice("cls", len(clss))
        n, cls = clss[i]
        x = cls(a_a=inp.int("a"), m_m=inp.int("m"), z_z=inp.int("z"))
        key = o.get("rename") or ("mM" if i % 2 else "m_m")
        ka, kz = ("aA", "zZ") if i % 2 else ("a_a", "z_z")
        dv = 3 if default is not MISSING else 5
        skipped = n in ("serialize", "both") or (n == "if" and bool(x.m_m > 10)) or \
            ("skip_if_default" in o and n != "if" and bool(x.m_m == dv)) or \
            ("skip_if_false" in o and n != "if" and bool(x.m_m == 0))
        exp = {ka: x.a_a, key: x.m_m, kz: x.z_z}
        if skipped:
            del exp[key]
        d = to_dict(x)
        check(same(d, exp), "exactly the described field is omitted")
        check(same(list(d), list(exp)), "declaration order")
        y = from_dict(cls, {ka: x.a_a, key: x.m_m, kz: x.z_z})
        check(same((y.a_a, y.m_m, y.z_z),
                   (x.a_a, dv if n in ("both", "de") else x.m_m, x.z_z)), "read back")
        if o.get("alias") and n in ("both", "de"):
            y = from_dict(cls, {ka: x.a_a, "al1": x.m_m, kz: x.z_z})
            check(same(y.m_m, dv), "skipped fields ignore their aliases as well")
        inp.reach("end")

    return Harness(f"combo:{combo[0]}", build, run)


def _nested():
    """Options apply to instances in containers, unions and parents alike."""
    def build():
        inn = make_class("NIn", [F("x", INT), F("y", INT, default=4, opts={"skip_if_default": True}),
                                 F("s", INT, default=2, opts={"skip": True}),
                                 F("o", Opt(INT), default=None, opts={"skip_if_none": True})])
        host = make_class("NHost", [
            F("l", INT, ann=list[inn]), F("d", INT, ann=dict[str, inn]),
            F("o", INT, ann=typing.Optional[inn]), F("t", INT, ann=tuple[inn, int]),
            F("u", INT, ann=typing.Union[inn, int]), F("f", INT, ann=inn, opts={"flatten": True})])
        sub = make_class("NSub", [F("w", INT, default=0)], bases=(inn,))
        return inn, host, sub

    def run(inp, env):
        from serde import to_dict

        inn, host, sub = env
        mk = lambda n: inn(inp.int(n + "x"), inp.int(n + "y"), 9,  # noqa: E731
                           inp.int(n + "o") if inp.flag(n + "?") else None)

        def exp(v):
            r = {"x": v.x}
            if not v.y == 4:
                r["y"] = v.y
            if v.o is not None:
                r["o"] = v.o
            return r
        v, pos = mk("v"), inp.choice("pos", 7)
        dv = inn(0, 0)
        if pos == 6:
            s = sub(x=v.x, y=v.y, o=v.o, w=inp.int("w"))
            e = exp(v)
            e["w"] = s.w
            check(same(to_dict(s), e), "inherited options")
        else:
            vs = [dv] * 6
            vs[pos] = v
            h = host([vs[0]], {"k": vs[1]}, vs[2], (vs[3], 1), vs[4], vs[5])
            e = {"l": [exp(vs[0])], "d": {"k": exp(vs[1])}, "o": exp(vs[2]),
                 "t": (exp(vs[3]), 1), "u": {"NIn": exp(vs[4])}}
            for k, val in exp(vs[5]).items():
                e.setdefault(k, val)
            check(same(to_dict(h), e), "in every position")
            check(same(to_dict([v, {"k": v}]), [exp(v), {"k": exp(v)}]), "directly")
        inp.reach("end")

    return Harness("nested", build, run)


def harnesses(tier):
    u = universe(tier)
    opt_ok = [(l, t) for l, t in u if not l.startswith(("opt<", "pep604<", "u_none", "pep604union"))
              and "alias" not in l and l not in ("any",)]
    few = opt_ok if tier == "thorough" else [x for x in opt_ok if "<" not in x[0] or
                                             x[0].count("<") == 1 and "int" not in x[0]]
    out = [_if_default(l, t) for l, t in u] + [_skip(l, t) for l, t in u]
    out += [_none(l, t) for l, t in few] + [_if_default_none(l, t) for l, t in few]
    out += [_false(l, t) for l, t in FALSE.items()]
    out += [_combo(c) for c in feature_combos(tier)]
    return out + [_nested()] + similar("skip") + similar("skipdef")
