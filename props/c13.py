"""C13  Aliases are accepted on input only, first match wins."""
from props.common import *
from props.c33 import similar
from symex.api import ReplayInputs

BOUNDS = ("all universe types with two aliases; the presence of the name and of each alias is "
          "symbolic, the key itself is an unbounded symbolic string, values are symbolic")
ASSUMPTIONS = []
LAX = WireOpts(reuse_instances=False, convert_sets=True)


def _type(label, th):
    """Every subset of {name, alias1, alias2} present, each with its own value."""
    def build():
        spec = th()
        mk = lambda: spec.draw(ReplayInputs(), "d")  # noqa: E731
        al = {"alias": ["al_1", "al2"]}
        return spec, mk, [
            (make_class("Al0", [F("a", INT), F("m_m", spec, opts=al), F("z", INT)]), "m_m"),
            (make_class("Al1", [F("a", INT), F("m_m", spec, opts={**al, "rename": "re"}), F("z", INT)]), "re"),
            (make_class("Al2", [F("a", INT), F("m_m", spec, opts=al, factory=mk), F("z", INT, default=0)],
                        rename_all="camelcase"), "mM")]

    def run(inp, env):
        from serde import from_dict, from_tuple, to_dict, to_tuple

        spec, mk, clss = env
        i = inp.choice("cls", 3)
        cls, name = clss[i]
        names = [name, "al_1", "al2"]
        first = inp.choice("first", 4)  # 3: none
        v = spec.draw(inp, "v")
        dv = mk()
        d = {"a": inp.int("a"), "z": inp.int("z")}
        for j in (2, 1, 0):  # later names may be present as well; insertion order is irrelevant
            if j == first:
                d[names[j]] = spec.wire(v, LAX)
            elif j > first and inp.flag(f"also{j}"):
                d[names[j]] = spec.wire(dv, LAX)
        ok, y = attempt(lambda: from_dict(cls, d, reuse_instances=False))
        opt = isinstance(spec, Opt) or isinstance(spec, UnionS) and NONE in spec.members
        if first < 3:
            check(ok and same(y.m_m, v), "the first name present is read")
        elif i == 2:
            check(ok and same(y.m_m, dv), "no name present: the default")
        elif opt:
            check(ok and y.m_m is None, "no name present: None")
        else:
            check(not ok, "no name present: an error")
            inp.reach("missing")
            return
        check(same((y.a, y.z), (d["a"], d["z"])), "other fields")
        w = to_dict(y, reuse_instances=False, convert_sets=True)
        check(same(list(w), ["a", name, "z"]), "aliases are never written")
        check(same(from_tuple(cls, to_tuple(y)), y), "aliases do not matter for tuples")
        inp.reach("end")

    return Harness(f"type:{label}", build, run)


def _key(kind, case):
    """For all strings k: {k: v} is read iff k is the name or an alias."""
    def build():
        kw = {"default": 7} if kind == "default" else {}
        spec = {"opt": Opt(INT), "optlist": Opt(ListS(INT, 1)), "list": ListS(INT, 1),
                "optunion": UnionS(INT, STR, NONE), "dc": None}.get(kind, INT)
        if kind == "dc":
            spec = inner()
        opts = {"alias": ["x-y", 'q"', "al\\1"]}
        if case == "rename":
            opts["rename"] = "Nm"
        return spec, make_class("Ak", [F("my_f", spec, opts=opts, **kw)],
                                **({"rename_all": "camelcase"} if case == "camel" else {}))

    def run(inp, env):
        from serde import from_dict

        spec, cls = env
        name = {"rename": "Nm", "camel": "myF"}.get(case, "my_f")
        v, k = spec.draw(inp, "v"), inp.str("key")
        ok, y = attempt(lambda: from_dict(cls, inp.dict([(k, spec.wire(v))])))
        if any([bool(k == n) for n in (name, "x-y", 'q"', "al\\1")]):
            check(ok and same(y.my_f, v), "a documented name is read")
            inp.reach("hit")
        else:
            if kind.startswith("opt"):
                check(ok and y.my_f is None, "others are not")
            elif kind == "default":
                check(ok and same(y.my_f, 7), "others are not")
            else:
                check(not ok, "others are not")
            inp.reach("miss")

    return Harness(f"key:{kind}:{case}", build, run, reach=("hit", "miss"))


def _deny():
    def build():
        return [make_class("Ad", [F("a_b", INT, opts={"alias": ["c"]}), F("d", INT, default=2,
                                                                       opts={"alias": ["e", "f"]})],
                           deny_unknown_fields=True, rename_all=r) for r in (None, "camelcase")]

    def run(inp, clss):
        from serde import from_dict

        i = inp.choice("cls", 2)
        k, v, w = inp.str("k"), inp.int("v"), inp.int("w")
        an = ["a_b", "aB"][i]
        first = inp.pick("n", [an, "c"])
        inp.assume(k != first)
        ok, y = attempt(lambda: from_dict(clss[i], inp.dict([(first, v), (k, w)])))
        if any([bool(k == n) for n in ("d", "e", "f")]):
            check(ok and same((y.a_b, y.d), (v, w)), "aliases are known names")
        elif bool(k == an) or bool(k == "c"):
            check(ok and same(y.a_b, w if bool(k == an) else v) and y.d == 2, "the name wins")
        else:
            check(not ok, "anything else is unknown")
        inp.reach("end")

    return Harness("deny", build, run)


def _nested():
    """Aliases inside nested, flattened, inherited, generic and union classes."""
    def build():
        inn = make_class("AIn", [F("x", INT, opts={"alias": ["ax"]}),
                                 F("y", Opt(STR), default=None, opts={"alias": ["ay"], "rename": "yy"})])
        sub = make_class("ASub", [F("w", INT, default=1, opts={"alias": ["x2"]})], bases=())
        T = typing.TypeVar("T")
        gen = make_class("AGen", [F("t", INT, ann=T, opts={"alias": ["at"]})],
                         bases=(typing.Generic[T],))
        return inn, sub, gen, make_class("AHost", [
            F("l", INT, ann=list[inn], opts={"alias": ["ll"]}),
            F("f", INT, ann=inn, opts={"flatten": True}),
            F("u", INT, ann=typing.Union[int, inn], opts={"alias": ["au"]}),
            F("g", INT, ann=gen[int], opts={"alias": ["ag"]}),
            F("o", INT, ann=typing.Optional[inn], opts={"alias": ["ao"]})])

    def run(inp, env):
        from serde import from_dict, to_dict

        inn, sub, gen, host = env
        v, s = inp.int("v"), inp.str("s")
        nx, ny = inp.pick("nx", ["x", "ax"]), inp.pick("ny", ["yy", "ay"])
        w = {nx: v, ny: s}
        n = {k: inp.pick(k, [k, a]) for k, a in (("l", "ll"), ("u", "au"), ("g", "ag"), ("o", "ao"))}
        d = {n["l"]: [w], **w, n["u"]: {"AIn": w}, n["g"]: {inp.pick("t", ["t", "at"]): v}, n["o"]: w}
        i = inn(v, s)
        x = host([i], i, i, gen(v), i)
        check(same(from_dict(host, d), x), "aliases at every depth")
        wi = {"x": v, "yy": s}
        check(same(to_dict(x), {"l": [wi], **wi, "u": {"AIn": wi}, "g": {"t": v}, "o": wi}),
              "never written")
        inp.reach("end")

    return Harness("nested", build, run)


def _combo(combo):
    _, o, default, factory = combo
    if "alias" not in o:
        return None

    def build():
        return [combo_class(combo, f"Ac{i}", rename_all=r, type_check=t) for i, (r, t) in enumerate(
            [(None, _s().strict), ("camelcase", _s().strict), (None, _s().coerce),
             (None, _s().disabled)])]

    def run(inp, clss):
        from serde import from_dict, to_dict

        i = inp.choice("cls", 4)
        names = [o.get("rename") or ("mM" if i == 1 else "m_m"), "al1", "al2"]
        ka, kz = ("aA", "zZ") if i == 1 else ("a_a", "z_z")
        a, z, m = inp.int("a"), inp.int("z"), inp.int("m")
        n = inp.pick("n", names)
        y = from_dict(clss[i], {ka: a, n: m, kz: z})
        check(same((y.a_a, y.m_m, y.z_z), (a, m, z)), "read")
        d = to_dict(y)
        check("al1" not in d and "al2" not in d, "never written")
        inp.reach("end")

    return Harness(f"combo:{combo[0]}", build, run)


def _s():
    import serde

    return serde


def harnesses(tier):
    out = [_type(l, t) for l, t in universe(tier)]
    out += [_key(k, c) for k in ("int", "default", "opt", "optlist", "list", "optunion", "dc")
            for c in ("plain", "rename", "camel")]
    out += [h for h in map(_combo, feature_combos("thorough")) if h]
    return out + [_deny(), _nested()] + similar("alias")
