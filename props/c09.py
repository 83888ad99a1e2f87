"""C09  A default is used exactly when the key is absent."""
from props.common import *
from props.c33 import similar
from symex.api import ReplayInputs
from symex.specs import WireOpts

BOUNDS = ("every type shape of the universe as a field with a default value or factory; all field "
          "feature combinations; which keys are present is a symbolic choice, the present values "
          "are unbounded symbolic leaves (finite pools where a C parser is involved)")
ASSUMPTIONS = ["from_tuple has no notion of an absent item and is covered by C02"]


def _wire(spec, v):
    return spec.wire(v, WireOpts(reuse_instances=False, convert_sets=True))


def _type(label, th):
    def build():
        spec = th()
        return spec, make_class("Host", [
            F("a", INT), F("v", spec, factory=lambda: spec.draw(ReplayInputs(), "d")),
            F("w", INT, default=5)])

    def run(inp, env):
        from serde import from_dict

        spec, cls = env
        data = {"a": inp.int("a")}
        has_v, has_w = inp.flag("has_v"), inp.flag("has_w")
        if has_v:
            v = spec.draw(inp, "v")
            data["v"] = _wire(spec, v)
        else:
            v = spec.draw(ReplayInputs(), "d")
        if has_w:
            data["w"] = inp.int("w")
        y = from_dict(cls, data)
        check(same(y.v, v), "value if the key is present, else the default")
        check(same(y.w, data["w"] if has_w else 5), "plain default")
        if not has_v:
            z = from_dict(list[cls], [data])[0]
            check(same(z.v, y.v), "default in a list")
            if type(y.v) in (list, dict, set, collections.deque, collections.Counter,
                             collections.defaultdict) or hasattr(y.v, "__dataclass_fields__"):
                check(z.v is not y.v, "the factory is called for every deserialization")
        inp.reach("present" if has_v else "absent")

    return Harness(f"type:{label}", build, run, reach=("present", "absent"))


def _required(label, th):
    """Missing required field: SerdeError naming it; Optional ones are None."""
    def build():
        spec = th()
        return spec, make_class("Req", [F("first", INT), F("wanted", spec)])

    def run(inp, env):
        from serde import from_dict

        spec, cls = env
        d = {"first": inp.int("first")} if inp.flag("has_first") else {"wanted": None}
        if inp.flag("extra"):
            d["other"] = 1
        ok, e = attempt(lambda: from_dict(cls, d))
        if "first" in d:
            opt = isinstance(spec, Opt) or (isinstance(spec, UnionS) and NONE in spec.members)
            if isinstance(spec, Alias):
                opt = False
            if opt:
                check(ok and e.wanted is None, "an absent Optional is None")
            else:
                check(not ok and "wanted" in str(e), "the error names the missing field")
        else:
            check(not ok and "first" in str(e), "the error names the missing field")
        inp.reach("end")

    return Harness(f"required:{label}", build, run)


def _falsy(label, th, falsy):
    """Falsy present values are kept although there is a (truthy) default."""
    def build():
        spec, default = th()
        kw = {"factory": (lambda: default)} if not isinstance(default, (int, str, float, bytes)) \
            and default is not None else {"default": default}
        return [make_class("Fa", [F("v", spec, **kw)]),
                make_class("Fb", [F("v", spec, opts={"alias": ["al"]}, **kw)]),
                make_class("Fc", [F("v", spec, opts={"rename": "rn"}, **kw)]),
                make_class("Fd", [F("v", spec, opts={"kw_only": True}, **kw)]),
                make_class("Fe", [F("v", spec, **kw)], rename_all="uppercase"),
                make_class("Ff", [F("v", spec, **kw)], type_check=_serde().disabled),
                ], ["v", "v", "rn", "v", "V", "v"]

    def run(inp, env):
        from serde import from_dict

        clss, keys = env
        i = inp.choice("cls", len(clss))
        key = keys[i]
        if i == 1 and inp.flag("alias"):
            key = "al"
        y = from_dict(clss[i], {key: falsy})
        check(same(y.v, falsy), "a present falsy value is kept")
        inp.reach("end")

    return Harness(f"falsy:{label}", build, run)


def _serde():
    import serde

    return serde


FALSY = {
    "int": (lambda: (INT, 7), 0), "str": (lambda: (STR, "x"), ""),
    "bool": (lambda: (BOOL, True), False), "float": (lambda: (FLOAT, 1.5), 0.0),
    "list": (lambda: (ListS(INT), [1]), []), "dict": (lambda: (DictS(KSTR2, INT), {"k": 1}), {}),
    "opt_int": (lambda: (Opt(INT), 3), None), "opt_str": (lambda: (Opt(STR), "x"), None),
    "opt_list": (lambda: (Opt(ListS(INT)), [1]), None),
    "opt_list2": (lambda: (Opt(ListS(INT)), [1]), []),
    "opt_zero": (lambda: (Opt(INT), 3), 0),
    "union": (lambda: (UnionS(INT, STR), 3), ""),
    "union_none": (lambda: (UnionS(INT, STR, NONE), 3), None),
    "any": (lambda: (ANY, 3), None),
    "literal": (lambda: (LitS("", "a", 0), "a"), ""),
    "opt_path": (lambda: (Opt(PATH), PATH.values[0]), None),
    "opt_enum": (lambda: (Opt(ECOLOR), ECOLOR.values[0]), None),
    "opt_pep604": (lambda: (Opt(INT, pep604=True), 3), None),
    "opt_dt": (lambda: (Opt(DATETIME), DATETIME.values[0]), None),
}


def _combo(combo):
    """Feature combinations: name(s) the field may be read from, default when absent."""
    _, o, default, factory = combo

    def build():
        return combo_class(combo), combo_class(combo, "ComboC", rename_all="camelcase")

    def run(inp, env):
        from serde import from_dict

        k = inp.choice("cls", 2)
        cls = env[k]
        names = [o.get("rename") or ("mM" if k else "m_m"), *o.get("alias", [])]
        an, zn = ("aA", "zZ") if k else ("a_a", "z_z")
        a = inp.int("a")
        d = {an: a}
        which = inp.choice("which", len(names) + 1)
        if which < len(names):
            m = inp.int("m")
            d[names[which]] = m
        has_z = inp.flag("has_z")
        has_default = default is not MISSING or factory is not MISSING
        if has_z:
            d[zn] = z = inp.int("z")
        else:
            z = 9
        ok, y = attempt(lambda: from_dict(cls, d))
        if (which == len(names) and not has_default) or (not has_z and not has_default):
            check(not ok, "missing required field")
            bad = names[0] if which == len(names) else zn
            check(bad in str(y) or "m_m" in str(y) and which == len(names),
                  "the error names the field")
            inp.reach("missing")
            return
        check(ok, "all required fields are there")
        exp = m if which < len(names) else (3 if default is not MISSING else 5)
        check(same((y.a_a, y.m_m, y.z_z), (a, exp, z)), "values or defaults")
        inp.reach("end")

    return Harness(f"combo:{combo[0]}", build, run)


def _modes():
    """coerce / disabled / nested / kw_only classes with defaults."""
    import serde

    def build():
        inner_ = make_class("InD", [F("x", INT, default=1), F("l", ListS(INT), factory=list)])
        out = []
        for tc in (serde.strict, serde.coerce, serde.disabled):
            out.append(make_class("Out", [F("i", INT, ann=inner_, factory=inner_), F("o", Opt(INT), default=4),
                                          F("j", INT, ann=list[inner_], factory=list)], type_check=tc))
        return out

    def run(inp, clss):
        from serde import from_dict

        cls = inp.pick("tc", clss)
        d, x, o = {}, 1, 4
        if inp.flag("i"):
            d["i"] = {}
            if inp.flag("x"):
                d["i"]["x"] = x = inp.int("x")
        if inp.flag("o"):
            d["o"] = o = inp.int("o") if inp.flag("some") else None
        if inp.flag("j"):
            d["j"] = [{}]
        y, z = from_dict(cls, d), from_dict(cls, d)
        check(same(y.i.x, x) and same(y.o, o), "nested defaults")
        check(len(y.j) == (1 if "j" in d else 0), "factory of a list")
        check(y.i is not z.i and y.i.l is not z.i.l and y.j is not z.j, "fresh factories")
        y.i.l.append(1)
        y.j.append(None)
        z = from_dict(cls, d)
        check(z.i.l == [] and len(z.j) == (1 if "j" in d else 0), "later results are unaffected")
        inp.reach("end")

    return Harness("modes", build, run)


def _skipped():
    def build():
        return make_class("Sk", [
            F("a", INT, default=1, opts={"skip": True}),
            F("b", ListS(INT), factory=lambda: [7], opts={"skip_deserializing": True}),
            F("c", INT, default=3)])

    def run(inp, cls):
        from serde import from_dict

        d = {}
        if inp.flag("a"):
            d["a"] = inp.int("a")
        if inp.flag("b"):
            d["b"] = [inp.int("b")]
        if inp.flag("c"):
            d["c"] = inp.int("c")
        y, z = from_dict(cls, d), from_dict(cls, d)
        check(same((y.a, y.b, y.c), (1, [7], d.get("c", 3))), "skipped fields take the default")
        check(y.b is not z.b, "fresh factory")
        inp.reach("end")

    return Harness("skipped", build, run)


def _inherited():
    def build():
        base = make_class("Ba", [F("x", INT, default=1), F("y", ListS(INT), factory=list)])
        sub = make_class("Su", [F("x", INT, default=2), F("z", INT, default=3)], bases=(base,))
        return base, sub

    def run(inp, env):
        from serde import from_dict

        base, sub = env
        d = {}
        if inp.flag("x"):
            d["x"] = inp.int("x")
        if inp.flag("z"):
            d["z"] = inp.int("z")
        y = from_dict(sub, d)
        check(same((y.x, y.y, y.z), (d.get("x", 2), [], d.get("z", 3))), "the subclass's defaults")
        check(same(from_dict(base, d).x, d.get("x", 1)), "the parent's default is unchanged")
        check(same(from_dict(sub, d).x, d.get("x", 2)), "and the subclass's after that")
        inp.reach("end")

    return Harness("inherited", build, run)


def harnesses(tier):
    u = universe(tier)
    out = [_type(l, t) for l, t in u] + [_required(l, t) for l, t in u if l not in ("any",)]
    out += [_falsy(l, t, f) for l, (t, f) in FALSY.items()]
    out += [_combo(c) for c in feature_combos(tier)]
    return out + [_modes(), _skipped(), _inherited()] + similar("default") + similar("required")
