"""C12  Renaming maps every field to exactly one documented key in both directions."""
import casefy

from props.common import *
from props.c33 import similar

BOUNDS = ("all cases of python-casefy x a set of identifier shapes; all universe types under rename "
          "and rename_all; the key a value arrives under is an unbounded symbolic string; symbolic "
          "values")
ASSUMPTIONS = ["the case conversion itself is python-casefy's (documented dependency)"]

CASES = ["alphanumcase", "camelcase", "capitalcase", "constcase", "kebabcase", "lowercase",
         "pascalcase", "sentencecase", "separatorcase", "snakecase", "titlecase", "uppercase",
         "upperkebabcase"]
CASES = [c for c in CASES if c != "separatorcase"]  # takes a second argument
NAMES = ["a", "int_field", "intField", "x1_y2", "_lead", "trail_", "HTTPServer", "ABC", "class_",
         "very_long_field_name"]


def _conv(case, name):
    return getattr(casefy, case)(name)


def _case(case, tagging=None):
    """Every identifier shape under one case: written keys, read keys, original names rejected."""
    def build():
        taken, names = set(), []
        for n in NAMES:
            if _conv(case, n) and _conv(case, n) not in taken:
                taken.add(_conv(case, n))
                names.append(n)
        deny = make_class("CaseD", [F(n, INT) for n in names], rename_all=case,
                          deny_unknown_fields=True)
        lax = make_class("CaseL", [F(n, INT, default=-1) for n in names], rename_all=case)
        return names, deny, lax

    def run(inp, env):
        from serde import from_dict, from_tuple, to_dict, to_tuple

        names, deny, lax = env
        i = inp.choice("field", len(names))
        n = names[i]
        v = inp.int("v")
        vals = {m: k for k, m in enumerate(names)}
        vals[n] = v
        x = deny(**vals)
        exp = {_conv(case, m): vals[m] for m in names}
        d = to_dict(x)
        check(same(d, exp) and same(list(d), list(exp)), "written under the converted names")
        check(same(from_dict(deny, exp), x), "read from them")
        check(same(to_tuple(x), tuple(vals.values())), "tuples are positional")
        check(same(from_tuple(deny, to_tuple(x)), x), "tuples are positional")
        k = inp.str("key")
        y = from_dict(lax, inp.dict([(k, v)]))
        for m in names:
            check(same(getattr(y, m), v if bool(k == _conv(case, m)) else -1),
                  "a key is read by exactly the field it names")
        inp.reach("end")

    return Harness(f"case:{case}", build, run)


def _exact_key(label, opts, clsopts, key, kind):
    """For all strings k: {k: v} is accepted iff k is the documented key."""
    def build():
        kw = {"default": 7} if kind == "default" else {}
        spec = {"opt": Opt(INT), "list": ListS(INT, 1), "union": UnionS(INT, STR),
                "optunion": UnionS(INT, STR, NONE)}.get(kind, INT)
        return spec, make_class("Ek", [F("my_field", spec, opts=opts, **kw)], **clsopts)

    def run(inp, env):
        from serde import from_dict, to_dict

        spec, cls = env
        v = spec.draw(inp, "v")
        k = inp.str("key")
        ok, y = attempt(lambda: from_dict(cls, inp.dict([(k, spec.wire(v))])))
        if bool(k == key):
            check(ok and same(y.my_field, v), "the documented key is read")
            check(same(to_dict(y), {key: spec.wire(v)}), "and written")
            inp.reach("hit")
        else:
            if kind in ("opt", "optunion"):
                check(ok and y.my_field is None, "other keys are not")
            elif kind == "default":
                check(ok and same(y.my_field, 7), "other keys are not")
            else:
                check(not ok and key in str(y), "other keys are not; the error names the wire key")
            inp.reach("miss")

    return Harness(f"key:{label}:{kind}", build, run, reach=("hit", "miss"))


KEYCFG = [
    ("plain", {}, {}, "my_field"), ("rename", {"rename": "Other"}, {}, "Other"),
    ("all", {}, {"rename_all": "camelcase"}, "myField"),
    ("both", {"rename": "Other"}, {"rename_all": "camelcase"}, "Other"),
    ("rename_same", {"rename": "my_field"}, {"rename_all": "kebabcase"}, "my_field"),
    ("kw", {"kw_only": True}, {"rename_all": "uppercase"}, "MY_FIELD"),
    ("quote", {"rename": 'a"b'}, {}, 'a"b'), ("squote", {"rename": "a'b"}, {}, "a'b"),
    ("bslash", {"rename": "a\\nb"}, {}, "a\\nb"), ("nl", {"rename": "a\nb"}, {}, "a\nb"),
    ("jinja", {"rename": "{{x}}{%y%}{z}"}, {}, "{{x}}{%y%}{z}"), ("space", {"rename": "a b.c"}, {}, "a b.c"),
    ("unicode", {"rename": "\u00e9\U0001f600"}, {}, "\u00e9\U0001f600"),
    ("reserved", {"rename": "class"}, {}, "class"), ("dunder", {"rename": "__k"}, {}, "__k"),
    ("ser", {"rename": "Q", "serializer": lambda v: v, "deserializer": lambda v: v}, {}, "Q"),
]


def _type(label, th):
    """Renaming works for every field type, and its original name is not read."""
    def build():
        spec = th()
        return spec, make_class("Rt", [F("m_m", spec, opts={"rename": "Re"}), F("n_n", spec),
                                       F("z_z", INT, default=1)], rename_all="camelcase")

    def run(inp, env):
        from serde import from_dict, from_tuple, to_dict, to_tuple

        spec, cls = env
        v = spec.draw(inp, "v")
        which = inp.flag("which")
        from symex.api import ReplayInputs

        dv = spec.draw(ReplayInputs(), "d")
        x = cls(dv, v, inp.int("z")) if which else cls(v, dv, inp.int("z"))
        w = WireOpts(reuse_instances=False, convert_sets=True)
        d = to_dict(x, reuse_instances=False, convert_sets=True)
        exp = {"Re": spec.wire(x.m_m, w), "nN": spec.wire(x.n_n, w), "zZ": x.z_z}
        check(same(list(d), list(exp)) and same(d["zZ"], x.z_z), "the documented keys in order")
        check(same(d["Re"], exp["Re"]) and same(d["nN"], exp["nN"]), "the documented keys' values")
        check(same(from_dict(cls, d, reuse_instances=False), x), "round trip")
        check(same(from_tuple(cls, to_tuple(x)), x), "tuple round trip")
        ok, y = attempt(lambda: from_dict(cls, {"m_m": d["Re"], "mM": d["Re"], "n_n": d["nN"],
                                                "z_z": 3, "nN": d["nN"]}))
        opt = isinstance(spec, Opt) or isinstance(spec, UnionS) and NONE in spec.members
        if opt:
            check(ok and y.m_m is None and same(y.z_z, 1), "other spellings are not read")
        else:
            check(not ok and "Re" in str(y), "other spellings are not read")
        inp.reach("end")

    return Harness(f"type:{label}", build, run)


def _swap():
    """Renames that permute names: each field keeps its own value."""
    def build():
        return [make_class("Sw", [F("a", INT, opts={"rename": "b"}), F("b", INT, opts={"rename": "a"}),
                                  F("c", INT)]),
                make_class("Sw2", [F("a", INT, default=1, opts={"rename": "b"}),
                                   F("b", INT, default=2, opts={"rename": "c"}),
                                   F("c", INT, default=3, opts={"rename": "a"})]),
                make_class("Sw3", [F("a", Opt(INT), opts={"rename": "b"}),
                                   F("b", Opt(INT), opts={"rename": "a"}), F("c", Opt(INT))])]

    def run(inp, clss):
        from serde import from_dict, to_dict

        k = inp.choice("cls", 3)
        cls = clss[k]
        x = cls(inp.int("a"), inp.int("b"), inp.int("c"))
        exp = [{"b": x.a, "a": x.b, "c": x.c}, {"b": x.a, "c": x.b, "a": x.c},
               {"b": x.a, "a": x.b, "c": x.c}][k]
        check(same(to_dict(x), exp), "permuted names")
        check(same(from_dict(cls, exp), x), "permuted names are read back")
        inp.reach("end")

    return Harness("swap", build, run)


def _nested():
    """rename_all applies per class: nested, inherited, flattened, in unions, generics."""
    def build():
        inn = make_class("RIn", [F("in_a", INT), F("in_b", INT, opts={"rename": "BB"})])
        kin = make_class("RKin", [F("in_c", INT), F("in_d", INT)], rename_all="kebabcase")
        sub = make_class("RSub", [F("sub_a", INT)], bases=(kin,), rename_all="pascalcase")
        sub2 = make_class("RSub2", [F("sub_b", INT)], bases=(kin,))
        out = make_class("ROut", [
            F("o_i", INT, ann=inn), F("o_k", INT, ann=list[kin]), F("o_s", INT, ann=typing.Optional[sub]),
            F("o_d", INT, ann=dict[str, sub2]), F("o_u", INT, ann=typing.Union[inn, kin]),
            F("o_t", INT, ann=tuple[kin, inn])], rename_all="camelcase")
        plain_ = make_class("RPlain", [F("o_i", INT, ann=inn), F("o_k", INT, ann=kin)])
        return inn, kin, sub, sub2, out, plain_

    def run(inp, env):
        from serde import from_dict, to_dict

        inn, kin, sub, sub2, out, plain_ = env
        i = inn(inp.int("i1"), inp.int("i2"))
        k = kin(inp.int("k1"), inp.int("k2"))
        s = sub(in_c=inp.int("s1"), in_d=inp.int("s2"), sub_a=inp.int("s3"))
        t = sub2(in_c=inp.int("t1"), in_d=inp.int("t2"), sub_b=inp.int("t3"))
        wi, wk = {"in_a": i.in_a, "BB": i.in_b}, {"in-c": k.in_c, "in-d": k.in_d}
        ws = {"InC": s.in_c, "InD": s.in_d, "SubA": s.sub_a}
        wt = {"in_c": t.in_c, "in_d": t.in_d, "sub_b": t.sub_b}
        u = inp.flag("u")
        x = out(i, [k], s, {"o_k": t}, k if u else i, (k, i))
        exp = {"oI": wi, "oK": [wk], "oS": ws, "oD": {"o_k": wt},
               "oU": {"RKin": wk} if u else {"RIn": wi}, "oT": (wk, wi)}
        check(same(to_dict(x), exp), "each class has its own names")
        check(same(from_dict(out, exp), x), "in both directions")
        p = plain_(i, k)
        check(same(to_dict(p), {"o_i": wi, "o_k": wk}), "children keep their names")
        check(same(from_dict(plain_, {"o_i": wi, "o_k": wk}), p), "in both directions")
        inp.reach("end")

    return Harness("nested", build, run)


def _combo(combo):
    _, o, default, factory = combo

    def build():
        if "alias" in o or "rename" in o:
            oo = dict(o)
        else:
            oo = dict(o)
        return [(c, combo_class((combo[0], oo, default, factory), f"Cc{i}", rename_all=c))
                for i, c in enumerate([None, "camelcase", "constcase", "kebabcase"])]

    def run(inp, clss):
        from serde import from_dict, to_dict

        case, cls = inp.pick("case", clss)
        cv = (lambda n: _conv(case, n)) if case else (lambda n: n)
        x = combo_value(inp, cls, combo)
        if "skip_if_default" in o:
            inp.assume(x.m_m != (3 if default is not MISSING else 5))
        exp = {cv("a_a"): x.a_a, o.get("rename") or cv("m_m"): x.m_m, cv("z_z"): x.z_z}
        check(same(to_dict(x), exp), "documented keys")
        check(same(list(to_dict(x)), list(exp)), "order")
        check(same(from_dict(cls, exp), x), "in both directions")
        inp.reach("end")

    return Harness(f"combo:{combo[0]}", build, run)


def harnesses(tier):
    out = [_case(c) for c in CASES]
    for k in KEYCFG:
        for kind in ("int", "opt", "default", "list", "union", "optunion"):
            if kind == "list" and k[0] == "ser":
                continue
            out.append(_exact_key(*k, kind))
    out += [_type(l, t) for l, t in universe(tier)]
    out += [_combo(c) for c in feature_combos(tier)]
    return out + [_swap(), _nested()] + similar("rotate")
