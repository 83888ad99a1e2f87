"""C24  Transparent classes are represented by their single field."""
import dataclasses

from props.common import *
from symex.formats import FORMATS, Inexpressible, TOML

BOUNDS = ("transparent classes around every representative type, in 14 forms (options of the class and of the "
          "field, extra init=False fields, ClassVars, inheritance, nesting, coerce and disabled type check); in "
          "16 positions, passed directly, in unions of the four taggings and through all formats; every "
          "definition of up to three fields out of 8 kinds is either accepted or rejected as documented; "
          "field values symbolic")
ASSUMPTIONS = ["Optional[Tr] cannot tell Tr(None) from None, so Tr wraps no optional type there"]


def _tc(n):
    import serde

    return getattr(serde, n)


def _nf(spec, **o):
    return [F("v_v", spec, opts=o)]


def _cache(spec):
    return [F("v_v", spec), F("c_c", INT, 5, opts={"init": False, "skip": True}),
            F("d_d", INT, MISSING, list, ann=list, opts={"init": False, "skip": True, "repr": False})]


FORMS = {
    "plain": (_nf, {}),
    "coerce": (_nf, {"type_check": "coerce"}),
    "disabled": (_nf, {"type_check": "disabled"}),
    "renamed": (lambda s: _nf(s, rename="other"), {"rename_all": "pascalcase"}),
    "alias": (lambda s: _nf(s, alias=["x", "data"]), {}),
    "kw_only": (lambda s: _nf(s, kw_only=True), {}),
    "deny": (_nf, {"deny_unknown_fields": True}),
    "cache": (_cache, {}),
    "cachefirst": (lambda s: _cache(s)[1:] + _cache(s)[:1] if False else
                   [F("c_c", INT, 5, opts={"init": False, "skip": True}), F("v_v", s, opts={"kw_only": True})], {}),
    "skips": (lambda s: _nf(s, skip_if_none=True), {"skip_if_none": True, "skip_if_default": True}),
    "tagged": (_nf, {"tagging": "adjacent"}),
    "classvar": (lambda s: [F("k", INT, 3, ann=typing.ClassVar[int])] + _nf(s), {"serialize_class_var": False}),
    "data": (lambda s: [F("data", s)], {}),
    "self_": (lambda s: [F("cls_", s, opts={"metadata": {"a": 1}, "repr": False})], {}),
}


def trans(form, spec, name="Tr", **kw):
    import serde

    fs, o = FORMS[form]
    o = dict(o)
    if "type_check" in o:
        o["type_check"] = _tc(o["type_check"])
    if "tagging" in o:
        o["tagging"] = serde.AdjacentTagging("t", "c")
    return make_class(name, fs(spec), transparent=True, **{**o, **kw})


def vname(form):
    return {"data": "data", "self_": "cls_"}.get(form, "v_v")


def _shape(label, th, forms):
    def build():
        spec = th()
        # the specs of unions describe the default tagging
        return spec, [(f, trans(f, spec)) for f in forms if f != "tagged" or not label.startswith(("u_", "list<u"))]

    def run(inp, env):
        from serde import from_dict, from_tuple, to_dict, to_tuple

        spec, clss = env
        form, cls = inp.pick("form", clss)
        v = spec.draw(inp, "v")
        n = vname(form)
        x = cls(**{n: v})
        if inp.flag("tuple"):
            check(same(to_tuple(x), spec.wire(v, TUP)), "the plain form of the field (tuple)")
            y = from_tuple(cls, spec.wire(v, TUP))
            check(type(y) is cls and same(getattr(y, n), v), "read back (tuple)")
        else:
            reuse, conv = inp.flag("reuse"), inp.flag("conv")
            o = WireOpts(reuse_instances=reuse, convert_sets=conv)
            w = spec.wire(v, o)
            check(same(to_dict(x, reuse_instances=reuse, convert_sets=conv), w), "the plain form of the field")
            y = from_dict(cls, w, reuse_instances=reuse)
            check(type(y) is cls and same(getattr(y, n), v), "read back")
        if form.startswith("cache"):
            check(same(y.c_c, 5), "init=False fields get their defaults")
        inp.reach("end")

    return Harness(f"shape:{label}", build, run)


POS = {
    "field": (lambda t: t, lambda v: v, lambda w: w),
    "list": (lambda t: list[t], lambda v: [v, v], lambda w: [w, w]),
    "dict": (lambda t: dict[str, t], lambda v: {"k": v}, lambda w: {"k": w}),
    "opt": (lambda t: typing.Optional[t], lambda v: v, lambda w: w),
    "tup": (lambda t: tuple[int, t], lambda v: (1, v), lambda w: (1, w)),
    "vtup": (lambda t: tuple[t, ...], lambda v: (v,), lambda w: (w,)),
    "deque": (lambda t: collections.deque[t], lambda v: collections.deque([v]), lambda w: [w]),
    "ddict": (lambda t: collections.defaultdict[str, list[t]],
              lambda v: collections.defaultdict(list, {"k": [v]}), lambda w: {"k": [w]}),
    "deep": (lambda t: dict[str, list[tuple[t, int]]], lambda v: {"k": [(v, 1)]}, lambda w: {"k": [(w, 1)]}),
    "optlist": (lambda t: typing.Optional[list[t]], lambda v: [v], lambda w: [w]),
    "alias": (lambda t: typing.TypeAliasType("TA_", list[t]), lambda v: [v], lambda w: [w]),
    "unionlist": (lambda t: typing.Union[bool, list[t]], lambda v: [v], lambda w: [w]),
}


def _pos(label, th):
    """Transparent in every position, directly and in fields; in a transparent class as well."""
    def build():
        spec = th()
        cls = trans("plain", spec)
        out = []
        for p, (ann, mk, wr) in POS.items():
            t = ann(cls)
            out.append((p, t, make_class("Host", [F("a", INT), F("x", INT, ann=t)]),
                        make_class("TT", [F("x", INT, ann=t)], transparent=True)))
        return spec, cls, out

    def run(inp, env):
        from serde import from_dict, from_tuple, to_dict, to_tuple

        spec, cls, out = env
        p, t, host, tt = inp.pick("p", out)
        _, mk, wr = POS[p]
        v = spec.draw(inp, "v")
        if "opt" in p:
            inp.assume(v is not None)
        a = inp.int("a")
        val = mk(cls(v))
        # members of unions keep the dict form inside tuples
        w, wt = wr(spec.wire(v, W)), wr(spec.wire(v, W if p == "unionlist" else TUP))
        k = inp.pick("k", ["host", "tuple", "direct", "nested"])
        if k == "host":
            check(same(to_dict(host(a, val)), {"a": a, "x": w}), "in a field")
            check(same(from_dict(host, {"a": a, "x": w}), host(a, val)), "from a field")
        elif k == "tuple":
            check(same(to_tuple(host(a, val)), (a, wt)), "in a field (tuple)")
            check(same(from_tuple(host, (a, wt)), host(a, val)), "from a field (tuple)")
        elif k == "direct":
            check(same(to_dict(val, c=t), w), "directly")
            y = from_dict(t, w)
            check(p == "ddict" or same(y, val), "directly back")
        else:
            check(same(to_dict(tt(val)), w), "in a transparent class")
            check(same(from_dict(tt, w), tt(val)), "from a transparent class")
        inp.reach("end")

    return Harness(f"pos:{label}", build, run)


def _union():
    """As a member of a union it is tagged like every other class."""
    def build():
        import serde

        tr = trans("plain", INT)
        trl = trans("plain", ListS(INT, 1), name="TrL")
        out = []
        for i, tg in enumerate((serde.ExternalTagging, serde.AdjacentTagging("t", "c"), serde.Untagged)):
            out.append((i, make_class("Un", [F("u", INT, ann=typing.Union[tr, trl, str])], tagging=tg)))
        return tr, trl, out

    def run(inp, env):
        from serde import from_dict, to_dict

        tr, trl, out = env
        i, cls = inp.pick("cls", out)
        k = inp.choice("k", 3)
        n = inp.int("n")
        v = [tr(n), trl([n]), "str"][k]
        w = [n, [n], "str"][k]
        nm = ["Tr", "TrL", None][k]
        if nm:
            w = [{nm: w}, {"t": nm, "c": w}, w][i]
        check(same(to_dict(cls(v)), {"u": w}), "written")
        check(same(from_dict(cls, {"u": w}), cls(v)), "read back")
        inp.reach("end")

    return Harness("union", build, run)


def _keys():
    """Hashable transparent classes as keys and in sets."""
    def build():
        import serde

        def mk(name, ann, **o):
            ns = {"__module__": "symex_programs", "__annotations__": {"v": ann}}
            return serde.serde(dataclasses.dataclass(frozen=True, **o)(type(name, (), ns)), transparent=True)

        ks, ke = mk("KS", str), mk("KE", EN)
        return ks, ke, make_class("Hk", [F("d", INT, ann=dict[ks, int]), F("s", INT, ann=set[ks]),
                                         F("e", INT, ann=dict[ke, ke]), F("f", INT, ann=frozenset[ke])])

    def run(inp, env):
        from serde import from_dict, to_dict

        ks, ke, host = env
        s = inp.pick("s", ["a", ""])
        e = inp.pick("e", list(EN))
        n = inp.int("n")
        x = host({ks(s): n}, {ks(s)}, {ke(e): ke(e)}, frozenset([ke(e)]))
        w = {"d": {s: n}, "s": [s], "e": {e.value: e.value}, "f": [e.value]}
        d = to_dict(x, convert_sets=True)
        check(same(d, w), "written")
        y = from_dict(host, w)
        check(y == x and type(y.f) is frozenset, "read back")
        inp.reach("end")

    return Harness("keys", build, run)


import enum  # noqa: E402


class EN(enum.Enum):
    A = 1
    B = "b"


def _fmt(fmt, label, th):
    def build():
        spec = th()
        cls = trans("plain", spec)
        return spec, cls, make_class("Hf", [F("x", INT, ann=cls), F("l", INT, ann=list[cls])])

    def run(inp, env):
        spec, cls, host = env
        to, frm = fmt.api()
        v = spec.draw(inp, "v")
        top = inp.flag("top") if fmt is not TOML else False
        x = cls(v) if top else host(cls(v), [cls(v)])
        try:
            box = to(x, se=fmt.se())
        except Inexpressible:
            return
        if fmt is TOML and v is None:
            return
        check(same(frm(type(x), box, de=fmt.de()), x), "round trip")
        if not inp.symbolic:
            from serde import to_dict

            if fmt.real_conforms(to_dict(x, reuse_instances=False, convert_sets=True, skip_none=fmt is TOML)):
                check(same(frm(type(x), to(x)), x), "real round trip")
        inp.reach("end")

    return Harness(f"fmt:{fmt.name}:{label}", build, run, reach=())


KINDS = {
    "plain": ({}, MISSING, True, False),
    "default": ({}, 3, True, False),
    "skip": ({"skip": True}, 3, True, True),
    "skip_ser": ({"skip_serializing": True}, 3, True, True),
    "skip_de": ({"skip_deserializing": True}, 3, True, True),
    "noinit": ({"init": False}, 3, False, False),
    "noinit_skip": ({"init": False, "skip": True}, 3, False, True),
    "classvar": (None, 3, None, None),
}


def _define():
    """Exactly one usable field, everything else init=False and skipped: else rejected."""
    def run(inp, env):
        from serde import SerdeError, from_dict, to_dict

        n = inp.choice("n", 4)
        kinds = [inp.pick(f"k{i}", KINDS) for i in range(n)]
        fs = []
        for i, k in enumerate(kinds):
            o, default, init, skip = KINDS[k]
            if o is None:
                fs.append(F(f"f{i}", INT, default, ann=typing.ClassVar[int]))
            else:
                # a field with a default may not be followed by one without
                fs.append(F(f"f{i}", INT, default, opts={**o, "kw_only": True}))
        usable = [i for i, k in enumerate(kinds) if k in ("plain", "default")]
        other = [k for k in kinds if k not in ("plain", "default", "classvar", "noinit_skip")]
        ok = len(usable) == 1 and not other
        try:
            cls = make_class("Def", fs, transparent=True)
        except SerdeError:
            check(not ok, "accepted as documented")
            inp.reach("rejected")
            return
        check(ok, "rejected as documented")
        v = inp.int("v")
        x = cls(**{f"f{usable[0]}": v})
        check(same(to_dict(x), v) and same(from_dict(cls, v), x), "round trip")
        inp.reach("end")

    return Harness("define", lambda: None, run, reach=("end", "rejected"))


def _inherit():
    """The option belongs to the class; inherited fields count."""
    def build():
        tr = trans("plain", INT)
        sub = make_class("SubT", [F("w", INT)], bases=(tr,))
        base = make_class("BaseT", [F("v", INT)])
        tsub = make_class("TSub", [], bases=(base,), transparent=True)
        outer = trans("plain", DC("X", [F("v", INT)], cls=tr), name="Outer")
        outer3 = make_class("Outer3", [F("o", INT, ann=list[outer])], transparent=True)
        dch = DC("Ch", [F("i", INT), F("p", PATH)])
        overdc = trans("plain", dch, name="OverDc")
        return tr, sub, base, tsub, outer, outer3, dch, overdc

    def run(inp, env):
        from serde import from_dict, from_tuple, to_dict, to_tuple

        tr, sub, base, tsub, outer, outer3, dch, overdc = env
        n, m = inp.int("n"), inp.int("m")
        for x, w, t in ((sub(n, m), {"v_v": n, "w": m}, (n, m)), (base(n), {"v": n}, (n,)), (tsub(n), n, n),
                        (outer(tr(n)), n, n), (outer3([outer(tr(n)), outer(tr(m))]), [n, m], [n, m])):
            check(same(to_dict(x), w) and same(to_tuple(x), t), "written")
            check(same(from_dict(type(x), w), x) and same(from_tuple(type(x), t), x), "read back")
        c = dch.draw(inp, "c")
        x = overdc(c)
        check(same(to_dict(x), dch.wire(c)) and same(to_tuple(x), dch.wire(c, TUP)), "over a class")
        check(same(from_dict(overdc, dch.wire(c)), x) and same(from_tuple(overdc, dch.wire(c, TUP)), x), "back")
        inp.reach("end")

    return Harness("inherit", build, run)


def _custom():
    """Custom functions of the single field apply as usual."""
    def build():
        log = []
        o = {"serializer": lambda v: (log.append(v), ("s", v))[1], "deserializer": lambda v: (log.append(v), v[1])[1]}
        cls = make_class("Cu", [F("v", INT, opts=o)], transparent=True)
        return log, cls, make_class("Hc", [F("c", INT, ann=cls), F("l", INT, ann=list[cls])])

    def run(inp, env):
        from serde import from_dict, to_dict

        log, cls, host = env
        n, m = inp.int("n"), inp.int("m")
        del log[:]
        x = host(cls(n), [cls(m)])
        w = {"c": ("s", n), "l": [("s", m)]}
        check(same(to_dict(x), w) and same(log, [n, m]), "serializer")
        del log[:]
        check(same(from_dict(host, w), x) and same(log, [("s", n), ("s", m)]), "deserializer")
        inp.reach("end")

    return Harness("custom", build, run)


def _bad(label, th):
    """Data is accepted exactly when the field's type accepts it."""
    def build():
        import serde

        spec = th()
        return spec, [(trans("plain", spec, type_check=getattr(serde, m)),
                       make_class("Hb", [F("v", spec)], type_check=getattr(serde, m))) for m in ("strict", "coerce")]

    def run(inp, env):
        from serde import from_dict
        from symex.junk import near

        spec, clss = env
        cls, host = inp.pick("cls", clss)
        w = near(inp, "w", spec, sym=False)
        g1, y1 = attempt(lambda: from_dict(cls, w))
        g2, y2 = attempt(lambda: from_dict(host, {"v": w}))
        check(g1 == g2, "accepted exactly when the field accepts it")
        if g1:
            check(same(y1.v_v, y2.v), "the same value")
        inp.reach("end")

    return Harness(f"bad:{label}", build, run)


def harnesses(tier):
    core = universe("core" if tier == "quick" else tier)
    out = []
    for i, (l, t) in enumerate(core):
        fs = list(FORMS)
        if tier == "quick":  # every form with some types, every type in some forms
            fs = ["plain"] + [f for j, f in enumerate(FORMS) if (i + j) % 5 == 0]
        out.append(_shape(l, t, fs))
    small = ("int", "str", "enum_Color", "ss_Path", "dt_date", "dc", "list<str>", "opt<int>", "tup<int,enum>",
             "dict<kstr,datetime>", "u_prim", "plain_dc")
    out += [_pos(l, t) for l, t in core if l in small]
    for f in FORMATS:
        out += [_fmt(f, l, t) for l, t in core if tier == "thorough" or l in small]
    heavy = ("u_mix", "list<udc>", "dc_nested", "tup<opt<list>>", "deque<opt<dc>>", "any", "nested_dict")
    out += [_bad(l, t) for l, t in core if l not in heavy or tier == "thorough"]
    return out + [_union(), _keys(), _define(), _inherit(), _custom()]
