"""C22  Field-level custom serializers and deserializers are applied once and win."""
import dataclasses

from props.common import *
from props.c33 import similar

BOUNDS = ("fields of every representative type, with every field feature combination, in 9 layouts (nested, "
          "in containers, unions, flattened, inherited, generic, transparent), below class-level, legacy and "
          "global (de)serializers for the same type, in classes with strict, coerce and disabled type check, "
          "renaming and unknown-field denial; all four entry points; field values symbolic")
ASSUMPTIONS = ["skip_if predicates of a field with a serializer are not part of the property (C10)"]


class Rec_:
    """A recording (de)serializer."""

    def __init__(self, result):
        self.log, self.result = [], result

    def __call__(self, v):
        self.log.append(v)
        return self.result


class Mark:
    """A value no built-in code could make or handle."""


class CBox:
    """Results are set per run: the functions themselves are fixed when the class is defined."""

    def __init__(self):
        self.reset()

    def reset(self, se=None, de=None):
        self.se, self.de = Rec_(se), Rec_(de)

    def ser(self, v):
        return self.se(v)

    def deser(self, v):
        return self.de(v)


def class_level(typ, kind, log):
    """A class-level (de)serializer for typ."""
    from plum import Dispatcher

    disp = Dispatcher()

    class CS:
        @disp
        def serialize(self, value: typ) -> typing.Any:
            log.append(value)
            return "class"

    class CD:
        @disp
        def deserialize(self, cls: type[typ], value: typing.Any) -> typing.Any:
            log.append(value)
            return value

    return CS(), CD()


OPTS = {
    "plain": lambda s, log: {},
    "coerce": lambda s, log: {"type_check": _tc("coerce")},
    "disabled": lambda s, log: {"type_check": _tc("disabled")},
    "camel": lambda s, log: {"rename_all": "camelcase", "deny_unknown_fields": True},
    "kw": lambda s, log: {"kw_only": True},
    "class": lambda s, log: dict(zip(("class_serializer", "class_deserializer"), class_level(s.py, "class", log))),
    "legacy": lambda s, log: {"serializer": _legacy(log), "deserializer": _legacy(log)},
    "skipdef": lambda s, log: {"skip_if_default": True},
}


def _tc(n):
    import serde

    return getattr(serde, n)


def _legacy(log):
    def f(cls, o):
        from serde import SerdeSkip

        raise SerdeSkip()

    return f


def _cls(spec, box, opt, log, **kw):
    opts = OPTS[opt](spec, log)
    deco = None
    if opts.pop("kw_only", False):
        fs = [F("a_a", INT, opts={"kw_only": True}),
              F("m_m", spec, opts={"kw_only": True, "serializer": box.ser, "deserializer": box.deser}),
              F("z_z", INT, ann=int, opts={"kw_only": True})]
    else:
        fs = [F("a_a", INT), F("m_m", spec, opts={"serializer": box.ser, "deserializer": box.deser}),
              F("z_z", INT)]
    del deco
    return make_class("Cust", fs, **opts)


def _field(label, th):
    """The value itself is passed, once; the result is stored as it is."""
    def build():
        spec, box, log = th(), CBox(), []
        out = []
        for o in OPTS:
            if o == "class" and (not isinstance(spec.py, type) or spec.py in (int, list, dict, tuple)):
                continue
            out.append((o, _cls(spec, box, o, log)))
        return spec, box, log, out

    def run(inp, env):
        from serde import from_dict, from_tuple, to_dict, to_tuple

        spec, box, log, clss = env
        o, cls = inp.pick("cls", clss)
        m = spec.draw(inp, "m")
        a, z = inp.int("a"), inp.int("z")
        x = cls(a_a=a, m_m=m, z_z=z)
        held = x.m_m
        ka, km, kz = ("aA", "mM", "zZ") if o == "camel" else ("a_a", "m_m", "z_z")
        tuple_, kw = inp.flag("tuple"), {}
        if inp.flag("opts"):
            kw = dict(reuse_instances=inp.flag("reuse"), convert_sets=inp.flag("conv"))
            if not tuple_:
                kw["skip_none"] = True
        mark = Mark()
        del log[:]
        box.reset(mark, m)
        if tuple_:
            d = to_tuple(x, **kw)
            check(type(d) is tuple and len(d) == 3 and same(d[0], a) and same(d[2], z), "other fields")
            got = d[1]
        else:
            d = to_dict(x, **kw)
            check(list(d) == [ka, km, kz] and same(d[ka], a) and same(d[kz], z), "other fields")
            got = d[km]
        check(got is mark, "the serializer's result is stored unchanged")
        check(len(box.se.log) == 1 and box.se.log[0] is held, "called once with exactly the value")
        check(not box.de.log and not log, "nothing else is called")
        kw.pop("convert_sets", None), kw.pop("skip_none", None)
        y = from_tuple(cls, (a, mark, z), **kw) if tuple_ else from_dict(cls, {ka: a, km: mark, kz: z}, **kw)
        check(len(box.de.log) == 1 and box.de.log[0] is mark, "called once with exactly the plain value")
        check(len(box.se.log) == 1 and not log, "nothing else is called")
        check(same(y.m_m, m) and same(y.a_a, a) and same(y.z_z, z), "its result is the field's value")
        inp.reach("end")

    return Harness(f"field:{label}", build, run)


def _combo(combo):
    """With every other feature of the field."""
    label, o = combo[:2]

    def build():
        box = CBox()
        c = (label, {**o, "serializer": box.ser, "deserializer": box.deser}, *combo[2:])
        return box, [combo_class(c), combo_class(c, rename_all="pascalcase"), combo_class(c, skip_if_none=True)]

    def run(inp, env):
        from serde import from_dict, from_tuple, to_dict, to_tuple

        box, clss = env
        j = inp.choice("cls", 3)
        cls = clss[j]
        x = combo_value(inp, cls, (label, o, *combo[2:]))
        default = 3 if combo[2] is not MISSING else 5 if combo[3] is not MISSING else MISSING
        key = o.get("rename", "MM" if j == 1 else "m_m")
        ka = "AA" if j == 1 else "a_a"
        kz = "ZZ" if j == 1 else "z_z"
        res = inp.pick("res", ["r", (1, 2), Mark()])
        v = inp.int("v")
        box.reset(res, v)
        skipped = "skip_if_default" in o and bool(x.m_m == default)
        d = to_dict(x)
        check((key not in d) if skipped else (d[key] is res), "stored unchanged")
        check(skipped or (len(box.se.log) == 1 and same(box.se.log[0], x.m_m)), "called with the value")
        check(same(d[ka], x.a_a) and same(d[kz], x.z_z), "other fields")
        box.reset(res, v)
        t = to_tuple(x)
        check(len(t) == 3 and t[1] is res and len(box.se.log) == 1, "in tuples")
        keys = [key] + list(o.get("alias", []))
        k = inp.pick("key", keys + ([None] if default is not MISSING else []))
        data = {ka: 1, kz: 2}
        if k is not None:
            data[k] = res
        y = from_dict(cls, data)
        if k is None:
            check(same(y.m_m, default) and not box.de.log, "absent: the default, and no call")
        else:
            check(same(y.m_m, v) and len(box.de.log) == 1 and box.de.log[0] is res, "called with the data")
        check(same((y.a_a, y.z_z), (1, 2)), "others")
        box.reset(res, v)
        y = from_tuple(cls, (1, res, 2))
        check(same(y.m_m, v) and len(box.de.log) == 1 and box.de.log[0] is res, "from tuples")
        if default is MISSING:
            must_fail(lambda: from_dict(cls, {ka: 1, kz: 2}), "a missing field")
        inp.reach("end")

    return Harness(f"combo:{label}", build, run)


def _layouts():
    """Wherever the class with the customised field is used."""
    def build():
        import serde

        T = typing.TypeVar("T")
        box = CBox()
        o = {"serializer": box.ser, "deserializer": box.deser}
        ch = make_class("LCh", [F("m", INT, opts=o), F("n", INT)])
        sub = make_class("LSub", [F("k", INT)], bases=(ch,))
        flat = make_class("LFlat", [F("a", INT), F("c", INT, ann=ch, opts={"flatten": True})])
        union = make_class("LUn", [F("u", INT, ann=typing.Union[ch, int])])
        trans = make_class("LTr", [F("m", INT, opts=o)], transparent=True)
        host = make_class("LH", [F("m", INT), F("c", INT, ann=ch)])
        plain = make_class("LP", [F("m", INT, opts=o), F("n", INT)], deco=dataclasses.dataclass)
        ph = make_class("LPH", [F("p", INT, ann=plain)])
        opt = make_class("LO", [F("m", Opt(INT), opts=o)])
        ndata = lambda r, n: {"m": r, "n": n}  # noqa: E731
        lays = {
            "list": (list[ch], lambda n: [ch(n, 7)], lambda r: [ndata(r, 7)], lambda v: v[0].m),
            "dict": (dict[str, ch], lambda n: {"k": ch(n, 7)}, lambda r: {"k": ndata(r, 7)}, lambda v: v["k"].m),
            "opt": (typing.Optional[ch], lambda n: ch(n, 7), lambda r: ndata(r, 7), lambda v: v.m),
            "sub": (sub, lambda n: sub(n, 7, 8), lambda r: {"m": r, "n": 7, "k": 8}, lambda v: v.m),
            "flat": (flat, lambda n: flat(6, ch(n, 7)), lambda r: {"a": 6, "m": r, "n": 7}, lambda v: v.c.m),
            "union": (union, lambda n: union(ch(n, 7)), lambda r: {"u": {"LCh": ndata(r, 7)}}, lambda v: v.u.m),
            "trans": (trans, lambda n: trans(n), lambda r: r, lambda v: v.m),
            "host": (host, lambda n: host(n, ch(n, 7)), lambda r: {"m": None, "c": ndata(r, 7)}, lambda v: v.c.m),
            "plain": (ph, lambda n: ph(plain(n, 7)), lambda r: {"p": ndata(r, 7)}, lambda v: v.p.m),
            "optf": (opt, lambda n: opt(n), lambda r: {"m": r}, lambda v: v.m),
            "direct-union": (typing.Union[ch, int], lambda n: ch(n, 7), lambda r: {"LCh": ndata(r, 7)}, lambda v: v.m),
        }
        del serde, T
        return box, lays

    def run(inp, env):
        from serde import from_dict, to_dict

        box, lays = env
        k = inp.pick("k", lays)
        t, mk, wr, get = lays[k]
        n, v = inp.int("n"), inp.int("v")
        mark = Mark()
        box.reset(mark, v)
        d = to_dict(mk(n), c=t)
        exp = wr(mark)
        if k == "host":
            exp["m"] = n

        def eq(a, b):
            if isinstance(a, Mark) or isinstance(b, Mark):
                return a is b
            if isinstance(a, dict):
                return type(b) is dict and list(a) == list(b) and all([eq(a[i], b[i]) for i in a])
            if isinstance(a, list):
                return type(b) is list and len(a) == len(b) and all([eq(i, j) for i, j in zip(a, b)])
            return same(a, b)

        check(eq(d, exp), "stored in place, unchanged")
        check(len(box.se.log) == 1 and same(box.se.log[0], n), "called once with the value")
        y = from_dict(t, exp)
        check(same(get(y), v) and len(box.de.log) == 1 and box.de.log[0] is mark, "called once with the data")
        if k == "host":
            check(same(y.m, n), "the field of the same name elsewhere")
        inp.reach("end")

    return Harness("layouts", build, run)


def _one_side(label, th):
    """Only a serializer, or only a deserializer: the other direction stays built in."""
    def build():
        spec, box = th(), CBox()
        return spec, box, make_class("Se1", [F("m", spec, opts={"serializer": box.ser}), F("z", spec)]), \
            make_class("De1", [F("m", spec, opts={"deserializer": box.deser}), F("z", spec)])

    def run(inp, env):
        from serde import from_dict, from_tuple, to_dict, to_tuple

        spec, box, se, de = env
        v = spec.draw(inp, "v")
        mark = Mark()
        box.reset(mark, v)
        o = W
        t = TUP
        if inp.flag("se"):
            x = se(v, v)
            d = to_dict(x)
            check(d["m"] is mark and same(d["z"], spec.wire(v, o)), "only the one field")
            d = to_tuple(x)
            check(d[0] is mark and same(d[1], spec.wire(v, t)), "only the one field (tuple)")
            check(same(from_dict(se, {"m": spec.wire(v, o), "z": spec.wire(v, o)}), x), "read back as usual")
            check(same(from_tuple(se, (spec.wire(v, t), spec.wire(v, t))), x), "read back as usual (tuple)")
            check(not box.de.log, "no deserializer")
        else:
            x = de(v, v)
            check(same(to_dict(x), {"m": spec.wire(v, o), "z": spec.wire(v, o)}), "written as usual")
            check(same(to_tuple(x), (spec.wire(v, t), spec.wire(v, t))), "written as usual (tuple)")
            y = from_dict(de, {"m": mark, "z": spec.wire(v, o)})
            check(same(y, x) and len(box.de.log) == 1 and box.de.log[0] is mark, "deserializer")
            y = from_tuple(de, (mark, spec.wire(v, t)))
            check(same(y, x) and len(box.de.log) == 2, "deserializer (tuple)")
        inp.reach("end")

    return Harness(f"one-side:{label}", build, run)


def _several():
    """Every field has its own function, also when fields, functions or names coincide."""
    def build():
        logs = []

        def ser(i):
            return lambda v: (logs.append((i, v)), (i, v))[1]

        def de(i):
            return lambda v: (logs.append((-i, v)), v[1])[1]

        shared = (ser(1), de(1))
        fs = [F("f1", INT, opts={"serializer": shared[0], "deserializer": shared[1]}),
              F("f2", INT, opts={"serializer": ser(2), "deserializer": de(2)}),
              F("f3", INT, opts={"serializer": shared[0], "deserializer": shared[1]}),
              F("f4", INT),
              F("serde_f2", INT, opts={"serializer": ser(5), "deserializer": de(5), "rename": "f2_"}),
              F("F1", INT, opts={"serializer": ser(6), "deserializer": de(6)})]
        base = make_class("Sev", fs)
        sub = make_class("SevSub", [F("f2", INT, opts={"serializer": ser(7), "deserializer": de(7)}), F("g", INT)],
                         bases=(base,))
        other = make_class("Sev", [F("f1", INT, opts={"serializer": ser(8), "deserializer": de(8)})])
        return logs, base, sub, other

    def run(inp, env):
        from serde import from_dict, to_dict

        logs, base, sub, other = env
        which = inp.pick("which", ["base", "sub", "other"])
        cls = {"base": base, "sub": sub, "other": other}[which]
        ids = {"base": {"f1": 1, "f2": 2, "f3": 1, "f4": 0, "serde_f2": 5, "F1": 6},
               "sub": {"f1": 1, "f2": 7, "f3": 1, "f4": 0, "serde_f2": 5, "F1": 6, "g": 0},
               "other": {"f1": 8}}[which]
        vals = {n: inp.int(n) for n in ids}
        exp = {("f2_" if n == "serde_f2" else n): (ids[n], v) if ids[n] else v for n, v in vals.items()}
        del logs[:]
        check(same(to_dict(cls(**vals)), exp), "every field by its own serializer")
        check(same(logs, [(ids[n], v) for n, v in vals.items() if ids[n]]), "in order, once each")
        del logs[:]
        y = from_dict(cls, exp)
        check(same(y, cls(**vals)), "every field by its own deserializer")
        check(same(logs, [(-ids[n], (ids[n], v)) for n, v in vals.items() if ids[n]]), "once each")
        inp.reach("end")

    return Harness("several", build, run)


class Err(Exception):
    pass


def _errors():
    """Failing functions: SerdeError; results of wrong types are caught by the type check."""
    def build():
        import serde

        def bad(v):
            raise Err("bad")

        def bad_type(v):
            return "no int"

        def skip(v):
            raise serde.SerdeSkip()

        out = []
        for f in (bad, skip):
            c = make_class("Bad", [F("m", INT, opts={"serializer": f, "deserializer": f}), F("z", INT)])
            out.append((c, lambda d, c=c: serde.from_dict(c, d)))
            out.append((c, lambda d, c=c: serde.to_dict(c(d["m"], d["z"]))))
        c = make_class("BadT", [F("m", INT, opts={"deserializer": bad_type}), F("z", INT)])
        out.append((c, lambda d, c=c: serde.from_dict(c, d)))
        return out

    def run(inp, env):
        c, f = inp.pick("f", env)
        d = {"m": inp.int("m"), "z": inp.int("z")}
        must_fail(lambda: f(d), "a failing custom function")
        inp.reach("end")

    return Harness("errors", build, run)


def _markers(label, th):
    """default_serializer / default_deserializer restore the built-in behaviour of the field."""
    def build():
        import serde
        from serde.de import default_deserializer
        from serde.se import default_serializer

        spec, log = th(), []
        cs, cd = class_level(spec.py, "class", log)

        def leg(cls, o):
            log.append(o)
            return "legacy"

        o = {"serializer": default_serializer, "deserializer": default_deserializer}
        return spec, log, [
            make_class("Mk", [F("m", spec, opts=o)], class_serializer=cs, class_deserializer=cd),
            make_class("Mk", [F("m", spec, opts=o)], serializer=leg, deserializer=leg),
            make_class("Mk", [F("m", spec, opts=o)]),
            make_class("Mk", [F("m", spec, opts=o)], class_serializer=cs, class_deserializer=cd, serializer=leg,
                       deserializer=leg)]

    def run(inp, env):
        from serde import from_dict, from_tuple, to_dict, to_tuple

        spec, log, clss = env
        cls = inp.pick("cls", clss)
        v = spec.draw(inp, "v")
        del log[:]
        o = W
        t = TUP
        x = cls(v)
        check(same(to_dict(x), {"m": spec.wire(v, o)}) and same(to_tuple(x), (spec.wire(v, t),)), "built-in form")
        check(same(from_dict(cls, {"m": spec.wire(v, o)}), x), "built-in reading")
        check(same(from_tuple(cls, (spec.wire(v, t),)), x), "built-in reading (tuple)")
        check(not log, "class-level functions are not called")
        inp.reach("end")

    return Harness(f"markers:{label}", build, run)


MARKABLE = ("int", "str", "bool", "float", "enum_Color", "enum_IE", "sub_MyInt", "ss_Path", "ss_UUID", "ss_Decimal",
            "dt_datetime", "dt_date", "dc", "dc_nested", "plain_dc")


def harnesses(tier):
    core = universe("core" if tier == "quick" else tier)
    out = [_field(l, t) for l, t in core] + [_one_side(l, t) for l, t in core if "any" not in l]
    out += [_combo(c) for c in feature_combos(tier) if "serializer" not in c[1]]
    out += [_markers(l, t) for l, t in core if l in MARKABLE]
    return out + [_layouts(), _several(), _errors()] + similar("ser")
