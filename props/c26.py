"""C26  Class features: inheritance, InitVar, ClassVar, kw_only, init=False."""
import dataclasses
import itertools
import pathlib
import typing

from props.common import *
from props.c33 import similar

BOUNDS = ("parent, child, sibling and grandchild with every pair of 9 class options, used before and after the others "
          "are defined; overridden types, defaults and field options; multiple inheritance, mixins, undecorated "
          "parents and children; every layout of up to three fields out of 11 kinds (positional, keyword-only, "
          "defaults, factories, init=False, InitVar, ClassVar); 40 field and class names used by the generated "
          "code; undecorated dataclasses in every position; values symbolic")
ASSUMPTIONS = ["InitVars without default cannot be deserialized (their values are not part of the data)",
               "the strictly checked __init__ of undecorated nested dataclasses is a known finding"]

CASES = {"camelcase": {"a_b": "aB", "c_d": "cD", "e_f": "eF", "g_h": "gH", "u_u": "uU", "p_p": "pP", "s_s": "sS"},
         "pascalcase": {"a_b": "AB", "c_d": "CD", "e_f": "EF", "g_h": "GH", "u_u": "UU", "p_p": "PP", "s_s": "SS"}}

OPTS = {
    "none": {}, "camel": {"rename_all": "camelcase"}, "pascal": {"rename_all": "pascalcase"},
    "deny": {"deny_unknown_fields": True}, "coerce": {"type_check": "coerce"},
    "disabled": {"type_check": "disabled"}, "adjacent": {"tagging": "adjacent"},
    "noreuse": {"reuse_instances_default": False}, "convert": {"convert_sets_default": True},
}


def _so(name):
    import serde

    o = dict(OPTS[name])
    if "type_check" in o:
        o["type_check"] = getattr(serde, o["type_check"])
    if "tagging" in o:
        o["tagging"] = serde.AdjacentTagging("t", "c")
    return o


def _base_fields(in_cls):
    return [F("a_b", INT), F("u_u", INT, ann=typing.Union[int, in_cls]), F("p_p", PATH), F("s_s", SetS(ECOLOR, 1)),
            F("c_d", INT, 7)]


def _exp(opt, names, v, in_cls):
    """The documented plain form."""
    out = {}
    for n in names:
        x = getattr(v, n)
        if n == "u_u" and type(x) is in_cls:
            # a class defines the tagging of its unions
            w = {"i": x.i}
            w = {"c": w, "t": "In"} if opt == "adjacent" else {"In": w}
        elif n == "p_p":
            w = str(x) if opt == "noreuse" else x
        elif n == "s_s":
            w = [e.value for e in x] if opt == "convert" else {e.value for e in x}
        else:
            w = x
        out[CASES.get(OPTS[opt].get("rename_all"), {}).get(n, n)] = w
    return out


def _opts(po, co, early):
    """Every class uses the options of its own decorator."""
    def build():
        from serde import from_dict, to_dict

        in_cls = make_class("In", [F("i", INT)])
        p = make_class("Par", _base_fields(in_cls), **_so(po))
        if early:
            x = p(1, 2, pathlib.Path("a"), set())
            from_dict(p, to_dict(x, convert_sets=True, reuse_instances=False))
        c = make_class("Chi", [F("e_f", INT, 3)], bases=(p,), **_so(co))
        s = make_class("Sib", [F("g_h", INT, 4)], bases=(p,), **_so(po))
        g = make_class("Gra", [F("g_h", INT, 5)], bases=(c,), **_so(po))
        base = ("a_b", "u_u", "p_p", "s_s", "c_d")
        return in_cls, [(p, po, base), (c, co, base + ("e_f",)), (s, po, base + ("g_h",)),
                        (g, po, base + ("e_f", "g_h"))]

    def run(inp, env):
        from serde import SerdeError, from_dict, to_dict

        in_cls, clss = env
        cls, opt, names = inp.pick("cls", clss)
        i = inp.int("i")
        vals = {n: inp.int(n) for n in names if n not in ("u_u", "p_p", "s_s")}
        v = cls(u_u=in_cls(i) if inp.flag("in") else i, p_p=PATH.draw(inp, "p"),
                s_s={inp.pick("s", list(ECOLOR.py))}, **vals)
        w = _exp(opt, names, v, in_cls)
        check(same(to_dict(v), w), "own options when written")
        inp_w = {k: list(x) if type(x) is set else x for k, x in w.items()}
        check(same(from_dict(cls, inp_w), v), "own options when read")
        key = next(iter(inp_w))
        try:
            y = from_dict(cls, {**inp_w, "unknown": 1})
            check(opt != "deny" and same(y, v), "unknown fields")
        except SerdeError:
            check(opt == "deny", "unknown fields")
        try:
            y = from_dict(cls, {**inp_w, key: "5"})
            check(opt == "disabled" and y.a_b == "5" or opt == "coerce" and same(y.a_b, 5), "type check")
        except SerdeError:
            check(opt not in ("coerce", "disabled"), "type check")
        inp.reach("end")

    return Harness(f"opts:{po}:{co}:{'used' if early else 'fresh'}", build, run)


def _override():
    """Overridden fields, several bases, undecorated parents and children."""
    def build():
        from serde import coerce, disabled, field

        p = make_class("P", [F("a", INT), F("b", STR, "p")])
        q = make_class("Q", [F("a", STR), F("c", INT, 3), F("b", INT, 5)], bases=(p,))
        r = make_class("R", [F("my_f", INT, 4), F("b", STR, "r", opts={"rename": "bee"})], bases=(p,),
                       rename_all="camelcase")
        r2 = make_class("R2", [F("o_n", INT, 1)], bases=(r,))
        mix = type("Mix", (), {"hello": lambda self: self.a, "__module__": "symex_programs"})
        m = make_class("M", [F("z", INT, 0)], bases=(mix, p))
        up = make_class("UP", [F("a", INT), F("l", INT, MISSING, list, ann=list[int])], deco=dataclasses.dataclass)
        d = make_class("D", [F("z", INT, 1)], bases=(up,))
        k = make_class("K", [F("z", INT, 2)], bases=(p,), deco=dataclasses.dataclass)
        k2 = make_class("K2", [F("y", INT, 3)], bases=(k,), deco=dataclasses.dataclass)
        rk = make_class("RK", [F("e_f", INT, 2)], bases=(r,), deco=dataclasses.dataclass)
        plain_sub = type("PS", (r,), {"__module__": "symex_programs", "extra": 1})
        host = make_class("HostI", [F("k", INT, ann=k), F("l", INT, ann=list[k2]), F("o", INT, ann=typing.Optional[d])])
        two = make_class("Two", [F("t", INT, 9)], bases=(make_class("A1", [F("x", INT, 1)]),
                                                         make_class("A2", [F("y", INT, 2)])))
        return locals()

    def run(inp, env):
        from serde import from_dict, from_tuple, to_dict, to_tuple

        e = env
        n, m = inp.int("n"), inp.int("m")
        s = inp.str("s", 2)
        cases = [
            lambda: (e["p"](n, s), {"a": n, "b": s}, (n, s)),
            lambda: (e["q"](s, n, m), {"a": s, "b": n, "c": m}, (s, n, m)),
            lambda: (e["r"](n, s, m), {"a": n, "bee": s, "myF": m}, (n, s, m)),
            lambda: (e["r2"](n, s, m, 1), {"a": n, "bee": s, "my_f": m, "o_n": 1}, (n, s, m, 1)),
            lambda: (e["m"](n, s, m), {"a": n, "b": s, "z": m}, (n, s, m)),
            lambda: (e["d"](n, [m], 3), {"a": n, "l": [m], "z": 3}, (n, [m], 3)),
            lambda: (e["k"](n, s, m), {"a": n, "b": s, "z": m}, (n, s, m)),
            lambda: (e["k2"](n, s, m, 5), {"a": n, "b": s, "z": m, "y": 5}, (n, s, m, 5)),
            lambda: (e["plain_sub"](n, s, m), {"a": n, "bee": s, "myF": m}, (n, s, m)),
            lambda: (e["two"](n, m, 5), {"y": n, "x": m, "t": 5}, (n, m, 5)),
            lambda: (e["host"](e["k"](n, s, m), [e["k2"](n, s, m, 5)], None),
                     {"k": {"a": n, "b": s, "z": m}, "l": [{"a": n, "b": s, "z": m, "y": 5}], "o": None},
                     ((n, s, m), [(n, s, m, 5)], None)),
            lambda: (e["host"](e["k"](n, s, m), [], e["d"](n, [m], 3)),
                     {"k": {"a": n, "b": s, "z": m}, "l": [], "o": {"a": n, "l": [m], "z": 3}},
                     ((n, s, m), [], (n, [m], 3))),
        ]
        v, w, t = inp.pick("case", cases)()
        check(same(to_dict(v), w), "written")
        check(same(to_tuple(v), t), "written (tuple)")
        y = from_dict(type(v), w)
        check(same(y, v), "read back")
        check(same(from_tuple(type(v), t), v), "read back (tuple)")
        # missing fields get the defaults of this class
        for cls, w0, y0 in ((e["p"], {"a": n}, lambda: e["p"](n, "p")), (e["q"], {"a": s}, lambda: e["q"](s, 5, 3)),
                            (e["r"], {"a": n}, lambda: e["r"](n, "r", 4)), (e["d"], {"a": n}, lambda: e["d"](n, [], 1)),
                            (e["k"], {"a": n}, lambda: e["k"](n, "p", 2))):
            check(same(from_dict(cls, w0), y0()), "own defaults")
        inp.reach("end")

    return Harness("override", build, run)


KINDS = {  # name: (options, default, factory, init, positional required, annotation)
    "pos": ({}, MISSING, MISSING), "posdef": ({}, 3, MISSING), "posfac": ({}, MISSING, lambda: 4),
    "kw": ({"kw_only": True}, MISSING, MISSING), "kwdef": ({"kw_only": True}, 5, MISSING),
    "kwfac": ({"kw_only": True}, MISSING, lambda: 6),
    "noinit": ({"init": False}, 7, MISSING), "noinitfac": ({"init": False}, MISSING, lambda: 8),
    "classvar": (None, 9, MISSING), "initvar": (None, 10, MISSING), "skip": ({"skip": True}, 11, MISSING),
}
DEF = {"posdef": 3, "posfac": 4, "kwdef": 5, "kwfac": 6, "noinit": 7, "noinitfac": 8, "skip": 11}


def _redeclared(deco):
    """A subclass without @dataclass redeclares fields of its parent (types, defaults, options), adds an InitVar or
    nothing at all: it becomes a dataclass like any other class."""
    def build():
        import serde

        d = {"serde": serde.serde, "stack": lambda c: serde.serialize(serde.deserialize(c)),
             "kcats": lambda c: serde.deserialize(serde.serialize(c))}[deco]
        p = make_class("RdP", [F("a", INT, 1), F("b", STR, "b"), F("c", Opt(INT), None)], deco=d)
        def post(self, x):
            self.c = x

        out = {
            "p": (p, 1, "b", None),
            "default": (make_class("RdA", [F("a", INT, 5)], bases=(p,), deco=d), 5, "b", None),
            "type": (make_class("RdB", [F("b", INT, 7)], bases=(p,), deco=d), 1, 7, None),
            "all": (make_class("RdC", [F("c", INT, 3), F("a", STR, "x"), F("b", STR, "y")], bases=(p,), deco=d), "x", "y", 3),
            "rename": (make_class("RdR", [F("b", STR, "r", opts={"rename": "bee"})], bases=(p,), deco=d), 1, "r", None),
            "skip": (make_class("RdS", [F("a", INT, 4, opts={"skip_if_default": True})], bases=(p,), deco=d), 4, "b", None),
            "none": (make_class("RdN", [], bases=(p,), deco=d), 1, "b", None),
            "cv": (make_class("RdV", [F("v", INT, 9, ann=typing.ClassVar[int])], bases=(p,), deco=d), 1, "b", None),
            "initvar": (make_class("RdI", [F("x", INT, 8, ann=dataclasses.InitVar[int])], bases=(p,), deco=d,
                                   ns={"__post_init__": post}), 1, "b", 8),
        }
        k = out["default"][0]
        out["grandchild"] = (make_class("RdG", [F("c", INT, 6)], bases=(k,), deco=d), 5, "b", 6)
        return out

    def run(inp, env):
        from serde import from_dict, from_tuple, to_dict, to_tuple

        what = inp.pick("what", sorted(env))
        cls, a, b, c = env[what]
        has = [inp.flag(k) for k in "abc"]
        va = inp.str("a") if isinstance(a, str) else inp.int("a")
        vb = inp.int("b") if isinstance(b, int) else inp.str("b")
        vals = [v if h else d for v, h, d in zip((va, vb, inp.int("c")), has, (a, b, c))]
        key = {"b": "bee"} if what == "rename" else {}
        data = {key.get(k, k): v for k, v, h in zip("abc", vals, has) if h}
        if what == "initvar":
            vals[2] = 8
        x = from_dict(cls, data)
        check(type(x) is cls and same((x.a, x.b, x.c), tuple(vals)), "read with the subclass's fields")
        y = cls(**{k: v for k, v, h in zip("abc", vals, has) if h})
        check(same(x, y), "constructor")
        w = {key.get(k, k): v for k, v in zip("abc", vals)}
        if what == "skip" and vals[0] == 4:
            del w["a"]
        check(same(to_dict(y), w), "written")
        check(same(to_tuple(y), tuple(vals)), "written (tuple)")
        check(same(from_tuple(cls, tuple(vals)), y), "read (tuple)")
        bad = "x" if isinstance(b, int) else 3
        check(attempt(lambda: from_dict(cls, {key.get("b", "b"): bad}))[0] is False, "declared type of the subclass")
        inp.reach("end")

    return Harness(f"redeclared:{deco}", build, run)


def _layout(first, cv):
    """Every layout that dataclasses accept works as an ordinary dataclass."""
    def build():
        out = []
        for rest in [()] + [(a,) for a in KINDS] + list(itertools.product(KINDS, KINDS)):
            kinds = (first,) + rest
            seen, valid = False, True
            for k in kinds:
                if k in ("posdef", "posfac", "initvar", "skip"):
                    seen = True
                elif k == "pos" and seen:
                    valid = False
            if not valid or (len(kinds) == 3 and len(set(kinds)) < 3 and kinds[0] != kinds[2]):
                continue
            fs = []
            for i, k in enumerate(kinds):
                o, d, f = KINDS[k]
                n = f"f{i}"
                if k == "classvar":
                    fs.append(F(n, INT, d, ann=typing.ClassVar[int]))
                elif k == "initvar":
                    fs.append(F(n, INT, d, ann=dataclasses.InitVar[int]))
                else:
                    fs.append(F(n, INT, d, f, ann=int, opts={**o, "repr": True}))
            log = []

            def post(self, *a, log=log):
                log.append(a)

            out.append((kinds, log, make_class("Lay", fs, ns={"__post_init__": post}, serialize_class_var=cv)))
        return out

    def run(inp, env):
        from serde import from_dict, from_tuple, to_dict, to_tuple

        kinds, log, cls = inp.pick("lay", env)
        names = [(f"f{i}", k) for i, k in enumerate(kinds)]
        del log[:]
        vals = {n: inp.int(n) for n, k in names if k in ("pos", "posdef", "posfac", "kw", "kwdef", "kwfac", "skip")}
        v = cls(**vals)
        iv = tuple([10 for _, k in names if k == "initvar"])
        check(list(log) == [iv], "one __post_init__")
        for n, k in names:  # assigned after construction
            if k.startswith("noinit") and inp.flag("assign"):
                setattr(v, n, 77)
        w = {n: getattr(v, n) for n, k in names if k not in ("classvar", "initvar", "skip")}
        if cv:
            for n, k in names:
                if k == "classvar":
                    w[n] = 9
        check(same(to_dict(v), w), "written")
        tup = tuple(w.values())
        check(same(to_tuple(v), tup), "written (tuple)")
        exp = cls(**{n: 11 if k == "skip" else vals[n] for n, k in names if n in vals})
        del log[:]
        y = from_dict(cls, w)
        check(same(y, exp) and type(y) is cls, "read back")
        check(log == [iv], "one __post_init__ when read")
        for n, k in names:
            if k in DEF and k != "skip":
                y = from_dict(cls, {a: b for a, b in w.items() if a != n})
                check(same(getattr(y, n), DEF[k]), "default of a missing field")
        if not cv:
            check(same(from_tuple(cls, tup), exp), "read back (tuple)")
        inp.reach("end")

    return Harness(f"layout:{first}:{'cv' if cv else 'nocv'}", build, run)


NAMES = ("cls data obj self res fake_dict typing copy serde_scope list dict isinstance len k v i maybe_generic "
         "reuse_instances convert_sets skip_none coerce_object to_obj SerdeError type_check fields e union_args "
         "errors str int is_dataclass key value items get type from_dict subres fake_data deserialize_numbers "
         "variable_type_args collections").split()


def _names():
    """Names of fields and classes do not matter."""
    def build():
        import serde

        out = []
        for n in NAMES:
            inner_ = serde.serde(dataclasses.make_dataclass(n, [("x", int)], module="symex_programs")) \
                if n != "self" else inner().cls
            if n == "self":
                inner_ = serde.serde(dataclasses.make_dataclass("self_", [("x", int)], module="symex_programs"))
            host = serde.serde(dataclasses.make_dataclass(
                "HostN", [(n, inner_), ("l_", list[inner_]), ("o_", typing.Optional[inner_]),
                          ("u_", typing.Union[bool, inner_]), ("d_", dict[str, int]), ("z_", tuple[inner_, int])],
                module="symex_programs"))
            out.append((n, inner_, host))
        return out

    def run(inp, env):
        from serde import from_dict, from_tuple, to_dict, to_tuple

        n, inner_, host = inp.pick("name", env)
        a, b = inp.int("a"), inp.int("b")
        x = host(inner_(a), [inner_(b)], inner_(a), inner_(b), {"k": a}, (inner_(a), b))
        w = {n: {"x": a}, "l_": [{"x": b}], "o_": {"x": a}, "u_": {inner_.__name__: {"x": b}}, "d_": {"k": a},
             "z_": ({"x": a}, b)}
        check(same(to_dict(x), w), "written")
        check(same(from_dict(host, w), x), "read back")
        check(same(from_tuple(host, to_tuple(x)), x), "tuple")
        inp.reach("end")

    return Harness("names", build, run)


def _samename():
    """Different classes of the same name in one class."""
    def build():
        a = make_class("Same", [F("x", INT)])
        b = make_class("Same", [F("y", STR)])
        c = make_class("Same", [F("y", STR), F("z", ECOLOR)], deco=dataclasses.dataclass)
        h = make_class("HostS", [F("a", INT, ann=a), F("b", INT, ann=b), F("l", INT, ann=list[b]),
                                 F("d", INT, ann=dict[str, c]), F("u", INT, ann=typing.Union[int, a]),
                                 F("o", INT, ann=typing.Optional[c])])
        return a, b, c, h

    def run(inp, env):
        from serde import from_dict, to_dict

        a, b, c, h = env
        n, s, col = inp.int("n"), inp.str("s", 2), inp.pick("e", list(ECOLOR.py))
        x = h(a(n), b(s), [b("t")], {"k": c(s, col)}, a(n), c("q", col))
        w = {"a": {"x": n}, "b": {"y": s}, "l": [{"y": "t"}], "d": {"k": {"y": s, "z": col.value}},
             "u": {"Same": {"x": n}}, "o": {"y": "q", "z": col.value}}
        check(same(to_dict(x), w), "written")
        check(same(from_dict(h, w), x), "read back")
        inp.reach("end")

    return Harness("samename", build, run)


def _untouched(how):
    """The decorator returns the same class, which behaves as before."""
    def build():
        import inspect

        import serde

        def body():
            return {"__module__": "symex_programs", "__doc__": "doc", "__annotations__": {
                "a": int, "b": list[str], "c": typing.Optional[int], "k": typing.ClassVar[int]},
                "b": dataclasses.field(default_factory=list, metadata={"m": 1}, repr=False), "c": None, "k": 3,
                "hello": lambda self: self.a + self.k, "prop": property(lambda self: self.a),
                "__str__": lambda self: "str!", "sm": staticmethod(lambda: 5)}

        kw = {"frozen": {"frozen": True}, "order": {"order": True}, "noeq": {"eq": False}, "norepr": {"repr": False},
              "kw": {"kw_only": True}, "slots": {"slots": True}, "hash": {"unsafe_hash": True}, "plain": {}}[how]
        import dataclasses as dc

        def mk(d):
            bd = body()
            if how == "slots":
                bd.pop("__str__")
            c = type("Unt", (), bd)
            c = dc.dataclass(**kw)(c)
            return c if not d else (c, serde.serde(c))

        ref = mk(False)
        c0, dec = mk(True)
        sig = lambda c: str(inspect.signature(c))  # noqa: E731
        fl = lambda c: [(f.name, f.default, f.default_factory, f.init, f.repr, f.hash, f.compare,  # noqa: E731
                         dict(f.metadata), f.kw_only) for f in dc.fields(c)]
        static = (c0 is dec, sig(ref) == sig(dec), fl(ref) == fl(dec), ref.__doc__ == dec.__doc__,
                  dec.__annotations__ == ref.__annotations__, dec.k == 3, dec.sm() == 5,
                  dec.__name__ == "Unt" and dec.__module__ == "symex_programs" and dec.__mro__[1:] == (object,),
                  dec.__match_args__ == ref.__match_args__,
                  set(vars(dec)) - set(vars(ref)) <= {"__serde__", "__sizeof__"} and set(vars(ref)) <= set(vars(dec)))
        return ref, dec, static

    def run(inp, env):
        from serde import from_dict, to_dict

        ref, dec, static = env
        for i, ok in enumerate(static):
            check(ok, f"class attributes {i}")
        n, m = inp.int("n"), inp.int("m")
        r1, r2, d1, d2 = ref(a=n), ref(a=m), dec(a=n), dec(a=m)
        for f in (lambda a, b: a == b, lambda a, b: a != b, lambda a, b: a < b, lambda a, b: a.hello(),
                  lambda a, b: a.prop, lambda a, b: setattr(a, "a", 4), lambda a, b: a.a,
                  lambda a, b: setattr(a, "new", 4)):
            o1, o2 = outcome(lambda: f(r1, r2)), outcome(lambda: f(d1, d2))
            check(o1[0] == o2[0], "same behaviour")
            check(type(o1[1]) is type(o2[1]) if o1[0] != "ok" else same(o1[1], o2[1]), "same result")
        o1, o2 = outcome(lambda: type(hash(ref(a=5, b=())))), outcome(lambda: type(hash(dec(a=5, c=3))))
        check(o1[0] == o2[0] or how in ("frozen", "hash") and type(o2[1]) is TypeError, "hash")
        check(d1.b is not d2.b, "factories")
        d3 = dec(a=m)
        y = from_dict(dec, to_dict(d3))
        check(type(y) is dec and same(y.a, m) and y.b == [] and y.c is None, "round trip")
        check(y.b is not d3.b, "factories when read")
        inp.reach("end")

    return Harness(f"untouched:{how}", build, run)


def _init_kept():
    """The __init__ of undecorated dataclasses is theirs (nested: known finding)."""
    def build():
        from serde import from_dict, to_dict

        def mk(n):
            return make_class(n, [F("p", INT), F("q", STR, "x")], deco=dataclasses.dataclass)

        t, nst = mk("Top"), mk("Nst")
        i1, i2 = t.__init__, nst.__init__
        from_dict(t, to_dict(t(1)))
        make_class("HostP", [F("n", INT, ann=nst)])
        return {"top": (t, i1), "nested": (nst, i2)}

    def run(inp, env):
        pos = inp.pick("pos", ["top", "nested"])
        cls, i = env[pos]
        v = inp.pick("v", ["text", 1.5, None, 3])
        ok, x = outcome(lambda: cls(v))
        check(ok == "ok" and same(x.p, v), "constructed as before")
        inp.reach("end")

    return Harness("init_kept", build, run)


def _classvar():
    """ClassVars are written on request of the class, with their current values, and never read."""
    def build():
        fs = [F("a", INT), F("k", INT, 3, ann=typing.ClassVar[int]),
              F("l", INT, [1], ann=typing.ClassVar[list[int]])]
        on = make_class("On", list(fs), serialize_class_var=True)
        off = make_class("Off", list(fs))
        sub_off = make_class("SubOff", [F("b", INT)], bases=(on,))
        sub_on = make_class("SubOn", [F("b", INT), F("m", STR, "q", ann=typing.ClassVar[str])], bases=(on,),
                            serialize_class_var=True)
        sub_val = make_class("SubVal", [F("k", INT, 8, ann=typing.ClassVar[int])], bases=(on,),
                             serialize_class_var=True)
        return on, off, sub_off, sub_on, sub_val

    def run(inp, env):
        from serde import from_dict, to_dict

        on, off, sub_off, sub_on, sub_val = env
        a, b, z = inp.int("a"), inp.int("b"), inp.int("z")
        on.k = 3
        check(same(to_dict(on(a)), {"a": a, "k": 3, "l": [1]}), "requested")
        check(same(to_dict(off(a)), {"a": a}), "not requested")
        check(same(to_dict(sub_off(a, b)), {"a": a, "b": b}), "not requested by the child")
        check(same(to_dict(sub_on(a, b)), {"a": a, "b": b, "k": 3, "l": [1], "m": "q"}), "requested by the child")
        check(same(to_dict(sub_val(a)), {"a": a, "k": 8, "l": [1]}), "the value of the child")
        try:
            on.k = z
            check(same(to_dict(on(a)), {"a": a, "k": z, "l": [1]}), "current value")
            for c, y in ((on, on(a)), (off, off(a)), (sub_off, sub_off(a, b)), (sub_on, sub_on(a, b))):
                w = {"a": a, "k": 5, "l": [7]}
                if c not in (on, off):
                    w["b"] = b
                r = from_dict(c, w)
                check(same(r, y), "never read")
                check(same(on.k, z) and same(off.k, 3) and on.l == [1], "never assigned")
        finally:
            on.k = 3
        inp.reach("end")

    return Harness("classvar", build, run)


def _undeco(label, th):
    """Undecorated dataclasses in every position."""
    def build():
        spec = th()
        inn = make_class("UIn", [F("v", spec)], deco=dataclasses.dataclass)
        out = make_class("UOut", [F("i", INT, ann=inn), F("l", INT, ann=list[inn]), F("n", INT, 4)],
                         deco=dataclasses.dataclass)
        host = make_class("UHost", [F("o", INT, ann=typing.Optional[out]), F("u", INT, ann=typing.Union[int, inn])])
        froz = make_class("UFro", [F("v", spec)], deco=dataclasses.dataclass(frozen=True, kw_only=True, slots=False))
        return spec, inn, out, host, froz

    def run(inp, env):
        from serde import from_dict, from_tuple, to_dict, to_tuple

        spec, inn, out, host, froz = env
        v = spec.draw(inp, "v")
        n = inp.int("n")
        o_ = WireOpts(reuse_instances=False)  # the defaults of decorated and undecorated classes differ
        w, wt = spec.wire(v, o_), spec.wire(v, dataclasses.replace(o_, named=False))
        o = out(inn(v), [inn(v)], n)
        ow = {"i": {"v": w}, "l": [{"v": w}], "n": n}
        x, xw, xt = inp.pick("case", [
            lambda: (inn(v), {"v": w}, (wt,)),
            lambda: (o, ow, ((wt,), [(wt,)], n)),
            lambda: (host(o, n), {"o": ow, "u": n}, (((wt,), [(wt,)], n), n)),
            lambda: (froz(v=v), {"v": w}, (wt,)),
        ])()
        check(same(to_dict(x, reuse_instances=False), xw) and same(to_tuple(x, reuse_instances=False), xt), "written")
        check(same(from_dict(type(x), xw), x) and same(from_tuple(type(x), xt), x), "read back")
        k = inp.choice("k", 3)
        if k == 0:
            check(same(from_dict(list[inn], [{"v": w}]), [inn(v)]), "directly in a list")
        elif k == 1:
            check(same(from_dict(dict[str, inn], {"k": {"v": w}}), {"k": inn(v)}), "directly in a dict")
        else:
            h = host(None, inn(v))
            check(same(to_dict(h, reuse_instances=False), {"o": None, "u": {"UIn": {"v": w}}}), "union member")
            check(same(from_dict(host, {"o": None, "u": {"UIn": {"v": w}}}), h), "union member read back")
        inp.reach("end")

    return Harness(f"undeco:{label}", build, run)


def harnesses(tier):
    out = [_redeclared(d) for d in ("serde", "stack", "kcats")]
    out += [_override(), _names(), _samename(), _init_kept(), _classvar()]
    for i, po in enumerate(OPTS):
        for j, co in enumerate(OPTS):
            if tier == "thorough":
                out += [_opts(po, co, e) for e in (False, True)]
            elif (i + j) % 2 == 0 or "none" in (po, co):
                out.append(_opts(po, co, (i + j) % 4 == 0))
    for f in KINDS:
        for cv in (False, True):
            if cv and tier == "quick" and f not in ("pos", "classvar", "noinit"):
                continue
            out.append(_layout(f, cv))
    out += [_untouched(h) for h in ("plain", "frozen", "order", "noeq", "norepr", "kw", "slots", "hash")]
    core = universe("core")
    small = ("int", "str", "enum_Color", "ss_Path", "dt_date", "dc", "list<str>", "opt<int>", "tup<int,enum>", "plain_dc")
    out += [_undeco(l, t) for l, t in core if tier == "thorough" or l in small]
    return out + similar("kw")
