"""C23  Class-level and global custom serializers apply exactly to the types they handle."""
import contextlib
import dataclasses
import datetime
import enum
import pathlib

from props.common import *

from symex.api import ReplayInputs

BOUNDS = ("handled types: datetime, path, enum, primitive, primitive subclass, decorated dataclass, foreign "
          "class; 17 positions of the handled type in a field and 10 passed directly; class-level, global, several globals of "
          "the same type, both; sibling fields of neighbouring types and nested classes of their own; legacy "
          "functions over every representative type; values of handled types from pools (their dispatch is "
          "type(value) in plum), the other fields symbolic")
ASSUMPTIONS = ["(de)serializers are registered before the classes using them are defined",
               "types of fields declared as Any or by a type variable are not declared by the class"]


class Foreign:
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return type(o) is Foreign and o.v == self.v

    def __hash__(self):
        return hash(self.v)


class Sub(str):
    pass


class En(enum.Enum):
    A = 1
    B = 2


def _handled():
    import serde

    @serde.serde
    @dataclasses.dataclass(frozen=True)
    class Dc:
        i: int

    return {
        "datetime": (datetime.datetime, [datetime.datetime(2020, 1, 2), datetime.datetime(1, 1, 1)]),
        "date": (datetime.date, [datetime.date(2020, 1, 2), datetime.date(2020, 1, 3)]),
        "path": (pathlib.Path, [pathlib.Path("a"), pathlib.Path("b/c")]),
        "enum": (En, [En.A, En.B]),
        "sub": (Sub, [Sub("x"), Sub("")]),
        "foreign": (Foreign, [Foreign(0), Foreign(7)]),
        "dc": (Dc, [Dc(0), Dc(7)]),
        "int": (int, [0, 7]),
    }


HANDLED = ["datetime", "date", "path", "enum", "sub", "foreign", "dc", "int"]


def codec(tag, typ, pool, log):
    """A (de)serializer pair of one type, with recognisable plain forms."""
    from plum import Dispatcher

    disp = Dispatcher()

    class CS:
        @disp
        def serialize(self, value: typ) -> typing.Any:
            log.append(("se", tag, value))
            return f"{tag}{pool.index(value)}"

    class CD:
        @disp
        def deserialize(self, cls: type[typ], value: typing.Any) -> typing.Any:
            if not (isinstance(value, str) and value[:-1] == tag):
                raise ValueError("not mine")
            log.append(("de", tag, cls, value))
            return pool[int(value[-1])]

    return CS(), CD()


@contextlib.contextmanager
def registered(*pairs):
    """These global (de)serializers, and no others."""
    import serde.core as c

    se, de = list(c.GLOBAL_CLASS_SERIALIZER), list(c.GLOBAL_CLASS_DESERIALIZER)
    del c.GLOBAL_CLASS_SERIALIZER[:], c.GLOBAL_CLASS_DESERIALIZER[:]
    c.CACHE.classes.clear()
    try:
        for s, d in pairs:
            c.add_serializer(s)
            c.add_deserializer(d)
        yield
    finally:
        c.GLOBAL_CLASS_SERIALIZER[:] = se
        c.GLOBAL_CLASS_DESERIALIZER[:] = de


POS = {
    "field": (lambda t: t, lambda v: v, lambda w: w),
    "list": (lambda t: list[t], lambda v: [v, v], lambda w: [w, w]),
    "dict": (lambda t: dict[str, t], lambda v: {"k": v}, lambda w: {"k": w}),
    "key": (lambda t: dict[t, bool], lambda v: {v: True}, lambda w: {w: True}),
    "opt": (lambda t: typing.Optional[t], lambda v: v, lambda w: w),
    "listopt": (lambda t: list[typing.Optional[t]], lambda v: [v, None], lambda w: [w, None]),
    "tup": (lambda t: tuple[bool, t], lambda v: (True, v), lambda w: (True, w)),
    "vtup": (lambda t: tuple[t, ...], lambda v: (v,), lambda w: (w,)),
    "deque": (lambda t: collections.deque[t], lambda v: collections.deque([v]), lambda w: [w]),
    "set": (lambda t: set[t], lambda v: {v}, lambda w: [w]),
    "counter": (lambda t: collections.Counter[t], lambda v: collections.Counter({v: 2}), lambda w: {w: 2}),
    "ddict": (lambda t: collections.defaultdict[str, list[t]],
              lambda v: collections.defaultdict(list, {"k": [v]}), lambda w: {"k": [w]}),
    "deep": (lambda t: dict[str, list[tuple[t, t]]], lambda v: {"k": [(v, v)]}, lambda w: {"k": [(w, w)]}),
    "union": (lambda t: typing.Union[t, bool, list[t]], lambda v: v, lambda w: w),
    "unionlist": (lambda t: typing.Union[bool, list[t]], lambda v: [v], lambda w: [w]),
    "optunion": (lambda t: typing.Union[bool, t, None], lambda v: v, lambda w: w),
    "alias": (lambda t: typing.TypeAliasType("TA_", list[t]), lambda v: [v], lambda w: [w]),
}
DIRECT = ("field", "list", "dict", "opt", "tup", "vtup", "deque", "deep", "union", "unionlist", "key", "alias")


def count(v, t):
    if type(v) is t or (t is pathlib.Path and isinstance(v, t)):
        return 1
    if isinstance(v, collections.Counter):
        return sum(count(k, t) for k in v)
    if isinstance(v, dict):
        return sum(count(k, t) + count(e, t) for k, e in v.items())
    if isinstance(v, (list, tuple, set, collections.deque)):
        return sum(count(e, t) for e in v)
    return 0


def _pos(hname, p, how):
    """how: class-level, global, or both (the class-level one wins)."""
    def build():
        typ, pool = _handled()[hname]
        ann, mk, wr = POS[p]
        log = []
        c = codec("c", typ, pool, log)
        g0, g1 = codec("f", typ, pool, log), codec("g", typ, pool, log)
        opts = {} if how == "global" else dict(class_serializer=c[0], class_deserializer=c[1])
        glob = [g0, g1] if how != "class" else []
        with registered(*glob):
            # a class with its own (default) settings below
            cls = make_class("Cs", [F("x", INT, ann=ann(typ)), F("z", BOOL)], **opts)
        return typ, pool, log, glob, cls, ann(typ)

    def run(inp, env):
        from serde import from_dict, from_tuple, to_dict, to_tuple

        typ, pool, log, glob, cls, t = env
        _, mk, wr = POS[p]
        i = inp.choice("v", len(pool))
        val = mk(pool[i])
        w = f"{'c' if how != 'global' else 'g'}{i}"
        w = wr({"Dc": w} if hname == "dc" and p in ("union", "optunion") else w)
        z = inp.bool("z")
        tag = "g" if how == "global" else "c"
        n = count(val, typ)
        with registered(*glob):
            del log[:]
            x = cls(val, z)
            if inp.flag("tuple"):
                d = to_tuple(x, convert_sets=True)
                check(same(d, (w, z)), "written by the right serializer (tuple)")
            else:
                d = to_dict(x, convert_sets=True)
                check(same(d, {"x": w, "z": z}), "written by the right serializer")
            check(len(log) == n and all([e[:2] == ("se", tag) for e in log]), "called once for every value")
            del log[:]
            y = from_dict(cls, d) if type(d) is dict else from_tuple(cls, d)
            check(y.x == val and same(y.z, z) and type(y.x) is type(val), "read back")
            check(len(log) == n and all([e[:3] == ("de", tag, typ) for e in log]), "called once, with the type")
            if how == "global" and p in DIRECT:
                del log[:]
                d = to_dict(val, c=t, convert_sets=True)
                check(same(d, w), "written by the last registered one (direct)")
                check(len(log) == n, "once each (direct)")
                y = from_dict(t, d)
                check(y == val and type(y) is type(val), "read back (direct)")
        inp.reach("end")

    return Harness(f"pos:{how}:{hname}:{p}", build, run)


def _others(how):
    """No other type is touched."""
    def build():
        import serde

        log = []
        hs = _handled()
        pairs = []
        for n in ("datetime", "sub", "foreign"):
            pairs.append(codec("c", *hs[n], log))
        child = make_class("Own", [F("dt", DATETIME), F("s", STR)])

        class Both:
            """All handled types in one object."""

        from plum import Dispatcher

        disp = Dispatcher()

        class CS:
            @disp
            def serialize(self, value: datetime.datetime) -> typing.Any:
                log.append(value)
                return "dt"

            @disp
            def serialize(self, value: Sub) -> typing.Any:  # noqa: F811
                log.append(value)
                return "sub"

        class CD:
            @disp
            def deserialize(self, cls: type[datetime.datetime], value: typing.Any) -> typing.Any:
                log.append(value)
                return datetime.datetime(2000, 1, 1)

            @disp
            def deserialize(self, cls: type[Sub], value: typing.Any) -> typing.Any:  # noqa: F811
                log.append(value)
                return Sub("sub")

        fs = [F("a", INT), F("s", STR), F("d", DATE), F("t", TIME), F("l", ListS(STR, 1)), F("e", ECOLOR),
              F("u", UnionS(INT, STRB)), F("dt", DATETIME), F("sb", INT, ann=Sub),
              F("ch", INT, ann=child), F("lit", INT, ann=typing.Literal["sub", 1]), F("any", INT, ann=typing.Any)]
        opts = dict(class_serializer=CS(), class_deserializer=CD()) if how == "class" else {}
        glob = [(CS(), CD())] if how == "global" else []
        with registered(*glob):
            cls = make_class("Oth", fs, **opts)
            if how == "global":
                child = make_class("Own", [F("dt", DATETIME), F("s", STR)])
                fs[9] = F("ch", INT, ann=child)
                cls = make_class("Oth", fs, **opts)
        del serde, Both
        return log, glob, fs, cls, child

    def run(inp, env):
        from serde import from_dict, to_dict

        log, glob, fs, cls, child = env
        free = inp.choice("free", 7)
        vals = {}
        for i, f in enumerate(fs[:7]):
            vals[f.name] = f.spec.draw(inp if i == free else ReplayInputs(), f.name)
        dt = datetime.datetime(2000, 1, 1)
        ch = child(dt, "k")
        x = cls(*vals.values(), dt, Sub("sub"), ch, "sub", inp.int("any"))
        exp = {f.name: f.spec.wire(vals[f.name], W) for f in fs[:7]}
        exp.update(dt="dt", sb="sub", ch={"dt": "dt" if how == "global" else dt, "s": "k"}, lit="sub", any=x.any)
        with registered(*glob):
            del log[:]
            check(same(to_dict(x), exp), "only the handled types are affected")
            check(len(log) == (3 if how == "global" else 2), "called for the handled fields only")
            del log[:]
            y = from_dict(cls, exp)
            check(all([same(getattr(y, f.name), getattr(x, f.name)) for f in fs]), "read back")
            check(len(log) == (3 if how == "global" else 2), "called for the handled fields only")
        inp.reach("end")

    return Harness(f"others:{how}", build, run)


def _classes():
    """Class-level functions belong to their class: not to nested, parent, or sub classes."""
    def build():
        log = []
        hs = _handled()
        a, b = codec("a", *hs["datetime"], log), codec("b", *hs["datetime"], log)

        def o(c):
            return dict(class_serializer=c[0], class_deserializer=c[1])

        na = make_class("NA", [F("v", DATETIME)], **o(a))
        nn = make_class("NN", [F("v", DATETIME)])
        par = make_class("PB", [F("a", INT, ann=na), F("n", INT, ann=nn), F("v", DATETIME), F("la", INT, ann=list[na])],
                         **o(b))
        out = make_class("ON", [F("p", INT, ann=par), F("v", DATETIME)])
        sub = make_class("SubN", [F("w", DATETIME)], bases=(na,))
        sub2 = make_class("SubB", [F("w", DATETIME)], bases=(na,), **o(b))
        flat = make_class("FlN", [F("x", DATETIME), F("f", INT, ann=na, opts={"flatten": True})])
        dts = hs["datetime"][1]
        return log, dts, na, nn, par, out, sub, sub2, flat

    def run(inp, env):
        from serde import from_dict, to_dict

        log, dts, na, nn, par, out, sub, sub2, flat = env
        i = inp.choice("i", 2)
        dt = dts[i]
        pick = inp.pick("which", ["nested", "sub", "sub2", "parent", "flat"])
        with registered():
            if pick == "nested":
                x = out(par(na(dt), nn(dt), dt, [na(dt)]), dt)
                exp = {"p": {"a": {"v": f"a{i}"}, "n": {"v": dt}, "v": f"b{i}", "la": [{"v": f"a{i}"}]}, "v": dt}
            elif pick == "sub":
                x, exp = sub(dt, dt), {"v": dt, "w": dt}
            elif pick == "sub2":
                x, exp = sub2(dt, dt), {"v": f"b{i}", "w": f"b{i}"}
            elif pick == "flat":
                x, exp = flat(dt, na(dt)), {"x": dt, "v": f"a{i}"}
            else:
                x, exp = na(dt), {"v": f"a{i}"}
            check(same(to_dict(x), exp), "every class by its own functions")
            check(same(from_dict(type(x), exp), x), "read back")
        inp.reach("end")

    return Harness("classes", build, run)


def _stack():
    """Globals of different types coexist; the last one registered for a type wins, everywhere."""
    def build():
        log = []
        hs = _handled()
        names = ["datetime", "sub", "datetime", "foreign", "sub"]
        pairs = [codec("pqrst"[i], *hs[n], log) for i, n in enumerate(names)]
        out = []
        for k in range(len(pairs) + 1):
            with registered(*pairs[:k]):
                cls = None
                if k >= 4:
                    cls = make_class("St", [F("d", DATETIME), F("s", INT, ann=Sub), F("f", INT, ann=Foreign),
                                            F("ld", INT, ann=list[datetime.datetime]),
                                            F("ud", INT, ann=typing.Union[int, datetime.datetime])])
                elif k >= 1:
                    cls = make_class("St", [F("d", DATETIME), F("s", INT, ann=Sub),
                                            F("ld", INT, ann=list[datetime.datetime])])
            out.append(cls)
        return names, pairs, out, hs

    def run(inp, env):
        from serde import from_dict, to_dict

        names, pairs, clss, hs = env
        k = inp.choice("k", len(pairs) + 1)
        i = inp.choice("i", 2)

        def w(n, builtin):
            ks = [j for j in range(k) if names[j] == n]
            return f"{'pqrst'[ks[-1]]}{i}" if ks else builtin

        dt, sb, fo = hs["datetime"][1][i], hs["sub"][1][i], hs["foreign"][1][i]
        with registered(*pairs[:k]):
            d = w("datetime", dt)
            check(same(to_dict(dt), d) or (k == 0 and same(to_dict(dt), dt.isoformat())), "direct")
            check(same(to_dict([dt], c=list[datetime.datetime], reuse_instances=True), [d]), "direct list")
            u = typing.Union[bool, datetime.datetime]
            check(same(to_dict(dt, c=u, reuse_instances=True), d), "direct union")
            if k:
                check(same(from_dict(datetime.datetime, d), dt), "direct back")
                check(same(from_dict(u, d), dt), "direct union back")
                check(same(from_dict(dict[str, datetime.datetime], {"k": d}), {"k": dt}), "direct dict back")
            cls = clss[k]
            if k >= 1:
                vals = [dt, sb] + ([fo] if k >= 4 else []) + [[dt]] + ([dt] if k >= 4 else [])
                x = cls(*vals)
                exp = {"d": d, "s": w("sub", sb), "ld": [d]}
                if k >= 4:
                    exp["f"], exp["ud"] = w("foreign", None), d
                g = to_dict(x)
                check(len(g) == len(exp) and all([g[n] == exp[n] for n in exp]), "fields")
                y = from_dict(cls, exp)
                check(y == x, "fields back")
        inp.reach("end")

    return Harness("stack", build, run)


def _legacy(label, th):
    """The legacy functions are offered every field with its declared type; SerdeSkip falls back."""
    def build():
        import serde

        spec = th()
        log = []
        types = (spec.py, getattr(spec.py, "__supertype__", None))

        def leg(cls, o):
            log.append((cls, o))
            if cls in types and o is log[2] and log[0] == "take":
                return log[1]
            raise serde.SerdeSkip()

        return spec, log, make_class("Leg", [F("a", INT, ann=typing.Literal["q"]), F("m", spec), F("z", DATE)],
                                     serializer=leg, deserializer=leg)

    def run(inp, env):
        from serde import from_dict, from_tuple, to_dict, to_tuple
        import datetime as dtm

        spec, log, cls = env
        v = spec.draw(inp, "v")
        z = dtm.date(2020, 1, 2)
        x = cls("q", v, z)
        held = x.m
        tup = inp.flag("tuple")
        o = TUP if tup else W
        take = inp.flag("take")
        mark = ["a", "result"]
        log[:] = ["take" if take else "skip", mark, held]
        d = to_tuple(x) if tup else to_dict(x)
        w = mark if take else spec.wire(v, o)
        check(same(d, ("q", w, z) if tup else {"a": "q", "m": w, "z": z}), "offered or built in")
        if take:
            check((d[1] if tup else d["m"]) is mark, "stored unchanged")
        offers = log[3:]
        check(any([c in (spec.py, getattr(spec.py, '__supertype__', None)) and e is held for c, e in offers]), "offered with type and value")
        check(any([e is z and c is dtm.date for c, e in offers]), "every field is offered")
        data = ("q", w, z) if tup else {"a": "q", "m": w, "z": z}
        log[:] = ["take" if take else "skip", v, w]
        y = from_tuple(cls, data) if tup else from_dict(cls, data)
        check(same(y.m, v) and same(y.z, z), "read back")
        check(any([c in (spec.py, getattr(spec.py, '__supertype__', None)) and e is w for c, e in log[3:]]), "offered with type and data")
        inp.reach("end")

    return Harness(f"legacy:{label}", build, run)


def _legacy_types():
    """A legacy function handling one type: round trips with the same type in containers."""
    def build():
        import serde

        def se(cls, o):
            if cls is datetime.datetime:
                return "dt:" + o.isoformat()
            raise serde.SerdeSkip()

        def de(cls, o):
            if cls is datetime.datetime:
                return datetime.datetime.fromisoformat(o[3:])
            raise serde.SerdeSkip()

        out = {}
        for n, (ann, mk, wr) in POS.items():
            if n in ("union", "unionlist", "optunion", "alias"):
                continue
            out[n] = make_class("Lt", [F("x", INT, ann=ann(datetime.datetime)), F("d", DATETIME)],
                                serializer=se, deserializer=de)
        return out

    def run(inp, env):
        from serde import from_dict, to_dict

        n = inp.pick("n", env)
        dt = datetime.datetime(2020, 1, 2)
        x = env[n](POS[n][1](dt), dt)
        d = to_dict(x, convert_sets=True, reuse_instances=False)
        check(same(d["d"], "dt:2020-01-02T00:00:00"), "the field itself")
        check(same(from_dict(env[n], d), x), "round trip")
        inp.reach("end")

    return Harness("legacy-types", build, run)


def _precedence():
    """field > class-level > global; class-level > legacy."""
    def build():
        import serde

        log = []
        hs = _handled()
        c, g = codec("c", *hs["datetime"], log), codec("g", *hs["datetime"], log)

        def leg(cls, o):
            if cls is datetime.datetime:
                return hs["datetime"][1][int(o[-1])] if isinstance(o, str) else f"l{hs['datetime'][1].index(o)}"
            raise serde.SerdeSkip()

        def fse(v):
            return f"f{hs['datetime'][1].index(v)}"

        def fde(v):
            return hs["datetime"][1][int(v[1:])]

        out = []
        for fld in (0, 1):
            for cl in (0, 1):
                for lg in (0, 1):
                    for gl in (0, 1):
                        o = {}
                        if cl:
                            o.update(class_serializer=c[0], class_deserializer=c[1])
                        if lg:
                            o.update(serializer=leg, deserializer=leg)
                        with registered(*([g] if gl else [])):
                            cls = make_class("Pr", [F("d", DATETIME, opts={"serializer": fse, "deserializer": fde}
                                                      if fld else {}), F("n", INT)], **o)
                        w = "f" if fld else "c" if cl else "g" if gl else "l" if lg else None
                        out.append((cls, w, [g] if gl else []))
        return hs["datetime"][1], out

    def run(inp, env):
        from serde import from_dict, from_tuple, to_dict, to_tuple

        pool, out = env
        cls, w, gl = inp.pick("c", out)
        i = inp.choice("i", 2)
        n = inp.int("n")
        x = cls(pool[i], n)
        exp = pool[i] if w is None else f"{w}{i}"
        with registered(*gl):
            check(same(to_dict(x), {"d": exp, "n": n}) and same(to_tuple(x), (exp, n)), "precedence")
            check(same(from_dict(cls, {"d": exp, "n": n}), x) and same(from_tuple(cls, (exp, n)), x), "back")
        inp.reach("end")

    return Harness("precedence", build, run)


def harnesses(tier):
    out = []
    for how in ("class", "global", "both"):
        for h in HANDLED if tier == "thorough" or how != "both" else ("datetime", "dc"):
            for p in POS:
                if h == "int" and p in ("key", "counter", "ddict"):
                    continue
                out.append(_pos(h, p, how))
    core = universe("core" if tier == "quick" else tier)
    out += [_legacy(l, t) for l, t in core if l not in ("ss_Path",)]
    return out + [_others("class"), _others("global"), _classes(), _stack(), _legacy_types(), _precedence()]
