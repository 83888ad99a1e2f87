"""C25  Generic classes deserialize with the actual type arguments."""
import dataclasses
import typing

from props.common import *
from symex.formats import FORMATS, Inexpressible, TOML

BOUNDS = ("22 layouts of generic classes (one to three variables, fields of variables and containers of them; "
          "nested with swapped, renamed, repeated, partially and fully bound arguments; inherited and bound by "
          "subclasses; in containers, as arguments of each other, directly; PEP 695; undecorated, transparent, "
          "flattened, with field options) x representative type arguments; values symbolic; dict, tuple and all "
          "formats; data that does not fit the argument")
ASSUMPTIONS = ["fields of type variables are written according to their runtime values (unions of classes as "
               "arguments and coerced or class-customized arguments are outside)",
               "generic classes as union members and a subclass reusing a type variable of its base class with "
               "another meaning are outside (not supported)"]

T, U, V = typing.TypeVar("T"), typing.TypeVar("U"), typing.TypeVar("V")
X = typing.TypeVar("X")


def raw(name, anns, bases, deco=None, opts=None, **serde_opts):
    """@serde class name(*bases): anns"""
    fs = [F(n, INT, ann=a, opts=(opts or {}).get(n, {})) for n, a in anns.items()]
    return make_class(name, fs, bases=bases, deco=deco, **serde_opts)


def gen(cls, args, **fields):
    """The spec of cls[args] with the given field specs."""
    d = DC(cls.__name__, [F(n, s) for n, s in fields.items()], cls=cls)
    d.py = cls[args] if args is not None else cls
    return d


def g1(name="G1", **o):
    return raw(name, {"x": T}, (typing.Generic[T],), **o)


def g2(name="G2", **o):
    return raw(name, {"n": int, "x": T, "y": U}, (typing.Generic[T, U],), **o)


def gc():
    """Containers of variables."""
    return raw("GC", {"l": list[T], "d": dict[str, T], "o": typing.Optional[U], "t": tuple[T, U]},
               (typing.Generic[T, U],))


def GCs(c, a, b):
    return gen(c, (a.py, b.py), l=ListS(a, 1), d=DictS(KSTR2, a, 1), o=Opt(b), t=Tup(a, b))


def one(a, b):
    return gen(g1(), a.py, x=a)


def two(a, b):
    return gen(g2(), (a.py, b.py), n=INT, x=a, y=b)


def cont(a, b):
    return GCs(gc(), a, b)


def swap(a, b):
    c2, c1 = g2(), g1()
    n = raw("N", {"a": c2[U, T], "b": c1[T], "c": c1[int]}, (typing.Generic[T, U],))
    return gen(n, (a.py, b.py), a=gen(c2, (b.py, a.py), n=INT, x=b, y=a), b=gen(c1, a.py, x=a),
               c=gen(c1, int, x=INT))


def vars_(a, b):
    """Other names of variables outside."""
    c2 = g2()
    n = raw("Nv", {"p": c2[V, str], "q": V}, (typing.Generic[V],))
    m = raw("Nw", {"r": n[U], "s": n[T]}, (typing.Generic[U, T],))
    sn = lambda x: gen(n, x.py, p=gen(c2, (x.py, str), n=INT, x=x, y=STR), q=x)  # noqa: E731
    return gen(m, (a.py, b.py), r=sn(a), s=sn(b))


def nestc(a, b):
    """Containers of generic classes of variables."""
    c1 = g1()
    s = gen(c1, a.py, x=a)
    n = raw("Nc", {"l": list[c1[T]], "o": typing.Optional[c1[T]]}, (typing.Generic[T],))
    return gen(n, a.py, l=ListS(s, 1), o=Opt(s))


def nestd(a, b):
    c1 = g1()
    s = gen(c1, b.py, x=b)
    n = raw("Nd", {"d": dict[str, c1[T]], "t": tuple[c1[T], int], "i": c1[list[U]]}, (typing.Generic[U, T],))
    return gen(n, (a.py, b.py), d=DictS(KSTR2, s, 1), t=Tup(s, INT), i=gen(c1, list[a.py], x=ListS(a, 1)))


def plainhost(a, b):
    """Instantiations in an ordinary class."""
    c1, c2 = g1(), g2()
    return DC("Host", [F("a", gen(c1, a.py, x=a)), F("b", gen(c1, b.py, x=b)),
                       F("l", ListS(gen(c2, (b.py, a.py), n=INT, x=b, y=a), 1)),
                       F("o", Opt(gen(c1, list[b.py], x=ListS(b, 1)))),
                       F("t", Tup(gen(c1, int, x=INT), gen(c1, str, x=STR)))])


def sub(a, b):
    c = g1()
    s = raw("Sub", {"z": U}, (c[T], typing.Generic[T, U]))
    return gen(s, (a.py, b.py), x=a, z=b)


def subfix(a, b):
    s = raw("SubFix", {"z": int}, (g1()[a.py],))
    return gen(s, None, x=a, z=INT)


def subpart(a, b):
    s = raw("SubPart", {"w": list[T]}, (g2()[T, b.py], typing.Generic[T]))
    return gen(s, a.py, n=INT, x=a, y=b, w=ListS(a, 1))


def subren(a, b):
    s = raw("SubRen", {"z": V}, (g2()[X, V], typing.Generic[X, V]))
    return gen(s, (a.py, b.py), n=INT, x=a, y=b, z=b)


def subsub(a, b):
    m = raw("Mid", {"m": T}, (g2()[T, b.py], typing.Generic[T]))
    s = raw("Leaf", {"z": bool}, (m[a.py],))
    return gen(s, None, n=INT, x=a, y=b, m=a, z=BOOL)


def subcont(a, b):
    s = raw("SubCont", {"z": int}, (g1()[list[a.py]],))
    return gen(s, None, x=ListS(a, 1), z=INT)


def arg_nest(a, b):
    c1, c2 = g1(), g2()
    i = gen(c2, (a.py, int), n=INT, x=a, y=INT)
    return gen(c1, i.py, x=gen(c1, c1[i.py], x=gen(c1, i.py, x=i)).fields[0].spec.fields[0].spec)


def arg_deep(a, b):
    c1 = g1()
    i = gen(c1, a.py, x=a)
    ii = gen(c1, i.py, x=i)
    return gen(c1, dict[str, list[ii.py]], x=DictS(KSTR2, ListS(ii, 1), 1))


def three(a, b):
    c = raw("G3", {"z": V, "x": T, "y": U}, (typing.Generic[T, U, V],))
    n = raw("N3", {"g": c[V, int, T], "k": T}, (typing.Generic[T, V],))
    return gen(n, (a.py, b.py), g=gen(c, (b.py, int, a.py), z=a, x=b, y=INT), k=a)


def pep695(a, b):
    ns = {}
    exec("class P6[A, B]:\n    x: A\n    y: list[B]\n    z: dict[str, A]\n", ns)  # noqa: S102
    import serde

    ns["P6"].__module__ = "symex_programs"
    c = serde.serde(ns["P6"])
    ns2 = {"P6": c}
    exec("class Q6[A, B]:\n    p: P6[B, A]\n    q: P6[int, bool]\n", ns2)  # noqa: S102
    ns2["Q6"].__module__ = "symex_programs"
    import symex_programs

    symex_programs.P6 = c
    q = serde.serde(ns2["Q6"])
    sp = lambda x, y: gen(c, (x.py, y.py), x=x, y=ListS(y, 1), z=DictS(KSTR2, x, 1))  # noqa: E731
    return gen(q, (a.py, b.py), p=sp(b, a), q=sp(INT, BOOL))


def transp(a, b):
    c = g1("Tg", transparent=True)

    class TD(DC):
        def wire(self, v, o=W):
            return self.fields[0].spec.wire(v.x, o)

    s = TD("Tg", [F("x", a)], cls=c)
    s.py = c[a.py]
    n = raw("NT", {"a": c[T], "l": list[c[T]]}, (typing.Generic[T],))
    return gen(n, a.py, a=s, l=ListS(s, 1))


def opts(a, b):
    c = raw("Go", {"x": T, "y": U, "z": list[T]}, (typing.Generic[T, U],), rename_all="pascalcase",
            opts={"x": {"rename": "ecks"}, "y": {"alias": ["why"], "kw_only": True}})
    d = DC("Go", [F("x", a, key="ecks"), F("z", ListS(a, 1), key="Z"), F("y", b, key="Y")], cls=c)
    d.py = c[a.py, b.py]

    class OD(DC):
        def wire(self, v, o=W):
            if o.named:
                return DC.wire(self, v, o)
            return (a.wire(v.x, o), b.wire(v.y, o), ListS(a, 1).wire(v.z, o))

    d.__class__ = OD
    return d


def undeco(a, b):
    """Without the decorator."""
    c = raw("Ud", {"x": T, "l": list[T]}, (typing.Generic[T],), deco=dataclasses.dataclass)
    return DC("HostU", [F("u", gen(c, a.py, x=a, l=ListS(a, 1)))])


def method(a, b):
    """Dict keys, deques, defaultdicts and varied tuples of variables."""
    c = raw("Gm", {"q": typing.Deque[T], "v": tuple[T, ...], "dd": typing.DefaultDict[str, list[T]]},
            (typing.Generic[T],))
    d = gen(c, a.py, q=DequeS(a, 1), v=VarTup(a, 1), dd=DefaultDictS(KSTR2, ListS(a, 1), list, 1))
    return d


LAYOUTS = {f.__name__: f for f in (one, two, cont, swap, vars_, nestc, nestd, plainhost, sub, subfix, subpart, subren,
                                   subsub, subcont, arg_nest, arg_deep, three, pep695, transp, opts,
                                   undeco, method)}

ARGS = [
    ("int,str", lambda: (INT, STR)), ("str,dc", lambda: (STR, inner())), ("dc,int", lambda: (inner(), INT)),
    ("enum,path", lambda: (ECOLOR, PATH)), ("datetime,bool", lambda: (DATETIME, BOOL)),
    ("list<path>,float", lambda: (ListS(PATH, 1), FLOAT)), ("opt<int>,enum", lambda: (Opt(INT), ECOLOR)),
    ("dict,tup", lambda: (DictS(KSTR2, INT, 1), Tup(INT, PATH))), ("set,date", lambda: (SetS(ECOLOR, 1), DATE)),
    ("union,uuid", lambda: (UnionS(INT, STRB), UUID_)), ("plain,list<dc>", lambda: (plain(), ListS(inner(), 1))),
    ("literal,nested", lambda: (LitS("a", 1), nested())),
    ("tup<dc>,opt<dc>", lambda: (Tup(inner(), INT), Opt(inner()))),
    ("any,newtype", lambda: (ANY, NTI)),
]


def _shape(lay, args, mk):
    def build():
        a, b = mk()
        return LAYOUTS[lay](a, b)

    def run(inp, spec):
        from serde import from_dict, from_tuple, to_dict, to_tuple

        v = spec.draw(inp, "v")
        k = inp.choice("k", 4)
        w = spec.wire(v, CS)
        if k == 0:
            check(same(to_dict(v, convert_sets=True), w), "written")
            y = from_dict(spec.py, w)
        elif k == 1:
            wt = spec.wire(v, CST)
            check(same(to_tuple(v, convert_sets=True), wt), "written (tuple)")
            y = from_tuple(spec.py, wt)
        elif k == 2:
            y = from_dict(list[spec.py], [w])
            check(type(y) is list and len(y) == 1, "a list")
            y = y[0]
        else:
            y = from_dict(typing.Optional[spec.py], w)
        check(same(y, v), "read back")
        inp.reach("end")

    return Harness(f"{lay}:{args}", build, run)


CS = WireOpts(convert_sets=True)
CST = WireOpts(named=False, convert_sets=True)


def _bad(lay, args, mk):
    """Data that an ordinary class with the same annotations rejects is rejected, and vice versa."""
    def build():
        a, b = mk()
        return LAYOUTS[lay](a, b), a, DC("Ref", [F("x", a)])

    def run(inp, env):
        from serde import from_dict
        from symex.junk import near

        spec, a, ref = env
        w = near(inp, "w", a, sym=False)
        base = {"n": 1, "y": None, "x": w, "z": 1}
        g1_, y1 = attempt(lambda: from_dict(spec.py, {k: v for k, v in base.items() if k in FIELDS[lay]}))
        g2_, y2 = attempt(lambda: from_dict(a.py, w))
        check(g1_ == g2_, "accepted exactly when the argument accepts it")
        if g1_:
            check(same(y1.x, y2), "the same value")
        inp.reach("end")

    return Harness(f"bad:{lay}:{args}", build, run)


FIELDS = {"one": ("x",), "subfix": ("x", "z")}


def _fmt(fmt, lay, args, mk):
    def build():
        a, b = mk()
        return LAYOUTS[lay](a, b)

    def run(inp, spec):
        to, frm = fmt.api()
        v = spec.draw(inp, "v")
        try:
            box = to(v, se=fmt.se())
        except Inexpressible:
            return
        check(same(frm(spec.py, box, de=fmt.de()), v), "round trip")
        inp.reach("end")

    return Harness(f"fmt:{fmt.name}:{lay}:{args}", build, run, reach=())


def _unbound():
    """Without arguments, variables mean Any; the instantiations do not influence each other."""
    def build():
        c = g1()
        n = raw("Nu", {"a": c, "b": c[int], "l": list[c[PATH.py]]}, ())
        return c, n

    def run(inp, env):
        import pathlib

        from serde import from_dict, to_dict

        c, n = env
        k = inp.pick("k", [(c, lambda v: v), (c[PATH.py], lambda v: pathlib.Path(v)), (c[str], lambda v: v),
                           (c[typing.Any], lambda v: v), (c[list[PATH.py]], None)])
        s = inp.pick("s", ["a", "b/c"])
        for t, f in (k, inp.pick("k2", [(c, lambda v: v), (c[PATH.py], lambda v: pathlib.Path(v))])):
            if f is None:
                check(same(from_dict(t, {"x": [s]}).x, [pathlib.Path(s)]), "list")
            else:
                check(same(from_dict(t, {"x": s}).x, f(s)), "by the arguments given at the point of use")
        i = inp.int("i")
        y = from_dict(n, {"a": {"x": s}, "b": {"x": i}, "l": [{"x": s}]})
        check(same(y.a.x, s) and same(y.b.x, i) and same(y.l[0].x, pathlib.Path(s)), "in one class")
        inp.reach("end")

    return Harness("unbound", build, run)


def harnesses(tier):
    out = []
    for i, lay in enumerate(LAYOUTS):
        for j, (l, mk) in enumerate(ARGS):
            if tier == "thorough" or (i + j) % 3 == 0:
                out.append(_shape(lay, l, mk))
    for lay in FIELDS:
        for l, mk in ARGS:
            if l not in ("any,newtype", "literal,nested", "union,uuid") or tier == "thorough" and l != "any,newtype":
                out.append(_bad(lay, l, mk))
    for f in FORMATS:
        for i, lay in enumerate(LAYOUTS):
            for j, (l, mk) in enumerate(ARGS):
                if "opt<" in l and f is TOML:
                    continue
                if tier == "thorough" or (j == i % 3 and f.name == "json"):
                    out.append(_fmt(f, lay, l, mk))
    return out + [_unbound()]
