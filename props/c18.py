"""C18  Type-check modes: coerce converts, disabled stores as is."""
import dataclasses

from props.common import *
from props.c33 import similar
from symex.specs import MyFloat, MyInt
from symex.junk import junk

BOUNDS = ("the four primitive types, a NewType and primitive subclasses in every container position "
          "(depth 2) and every feature combination; leaf data: any int, bool, float (symbolic), None, "
          "strings of a pool, empty and one-element lists and dicts; named and tuple forms; parents "
          "and children of every pair of modes; every universe type in coerce classes")
ASSUMPTIONS = ["declared_type(value) is Python's own constructor; None is never convertible; unions "
               "and non-primitive types are not converted (as in strict classes)",
               "a float read through from_json/from_yaml is converted by the front end (C21)"]

PRIMS = {"int": INT, "bool": BOOL, "float": FLOAT, "str": STR, "myint": SUBINT, "mystr": SUBSTR,
         "myfloat": SUBFLOAT, "newtype": NTI, "newstr": NTS}
BASE = {"newtype": int, "newstr": str}

# position -> (annotation, value with leaf v, plain with leaf w, the leaf of a result)
POSITIONS = {
    "field": (lambda t: t, lambda v: v, lambda w: w),
    "list": (lambda t: list[t], lambda v: [v], lambda w: [w]),
    "opt": (lambda t: typing.Optional[t], lambda v: v, lambda w: w),
    "dict": (lambda t: dict[str, t], lambda v: {"k": v}, lambda w: {"k": w}),
    "tup": (lambda t: tuple[str, t], lambda v: ("a", v), lambda w: ("a", w)),
    "vtup": (lambda t: tuple[t, ...], lambda v: (v,), lambda w: (w,)),
    "deque": (lambda t: collections.deque[t], lambda v: collections.deque([v]), lambda w: [w]),
    "ddict": (lambda t: collections.defaultdict[str, list[t]],
              lambda v: collections.defaultdict(list, {"k": [v]}), lambda w: {"k": [w]}),
    "listopt": (lambda t: list[typing.Optional[t]], lambda v: [v], lambda w: [w]),
    "dictlist": (lambda t: dict[str, list[t]], lambda v: {"k": [v]}, lambda w: {"k": [w]}),
    "seq": (lambda t: typing.Sequence[t], lambda v: [v], lambda w: [w]),
    "tuplist": (lambda t: tuple[list[t], int], lambda v: ([v], 1), lambda w: ([w], 1)),
}


def _leafdata(inp, n, t=int):
    """Any leaf: symbolic where the conversion to t is arithmetic, else from a pool (C parsers)."""
    k = inp.pick(n + ".kind", ["none", "bool", "int", "float", "str", "list", "dict"])
    if k == "none":
        return None
    if k == "bool":
        return inp.bool(n + ".b")
    if k == "int":
        if issubclass(t, (str, float)) or t is MyInt:
            return inp.pick(n + ".i", [0, 1, -12, 2**60, 10**400])
        return inp.int(n + ".i", -(2**53), 2**53)
    if k == "float":
        if not t in (float, bool):
            return inp.pick(n + ".f", [0.0, 2.5, -1e300, float("nan"), float("-inf")])
        return inp.float(n + ".f")
    if k == "str":
        return inp.pick(n + ".s", ["", "12", "-7 ", "2.5", "x", "True", "nan", "1_0", "٣"])
    if k == "list":
        return inp.pick(n + ".l", [[], [1], ["a"]])
    return inp.pick(n + ".d", [{}, {"a": 1}])


def conv(t, v):
    """(convertible?, declared_type(value))"""
    if v is None:
        return False, None
    try:
        return True, t(v)
    except Exception:  # noqa: BLE001
        return False, None


def _coerce(prim, pos):
    ann, mk, wire = POSITIONS[pos]

    def build():
        import serde

        t = PRIMS[prim].py
        return BASE.get(prim, t), make_class("C", [F("a", INT), F("x", INT, ann=ann(t))],
                                             type_check=serde.coerce)

    def run(inp, env):
        from serde import from_dict, from_tuple, to_dict, to_tuple

        t, cls = env
        d = _leafdata(inp, "d", t)
        ok, v = conv(t, d)
        if d is None and "opt" in pos:
            ok = True
        got, y = attempt(lambda: from_dict(cls, {"a": 1, "x": wire(d)}))
        check(got == ok and (not ok or same(y.x, mk(v))), "read by name")
        got, y = attempt(lambda: from_tuple(cls, (1, wire(d))))
        check(got == ok and (not ok or same(y.x, mk(v))), "read by position")
        x = cls(a=1, x=mk(d))
        check(same(x.x, mk(d)), "construction stores")
        got, w = attempt(lambda: to_dict(x))
        check(got == ok and (not ok or same(w, {"a": 1, "x": wire(v)})), "written by name")
        got, w = attempt(lambda: to_tuple(x))
        check(got == ok and (not ok or same(w, (1, wire(v)))), "written by position")
        inp.reach("ok" if ok else "fail")

    reach = ("ok",) if prim in ("bool", "str", "mystr", "newstr") and "opt" in pos else ("ok", "fail")
    return Harness(f"coerce:{prim}:{pos}", build, run, reach=reach)


def _sets(prim):
    """Elements of sets and keys of dicts are converted as well."""
    def build():
        import serde

        t = PRIMS[prim].py
        return t, {"set": make_class("S", [F("x", INT, ann=set[t])], type_check=serde.coerce),
                   "frozenset": make_class("Fs", [F("x", INT, ann=frozenset[t])], type_check=serde.coerce),
                   "dict": make_class("D", [F("x", INT, ann=dict[t, int])], type_check=serde.coerce)}

    def run(inp, env):
        from serde import from_dict, to_dict

        t, clss = env
        pos, cls = inp.pick("pos", list(clss.items()))
        d = inp.pick("d", [1, True, 2.5, "12", "x", "", "2.5"])
        ok, v = conv(t, d)
        got, y = attempt(lambda: from_dict(cls, {"x": {d: d} if pos == "dict" else [d]}))
        mk = {"set": lambda v, d: {v}, "frozenset": lambda v, d: frozenset([v])}.get(pos)
        if pos == "dict":
            ok2, v2 = conv(int, d)
            ok = ok and ok2
            check(got == ok and (not ok or same(y.x, {v: v2})), "key")
        else:
            check(got == ok and (not ok or same(y.x, mk(v, d))), "element")
            ok3, w = attempt(lambda: to_dict(cls(mk(d, d)), convert_sets=True))
            check(ok3 == ok and (not ok or same(w, {"x": [v]})), "written")
        inp.reach("end")

    return Harness(f"hashed:{prim}", build, run)


def _disabled(prim, pos):
    ann, mk, wire = POSITIONS[pos]

    def build():
        import serde

        t = PRIMS[prim].py
        return make_class("D", [F("a", INT), F("x", INT, ann=ann(t))], type_check=serde.disabled)

    def run(inp, cls):
        from serde import from_dict, from_tuple, to_dict, to_tuple

        d = _leafdata(inp, "d")
        y = from_dict(cls, {"a": d, "x": wire(d)})
        check(same(y.a, d) and same(y.x, mk(d)), "read by name")
        y = from_tuple(cls, (d, wire(d)))
        check(same(y.a, d) and same(y.x, mk(d)), "read by position")
        x = cls(a=d, x=mk(d))
        check(same(x.a, d) and same(x.x, mk(d)), "construction")
        check(same(to_dict(x), {"a": d, "x": wire(d)}), "written by name")
        check(same(to_tuple(x), (d, wire(d))), "written by position")
        inp.reach("end")

    return Harness(f"disabled:{prim}:{pos}", build, run)


def _strict(prim, pos):
    """In strict classes a value of another type is rejected when reading and constructing."""
    ann, mk, wire = POSITIONS[pos]

    def build():
        t = PRIMS[prim].py
        return BASE.get(prim, t), make_class("S", [F("a", INT), F("x", INT, ann=ann(t))])

    def run(inp, env):
        from serde import from_dict, from_tuple

        t, cls = env
        d = _leafdata(inp, "d", t)
        ok = isinstance(d, t) or (d is None and "opt" in pos)
        got, y = attempt(lambda: from_dict(cls, {"a": 1, "x": wire(d)}))
        check(got == ok and (not ok or same(y.x, mk(d))), "read by name")
        got, y = attempt(lambda: from_tuple(cls, (1, wire(d))))
        check(got == ok and (not ok or same(y.x, mk(d))), "read by position")
        try:
            cls(a=1, x=mk(d))
            got = True
        except Exception:  # noqa: BLE001
            got = False
        check(got == ok, "construction")
        inp.reach("ok" if ok else "fail")

    reach = ("ok", "fail") if not prim.startswith("my") or "opt" in pos else ("fail",)
    return Harness(f"strict:{prim}:{pos}", build, run, reach=reach)


def _combo(combo, mode):
    """The mode holds with every combination of field features."""
    label, o = combo[:2]
    custom = "serializer" in o

    def build():
        import serde

        return combo_class(combo, type_check=getattr(serde, mode)), getattr(serde, mode)

    def run(inp, env):
        from serde import from_dict, to_dict

        cls, _ = env
        key = o.get("rename", "m_m")
        d = _leafdata(inp, "d")
        ok, v = (True, d) if mode == "disabled" or custom else conv(int, d)
        for k in [key] + (["al2"] if "alias" in o else []):
            got, y = attempt(lambda: from_dict(cls, {"a_a": 1, k: d, "z_z": 2}))
            if d is None and ("+default" in "+" + label or "factory" in label) and not custom and mode == "coerce":
                continue  # (None for a field with a default: decided by C02)
            check(got == ok and (not ok or (same(y.m_m, v) and same(y.a_a, 1) and same(y.z_z, 2))), "read")
        if "skip" in label:
            inp.reach("end")
            return
        got, w = attempt(lambda: to_dict(cls(a_a=1, m_m=d, z_z=2)))
        check(got == ok and (not ok or same(w, {"a_a": 1, key: v, "z_z": 2})), "written")
        inp.reach("end")

    return Harness(f"combo:{mode}:{label}", build, run)


MODES = ["strict", "coerce", "disabled"]


def _nest(pm, how):
    """Every class follows its own mode, whatever the mode of its parent, base or siblings."""
    def build():
        import serde

        out = []
        for cm in MODES:
            c = make_class("Child", [F("x", INT)], type_check=getattr(serde, cm))
            if how == "field":
                p = make_class("Parent", [F("c", INT, ann=c), F("y", INT)], type_check=getattr(serde, pm))
            elif how == "list":
                p = make_class("Parent", [F("c", INT, ann=list[c]), F("y", INT)],
                               type_check=getattr(serde, pm))
            elif how == "flatten":
                p = make_class("Parent", [F("c", INT, ann=c, opts={"flatten": True}), F("y", INT)],
                               type_check=getattr(serde, pm))
            elif how == "union":
                p = make_class("Parent", [F("c", INT, ann=typing.Union[c, str]), F("y", INT)],
                               type_check=getattr(serde, pm), tagging=serde.Untagged)
            else:
                b = make_class("Base", [F("x", INT)], type_check=getattr(serde, cm))
                p = make_class("Parent", [F("y", INT)], bases=(b,), type_check=getattr(serde, pm))
            out.append((cm, p))
        return out

    def run(inp, env):
        from serde import from_dict

        cm, p = inp.pick("child", env)
        if how == "base":
            cm = pm
        which = inp.pick("which", ["x", "y"])
        d = _leafdata(inp, "d")
        m = cm if which == "x" else pm
        ok, v = {"strict": lambda: (isinstance(d, int), d), "coerce": lambda: conv(int, d),
                 "disabled": lambda: (True, d)}[m]()
        x, y = (d, 5) if which == "x" else (4, d)
        data = {"field": lambda: {"c": {"x": x}, "y": y}, "list": lambda: {"c": [{"x": x}], "y": y},
                "union": lambda: {"c": {"x": x}, "y": y}}.get(how, lambda: {"x": x, "y": y})()
        got, r = attempt(lambda: from_dict(p, data))
        check(got == ok, "accepted")
        if got:
            c = r if how == "base" else r.c[0] if how == "list" else r.c
            check(same(c.x, v if which == "x" else 4), "x")
            check(same(r.y, v if which == "y" else 5), "y")
        inp.reach("end")

    return Harness(f"nest:{how}:{pm}", build, run)


def _valid(label, th):
    """Values that already have the declared type are left alone in every mode."""
    def build():
        import serde

        spec = th()
        return spec, [make_class("V", [F("x", spec)], type_check=getattr(serde, m))
                      for m in ("coerce", "disabled")]

    def run(inp, env):
        from serde import from_dict, to_dict

        spec, clss = env
        cls = inp.pick("cls", clss)
        v = spec.draw(inp, "v")
        for ri, cs in ((True, False), (False, True)):
            w = spec.wire(v, WireOpts(reuse_instances=ri, convert_sets=cs))
            x = cls(v)
            check(same(to_dict(x, reuse_instances=ri, convert_sets=cs), {"x": w}), "written")
            check(same(from_dict(cls, {"x": w}, reuse_instances=ri), x), "read")
        inp.reach("end")

    return Harness(f"valid:{label}", build, run)


def _union(mode):
    """Union members are selected, not converted."""
    def build():
        import serde

        u = typing.Union[int, str, list[int]]
        return make_class("U", [F("u", INT, ann=u), F("l", INT, ann=list[u])],
                          type_check=getattr(serde, mode))

    def run(inp, cls):
        from serde import from_dict, to_dict

        m = inp.pick("m", [INT, STRB, ListS(INT, 1)])
        v = m.draw(inp, "v")
        d = {"u": v, "l": [v]}
        y = from_dict(cls, d)
        check(same(y.u, v) and same(y.l, [v]), "read")
        check(same(to_dict(cls(v, [v])), d), "written")
        got, _ = attempt(lambda: from_dict(cls, {"u": None, "l": []}))
        check(not got, "data of no member")
        inp.reach("end")

    return Harness(f"union:{mode}", build, run)


def harnesses(tier):
    out = []
    prims = PRIMS if tier == "thorough" else ["int", "bool", "float", "str", "myint", "newtype"]
    for p in prims:
        out.append(_sets(p)) if not p.startswith("new") else None
        for pos in POSITIONS:
            if tier != "thorough" and p in ("myint", "newtype") and pos not in ("field", "list", "opt", "dict"):
                continue
            out.append(_coerce(p, pos))
            if p in ("int", "float") or tier == "thorough":
                out += [_disabled(p, pos), _strict(p, pos)]
    for c in feature_combos(tier):
        out += [_combo(c, "coerce"), _combo(c, "disabled")]
    for how in ("field", "list", "flatten", "union", "base"):
        out += [_nest(m, how) for m in MODES]
    for label, th in universe(tier if tier == "thorough" else "core"):
        out.append(_valid(label, th))
    out += [_union(m) for m in MODES]
    return out + similar("coerce")
