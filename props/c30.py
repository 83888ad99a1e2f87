"""C30  A type means the same in every position."""
import collections
import dataclasses
import typing

from props.common import *
from symex.junk import junk, near

BOUNDS = ("every type shape of the universe, read and written as field, element of list, list of lists, deque, tuples, "
          "value of dict and defaultdict, Optional, field of a nested, inherited, flattened, optional, transparent and "
          "undecorated class, type argument, alias, union member and as the type passed directly (alone and inside "
          "containers); well-formed and arbitrary data of depth two with symbolic leaves; strict, coerce and disabled")
ASSUMPTIONS = ["types passed directly and type arguments convert primitives like their constructors (also booleans): "
               "compared when the field accepts the data, and among themselves", "union members never convert: compared "
               "for well-formed data", "sets passed directly are always written as lists"]

T = typing.TypeVar("T")


class Pos:
    """type given T; data given the data of T; the value of T in the result; the object given a value."""

    def __init__(self, name, typ, data, get, put=None, loose=False, modes=("strict", "coerce", "disabled"), tup=None):
        self.name, self.typ, self.data, self.get, self.loose, self.modes = name, typ, data, get, loose, modes
        self.put = put or data
        self.tup = tup


def _host(t, **o):
    return make_class("Host", [F("v", INT, ann=t)], **o)


def _strict():
    def fld(name, typ, data, get):
        return Pos(name, lambda t, o: _host(typ(t), **o), lambda w: {"v": data(w)}, lambda y: get(y.v),
                   lambda H, v: H(data(v)))

    def cls(name, typ, data, get, put):
        return Pos(name, typ, data, get, put)

    def nested(t, o):
        i = make_class("In", [F("v", INT, ann=t)], **o)
        return make_class("Out", [F("a", INT, ann=i), F("l", INT, ann=list[i])], **o), i

    def sub(t, o):
        b = make_class("Base", [F("v", INT, ann=t)], **o)
        return make_class("Sub", [F("k", INT, 3)], bases=(b,), **o)

    def flat(t, o, opt=False):
        i = make_class("In", [F("v", INT, ann=t)], **o)
        return make_class("Fl", [F("k", INT), F("f", INT, ann=typing.Optional[i] if opt else i,
                                                opts={"flatten": True})], **o), i

    def gen(t, o):
        g = make_class("G", [F("v", INT, ann=T)], bases=(typing.Generic[T],), **o)
        return g

    dq = collections.deque
    return [
        fld("list", lambda t: list[t], lambda w: [w], lambda v: v[0]),
        fld("list2", lambda t: list[list[t]], lambda w: [[w]], lambda v: v[0][0]),
        fld("dict", lambda t: dict[str, t], lambda w: {"k": w}, lambda v: v["k"]),
        fld("dictlist", lambda t: dict[str, list[t]], lambda w: {"k": [w]}, lambda v: v["k"][0]),
        fld("tup", lambda t: tuple[int, t], lambda w: (1, w), lambda v: v[1]),
        fld("vtup", lambda t: tuple[t, ...], lambda w: (w,), lambda v: v[0]),
        Pos("deque", lambda t, o: _host(dq[t], **o), lambda w: {"v": [w]}, lambda y: y.v[0], lambda H, v: H(dq([v]))),
        fld("opt", lambda t: typing.Optional[t], lambda w: w, lambda v: v),
        fld("optlist", lambda t: typing.Optional[list[t]], lambda w: [w], lambda v: v[0]),
        fld("listopt", lambda t: list[typing.Optional[t]], lambda w: [w], lambda v: v[0]),
        fld("alias", lambda t: typing.TypeAliasType("AT", t), lambda w: w, lambda v: v),
        fld("alias2", lambda t: typing.TypeAliasType("AT2", typing.TypeAliasType("AT", t)), lambda w: w, lambda v: v),
        Pos("nested", lambda t, o: nested(t, o), lambda w: {"a": {"v": w}, "l": []}, lambda y: y.a.v,
            lambda H, v: H[0](H[1](v), [])),
        Pos("nestedlist", lambda t, o: nested(t, o), lambda w: {"a": {"v": w}, "l": [{"v": w}]}, lambda y: y.l[0].v,
            lambda H, v: H[0](H[1](v), [H[1](v)])),
        Pos("inherited", sub, lambda w: {"v": w}, lambda y: y.v, lambda H, v: H(v)),
        Pos("flat", flat, lambda w: {"v": w, "k": 1}, lambda y: y.f.v, lambda H, v: H[0](1, H[1](v))),
        Pos("transparent", lambda t, o: make_class("Tr", [F("v", INT, ann=t)], transparent=True, **o),
            lambda w: w, lambda y: y.v, lambda H, v: H(v)),
        Pos("kwonly", lambda t, o: make_class("Kw", [F("v", INT, ann=t, opts={"kw_only": True}), F("k", INT, 1)], **o),
            lambda w: {"v": w}, lambda y: y.v, lambda H, v: H(v=v)),
        Pos("alias_key", lambda t, o: make_class("Ak", [F("v", INT, ann=t, opts={"alias": ["x"]}), F("k", INT, 1)], **o),
            lambda w: {"x": w}, lambda y: y.v, lambda H, v: H(v)),
        Pos("renamed", lambda t, o: make_class("Rn", [F("v", INT, ann=t, opts={"rename": "x"}), F("k", INT, 1)], **o),
            lambda w: {"x": w}, lambda y: y.v, lambda H, v: H(v)),
        Pos("defaulted", lambda t, o: make_class("Df", [F("v", INT, MISSING, list, ann=t)], **o),
            lambda w: {"v": w}, lambda y: y.v, lambda H, v: H(v)),
        Pos("second", lambda t, o: make_class("Se", [F("k", INT), F("v", INT, ann=t), F("z", INT, 2)], **o),
            lambda w: {"k": 1, "v": w}, lambda y: y.v, lambda H, v: H(1, v)),
    ]


def _loose():
    def gen(t, o):
        g = make_class("G", [F("v", INT, ann=T), F("l", INT, MISSING, list, ann=list[T])], bases=(typing.Generic[T],), **o)
        return g[t], g

    def union(t, o):
        m = make_class("Mark", [F("mmm", INT)])
        return _host(typing.Union[m, t], tagging=_serde().Untagged, **o)

    return [
        Pos("direct", lambda t, o: t, lambda w: w, lambda y: y, lambda H, v: v),
        Pos("direct_list", lambda t, o: list[t], lambda w: [w], lambda y: y[0], lambda H, v: [v]),
        Pos("direct_dict", lambda t, o: dict[str, t], lambda w: {"k": w}, lambda y: y["k"], lambda H, v: {"k": v}),
        Pos("direct_tup", lambda t, o: tuple[int, t], lambda w: (1, w), lambda y: y[1], lambda H, v: (1, v)),
        Pos("direct_vtup", lambda t, o: tuple[t, ...], lambda w: (w,), lambda y: y[0], lambda H, v: (v,)),
        Pos("direct_opt", lambda t, o: typing.Optional[t], lambda w: w, lambda y: y, lambda H, v: v),
        Pos("direct_deque", lambda t, o: collections.deque[t], lambda w: [w], lambda y: y[0],
            lambda H, v: collections.deque([v])),
        Pos("direct_alias", lambda t, o: typing.TypeAliasType("AT", t), lambda w: w, lambda y: y, lambda H, v: v),
        Pos("direct_alias2", lambda t, o: typing.TypeAliasType("AT2", typing.TypeAliasType("AT", t)), lambda w: w,
            lambda y: y, lambda H, v: v),
        Pos("typearg", gen, lambda w: {"v": w}, lambda y: y.v, lambda H, v: H[1](v)),
        Pos("typearg_list", gen, lambda w: {"v": w, "l": [w]}, lambda y: y.l[0], lambda H, v: H[1](v, [v])),
        Pos("union", union, lambda w: {"v": w}, lambda y: y.v, lambda H, v: H(v)),
    ]


def _serde():
    import serde

    return serde


def _first(x):
    return x[0] if isinstance(x, tuple) else x


def _is_union(spec):
    return isinstance(spec, (UnionS,)) or isinstance(spec, Opt)


OPTSETS = {"strict": lambda: {}, "coerce": lambda: {"type_check": _serde().coerce},
           "disabled": lambda: {"type_check": _serde().disabled}}

# not (de)serializable type arguments, members of unions, directly passed types
NO = {"rec": ("typearg", "typearg_list")}


# combinations of others, and positions which only other checks vary
MORE = ("list2", "dictlist", "optlist", "second", "kwonly", "renamed", "nested", "alias_key")


def _mk(label, th, mode, which, full=True):
    def build():
        spec = th()
        o = OPTSETS[mode]()
        env = []
        base = _host(spec.py, **o)
        for p in (_strict() if which == "strict" else _loose()):
            if p.name in ("union", "typearg", "typearg_list") and (_is_union(spec) or "union" in repr(spec.py).lower()
                                                                   or "|" in repr(spec.py)):
                continue
            if not full and p.name in MORE:
                continue
            if p.name == "union" and (mode != "strict" or label in ("any",)):
                continue
            env.append((p, p.typ(spec.py, dict(o))))
        return spec, base, env

    return build


def _de(label, th, mode, which, kind, full=True):
    def run(inp, env):
        from serde import from_dict

        spec, base, ps = env
        if kind == "good":
            w = spec.wire(spec.draw(inp, "w"), WireOpts(reuse_instances=False, convert_sets=inp.flag("lists")))
        elif kind == "near":
            w = near(inp, "w", spec, False)
        else:
            w = junk(inp, "w", 1, False)
        k0, y0 = outcome(lambda: from_dict(base, {"v": w}))
        check(k0 in ("ok", "serde"), "failures are SerdeError")
        v0 = y0.v if k0 == "ok" else None
        loose = {}
        for p, t in ps:
            if p.name == "union" and kind != "good" or w is None and p.name in ("opt", "listopt", "direct_opt"):
                continue
            k, y = outcome(lambda: from_dict(_first(t), p.data(w)))
            check(k in ("ok", "serde"), f"{p.name}: failures are SerdeError")
            if which == "strict":
                check(k == k0, f"{p.name}: accepted like a field")
            elif k0 == "ok" and mode == "strict":
                check(k == "ok", f"{p.name}: accepted like a field")
            elif p.name.startswith("direct"):
                loose[p.name] = (k, p.get(y) if k == "ok" else None)
            if k == "ok" and k0 == "ok" and (which == "strict" or mode == "strict"):
                check((same if which == "strict" else like)(p.get(y), v0), f"{p.name}: the same value")
        ks = [k for k, _ in loose.values()]
        check(all([k == ks[0] for k in ks]), "directly passed types agree")
        vs = [v for k, v in loose.values()]
        check(not ks or all([same(v, vs[0]) for v in vs]), "directly passed types agree")
        inp.reach("end")

    return Harness(f"de:{which}:{mode}:{kind}:{label}", _mk(label, th, mode, which), run)


def like(a, b):
    """same(), where booleans may have become integers."""
    if isinstance(a, int) and isinstance(b, int):
        return bool(a == b)
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple, collections.deque)):
        return len(a) == len(b) and all([like(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict):
        return len(a) == len(b) and same(list(a), list(b)) and all([like(x, y) for x, y in zip(a.values(), b.values())])
    if dataclasses.is_dataclass(a):
        return all([like(getattr(a, f.name), getattr(b, f.name)) for f in dataclasses.fields(a)])
    return same(a, b)


def _se(label, th, mode, which):
    def run(inp, env):
        from serde import to_dict

        spec, base, ps = env
        v = spec.draw(inp, "v")
        kw = inp.pick("opt", [{"reuse_instances": True, "convert_sets": True},
                              {"reuse_instances": False, "convert_sets": False}])
        kw = dict(kw) if which == "loose" or inp.flag("explicit") else {}
        w0 = to_dict(base(v), **kw)["v"]
        if mode == "strict":
            check(same(w0, spec.wire(v, WireOpts(reuse_instances=kw.get("reuse_instances", True),
                                                 convert_sets=kw.get("convert_sets", False)))), "the form of a field")
        for p, t in ps:
            x = p.put(t, v)
            c = t if p.name.startswith("direct") else None
            if c is not None and _has_set(spec) and not kw.get("convert_sets"):
                continue
            if p.name.startswith("typearg") and _has_set(spec):
                continue
            d = to_dict(x, c=c, **kw)
            check(same(_get(p, d), w0), f"{p.name}: written like a field")
        inp.reach("end")

    return Harness(f"se:{which}:{mode}:{label}", _mk(label, th, mode, which), run)


def _has_set(spec):
    return "set" in repr(spec.py).lower()


def _get(p, d):
    """The form of the value inside the form of the host."""
    n = p.name
    if n in ("transparent", "direct", "direct_opt", "direct_alias", "direct_alias2"):
        return d
    if n.startswith("direct"):
        return d["k"] if n == "direct_dict" else d[1] if n == "direct_tup" else d[0]
    if n == "nested":
        return d["a"]["v"]
    if n == "nestedlist":
        return d["l"][0]["v"]
    if n == "typearg_list":
        return d["l"][0]
    d = d["x"] if n == "renamed" else d["v"]
    if n in ("list", "vtup", "deque", "optlist", "listopt"):
        return d[0]
    return {"list2": lambda: d[0][0], "dict": lambda: d["k"], "dictlist": lambda: d["k"][0],
            "tup": lambda: d[1]}.get(n, lambda: d)()


def _members(kind):
    """A union member means the same behind any number of aliases, in every tagging and position."""
    def build():
        import serde

        c, d = make_class("C", [F("i", INT)]), make_class("D", [F("j", STR)])
        tag = {"external": serde.ExternalTagging, "internal": serde.InternalTagging("t"),
               "adjacent": serde.AdjacentTagging("t", "c"), "untagged": serde.Untagged}[kind]
        A = typing.TypeAliasType
        forms = []
        for cc, dd in ((c, d), (A("CA", c), d), (A("CB", A("CA", c)), A("DA", d)),
                       (A("CC", A("CB", A("CA", c))), A("DC", A("DB", A("DA", d))))):
            u = typing.Union[cc, dd]
            forms += [(u, _host(u, tagging=tag), _host(list[u], tagging=tag)),
                      (A("UA", u), _host(A("UA", u), tagging=tag), _host(A("UL", list[A("UA", u)]), tagging=tag))]
        return c, d, tag, forms

    def run(inp, env):
        from serde import from_dict, to_dict

        c, d, tag, forms = env
        x, w, n = (c(inp.int("i")), None, "C") if inp.flag("first") else (d(inp.str("j", 3)), None, "D")
        w = {"i": x.i} if n == "C" else {"j": x.j}
        w = {"external": {n: w}, "internal": {**w, "t": n}, "adjacent": {"c": w, "t": n}, "untagged": w}[kind]
        u, h, hl = inp.pick("form", forms)
        check(same(to_dict(h(x)), {"v": w}), "written in a field")
        check(same(from_dict(h, {"v": w}), h(x)), "read in a field")
        check(same(to_dict(hl([x])), {"v": [w]}), "written in a list")
        check(same(from_dict(hl, {"v": [w]}), hl([x])), "read in a list")
        if typing.get_origin(u) is typing.Union:
            check(same(to_dict(x, c=tag(u)), w), "written directly")
            check(same(from_dict(tag(u), w), x), "read directly")
            if kind == "external":
                check(same(to_dict([x], c=list[u]), [w]) and same(to_dict(x, c=u), w), "written directly")
                check(same(from_dict(dict[str, u], {"k": w}), {"k": x}), "read directly")
        elif kind == "external":
            check(same(to_dict(x, c=u), w) and same(from_dict(u, w), x), "directly")
        inp.reach("end")

    return Harness(f"members:{kind}", build, run)


# many shapes of data: deeper in the thorough tier only
HEAVY = ("u_mix", "dc_nested", "list<udc>", "nested_dict", "u_list", "rec")


def harnesses(tier):
    out = [_members(k) for k in ("external", "internal", "adjacent", "untagged")]
    uni = universe("core") if tier == "quick" else universe(tier)
    for i, (lab, th) in enumerate(uni):
        out += [_se(lab, th, "strict", "strict"), _se(lab, th, "strict", "loose")]
        if tier == "quick" and lab in HEAVY:
            out += [_de(lab, th, "strict", "strict", "good"), _de(lab, th, "strict", "loose", "good")]
        elif tier == "quick":
            out += [_de(lab, th, "strict", "strict", "near", False), _de(lab, th, "strict", "loose", "good")]
            out += [_de(lab, th, "coerce" if i % 4 < 2 else "disabled", "strict", "near", False)] if i % 2 else \
                [_de(lab, th, "strict", "loose", "near")]
        else:
            out += [_de(lab, th, m, w, k) for m in OPTSETS for w in ("strict", "loose") for k in ("good", "near", "junk")]
    return out
