"""C17  Unions passed directly to the API behave like union fields."""
from props.c16 import TAGGINGS, _first, _leafunions, _same_shape, _shapes, tag, tagging
from props.common import *
from symex.formats import JSON, MSGPACK, YAML, Inexpressible
from symex.junk import junk, near

BOUNDS = ("the unions of C16 with every tagging wrapper and the plain union, every combination of "
          "the API options, in containers; arbitrary plain data to depth 2; all orders of the first "
          "uses of two equal or similar unions; symbolic leaf values")
ASSUMPTIONS = ["union fields themselves are decided by C16"]


def wrap(t, u):
    """The union as it is passed to the API."""
    import serde

    if t is None:
        return u
    if t[0] == "Internal":
        return serde.InternalTagging(t[1], u)
    if t[0] == "Adjacent":
        return serde.AdjacentTagging(t[1], t[2], u)
    return tagging(t)(u)


def _direct(label, th, tags=(0, 1, 3, 5)):
    """Same representation, same result as the field of a class with that tagging."""
    def build():
        ms = th()
        u = typing.Union[tuple(m.py for m in ms)]
        out = []
        for i in (None, *tags):
            t = TAGGINGS[i or 0]
            out.append((i, t, wrap(None if i is None else t, u),
                        make_class("H", [F("u", INT, ann=u)], tagging=tagging(t))))
        return ms, out

    def run(inp, env):
        from serde import from_dict, from_tuple, to_dict, to_tuple

        ms, us = env
        i, t, u, host = inp.pick("tagging", us)
        m = inp.pick("member", ms)
        v = m.draw(inp, "v")
        for o in ({}, {"reuse_instances": False}, {"reuse_instances": True, "convert_sets": True},
                  {"skip_none": True, "reuse_instances": False, "convert_sets": False}):
            w = m.wire(v, WireOpts(**{"reuse_instances": True, **o}))
            if isinstance(m, DC):
                w = tag(t, m.cls.__name__, w)
            d = to_dict(v, c=u, **o)
            check(same(d, w), "documented representation")
            skipped = "skip_none" in o and d is None
            check(skipped or same(d, to_dict(host(v), **o)["u"]), "same as the field")
            check(same(to_tuple(v, c=u, **o), w), "to_tuple")
            r = {k: x for k, x in o.items() if k == "reuse_instances"}
            ok, y = attempt(lambda: from_dict(u, d, **r))
            okf, yf = attempt(lambda: from_dict(host, {"u": d}, **r))
            check(ok == okf and (not ok or same(y, yf.u)), "same result as the field")
            okt, yt = attempt(lambda: from_tuple(u, d, **r))
            check(okt == ok and (not ok or same(yt, y)), "from_tuple")
            if t[0] != "Untagged":
                check(ok and same(y, v), "round trip")
        inp.reach("end")

    return Harness(f"direct:{label}", build, run)


def _data(label, th):
    """Any data gives the same result or the same failure as for the field."""
    def build():
        ms = th()
        u = typing.Union[tuple(m.py for m in ms)]
        out = []
        for i in (None, 1, 3, 5):
            t = TAGGINGS[i or 0]
            out.append((t, wrap(None if i is None else t, u),
                        make_class("H", [F("u", INT, ann=u)], tagging=tagging(t))))
        return ms, out

    def run(inp, env):
        from serde import from_dict

        ms, us = env
        t, u, host = inp.pick("tagging", us)
        sym = label != "path"
        m = inp.pick("like", ms)
        if inp.flag("near"):
            d = near(inp, "d", m, sym)
            if isinstance(m, DC):
                name = m.cls.__name__
                d = tag(t, name, d) if isinstance(d, dict) or t[0] != "Internal" else d
        else:
            d = junk(inp, "d", 1, sym)
        if type(d) is str:
            inp.assume(len(d) <= 5)
        ok, y = attempt(lambda: from_dict(u, d))
        okf, yf = attempt(lambda: from_dict(host, {"u": d}))
        check(ok == okf, "accepted exactly when the field accepts it")
        check(not ok or same(y, yf.u), "the same value")
        inp.reach("end")

    return Harness(f"data:{label}", build, run)


CONT = {
    "list": (lambda u: list[u], lambda v: [v], lambda w: [w]),
    "dict": (lambda u: dict[str, u], lambda v: {"k": v}, lambda w: {"k": w}),
    "opt": (lambda u: typing.Optional[u], lambda v: v, lambda w: w),
    "tuple": (lambda u: tuple[int, u], lambda v: (1, v), lambda w: (1, w)),
    "vtuple": (lambda u: tuple[u, ...], lambda v: (v, v), lambda w: (w, w)),
    "deque": (lambda u: collections.deque[u], lambda v: collections.deque([v]), lambda w: [w]),
    "listdict": (lambda u: list[dict[str, u]], lambda v: [{"k": v}], lambda w: [{"k": w}]),
    "optlist": (lambda u: typing.Optional[list[u]], lambda v: [v], lambda w: [w]),
    "ddict": (lambda u: collections.defaultdict[str, u],
              lambda v: collections.defaultdict(dict, {"k": v}), lambda w: {"k": w}),
    "alias": (lambda u: typing.TypeAliasType("UA", u), lambda v: v, lambda w: w),
    "aliaslist": (lambda u: typing.TypeAliasType("UAL", list[u]), lambda v: [v], lambda w: [w]),
    "listalias": (lambda u: list[typing.TypeAliasType("UA", u)], lambda v: [v], lambda w: [w]),
}


def _cont(pos):
    """In containers passed directly the unions are externally tagged, as in a field."""
    ann, val, wire = CONT[pos]

    def build():
        ms = _same_shape(2) + [INT, PATH]
        u = typing.Union[tuple(m.py for m in ms)]
        return ms, ann(u), make_class("H", [F("u", INT, ann=ann(u))])

    def run(inp, env):
        from serde import from_dict, from_tuple, to_dict, to_tuple

        ms, u, host = env
        m = inp.pick("m", ms)
        v = m.draw(inp, "v")
        for ri in (True, False):
            w = m.wire(v, WireOpts(reuse_instances=ri))
            w = wire(tag(TAGGINGS[0], m.cls.__name__, w) if isinstance(m, DC) else w)
            x = val(v)
            d = to_dict(x, c=u, reuse_instances=ri)
            check(same(d, w), "representation")
            check(same(to_tuple(x, c=u, reuse_instances=ri), w), "tuple representation")
            if pos != "ddict":
                y = from_dict(u, d, reuse_instances=ri)
                check(same(y, x), "round trip")
                check(same(from_tuple(u, d, reuse_instances=ri), x), "tuple round trip")
                check(same(y, from_dict(host, {"u": d}, reuse_instances=ri).u), "same as the field")
        inp.reach("end")

    return Harness(f"cont:{pos}", build, run)


def _fmt(fmt, ti):
    """The format front ends take the union as cls / first argument."""
    def build():
        ms = _same_shape(2) + [PATH, SetS(KSTR2, 1), FLOAT]
        if fmt is MSGPACK:
            ms[-1] = INT
        return ms, wrap(None if ti is None else TAGGINGS[ti], typing.Union[tuple(m.py for m in ms)])

    def run(inp, env):
        ms, u = env
        to, frm = fmt.api()
        m = inp.pick("m", ms)
        v = m.draw(inp, "v")
        try:
            box = to(v, cls=u, se=fmt.se())
        except Inexpressible:
            return
        w = m.wire(v, WireOpts(reuse_instances=False, convert_sets=True))
        if isinstance(m, DC):
            w = tag(TAGGINGS[ti or 0], m.cls.__name__, w)
        check(same(box.v, fmt.transform(w)), "representation")
        if not (ti == 5 and isinstance(m, DC)) and not isinstance(m, SetS):
            y = frm(u, box, de=fmt.de())
            check(same(y, v), "round trip")
            if not inp.symbolic and fmt.real_conforms(w):
                check(same(frm(u, to(v, cls=u)), v), "real round trip")
        inp.reach("end")

    return Harness(f"fmt:{fmt.name}:{ti}", build, run)


def _orders(i):
    """Unions with the same members in another order, other taggings, nested in containers: the
    result never depends on which was used first."""
    def build():
        a, b = _same_shape(2)
        A, B = a.cls, b.cls
        U = typing.Union
        forms = [(f"{t}:{k}", wrap(None if t is None else TAGGINGS[t], u), t or 0, f)
                 for t in (None, 1, 3, 5)
                 for k, (u, f) in enumerate([(U[A, B], A), (U[B, A], B)])]
        forms += [("pep", A | B, 0, A), ("pepr", B | A, 0, B),
                  ("list", wrap(TAGGINGS[5], U[list[A], list[B]]), 5, A),
                  ("listr", wrap(TAGGINGS[5], U[list[B], list[A]]), 5, B)]
        return a, b, forms

    def run(inp, env):
        from serde import from_dict, to_dict

        a, b, forms = env
        fresh()
        j = inp.choice("second", len(forms))
        m = inp.pick("m", [a, b])
        v = m.draw(inp, "v")
        for name, u, t, first in (forms[i], forms[j], forms[i]):
            lst = name.startswith("list")
            w = tag(TAGGINGS[t], m.cls.__name__, m.wire(v))
            w = [w] if lst else w
            d = to_dict([v] if lst else v, c=u)
            check(same(d, w), "representation")
            y = from_dict(u, d)
            y = y[0] if lst else y
            if TAGGINGS[t][0] == "Untagged":
                check(type(y) is first and y.x == v.x and y.s == v.s, "first declared member")
            else:
                check(same(y, v), "round trip")
        inp.reach("end")

    return Harness(f"orders:{i}", build, run)


def _collide():
    """Unions whose members have the same names or similar ones do not interfere."""
    def build():
        a1, a2 = DC("Same", [F("x", INT)]), DC("Same", [F("y", INT)])
        ab, b = DC("Same_B", [F("x", INT)]), DC("B", [F("z", INT)])
        i, s = type(None), str
        U = typing.Union
        return [(a1, U[a1.cls, str]), (a2, U[a2.cls, str]), (ab, U[ab.cls, str]), (b, U[a1.cls, b.cls, str]),
                (b, U[b.cls, str]), (SetS(KINT, 1), U[set[int], str]),
                (SetS(KINT, 1, frozen=True), U[frozenset[int], str]),
                (LitS("a-b"), U[typing.Literal["a-b"], int]), (LitS("a_b"), U[typing.Literal["a_b"], int])]

    def run(inp, us):
        from serde import from_dict, to_dict

        fresh()
        for n in ("first", "second"):
            m, u = inp.pick(n, us)
            v = m.draw(inp, n)
            w = m.wire(v, WireOpts(convert_sets=True))
            if isinstance(m, DC):
                w = {m.cls.__name__: w}
            d = to_dict(v, c=u, convert_sets=True)
            check(same(d, w), "representation")
            check(same(from_dict(u, d), v), "round trip")
            if isinstance(m, LitS):
                must_fail(lambda: from_dict(u, "a b"), "no listed value")
        inp.reach("end")

    return Harness("collide", build, run)


def _bad():
    """A value of no member cannot be serialized; data of no member raises SerdeError."""
    def build():
        a, b = _same_shape(2)
        c = DC("Other", [F("q", INT)])
        return a, c, [wrap(t, typing.Union[a.cls, b.cls, str]) for t in (None, *TAGGINGS)]

    def run(inp, env):
        from serde import from_dict, to_dict

        a, c, us = env
        u = inp.pick("u", us)
        must_fail(lambda: to_dict(inp.pick("v", [c.cls(1), 1, None, [1], {"a": 1}, 1.5]), c=u), "to_dict")
        k = inp.str("k")
        for n in ("M0", "M1"):
            inp.assume(k != n)
        must_fail(lambda: from_dict(u, inp.dict([(k, {"q": 1})])), "unknown tag")
        inp.reach("end")

    return Harness("bad", build, run)


def harnesses(tier):
    out = []
    skip = ("rec",)
    for l, t in _shapes().items():
        out.append(_direct("shape:" + l, t, (0, 3) if l == "trans" else (0, 1, 3)))
    for l, t in _leafunions().items():
        out.append(_direct("leaf:" + l, t, (1, 5)))
    out.append(_direct("three", lambda: _same_shape(3) + [INT, STRB, NONE]))
    out += [_data(l, t) for l, t in _first().items()]
    out += [_cont(p) for p in CONT]
    out += [_fmt(f, t) for f in (JSON, YAML, MSGPACK) for t in (None, 0, 1, 3, 5)]
    return out + [_orders(i) for i in range(12)] + [_collide(), _bad()]
