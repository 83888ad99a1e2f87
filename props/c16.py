"""C16  Union members are tagged and resolved as documented."""
import dataclasses

from props.common import *
from props.c33 import similar
from symex.api import ReplayInputs
from symex.junk import junk, near

BOUNDS = ("five taggings (including tag names that need escaping); unions of 2-4 members of every "
          "universe type with classes, in both orders and every position; any string as tag, "
          "arbitrary plain data to depth 2; symbolic leaf values")
ASSUMPTIONS = ["a member accepts data exactly when a class whose field has the member's type does "
               "(decided by C06/C07), and strings and dicts are not sequences"]

TAGGINGS = [("External", None, None), ("Internal", "type", None), ("Internal", 't"\'\\ g', None),
            ("Adjacent", "type", "content"), ("Adjacent", "c t", "t'\"\\"), ("Untagged", None, None)]
LAX = WireOpts(reuse_instances=False, convert_sets=True)


def tagging(t):
    import serde

    if t[0] == "Internal":
        return serde.InternalTagging(t[1])
    if t[0] == "Adjacent":
        return serde.AdjacentTagging(t[1], t[2])
    return getattr(serde, t[0] + ("Tagging" if t[0] == "External" else ""))


def tag(t, name, w):
    """The documented representation of a class member whose plain form is `w`."""
    if t[0] == "External":
        return {name: w}
    if t[0] == "Internal":
        return {**w, t[1]: name}
    if t[0] == "Adjacent":
        return {t[2]: w, t[1]: name}
    return w


POS = {
    "field": (lambda u: u, lambda v, w: (v, w)),
    "list": (lambda u: list[u], lambda v, w: ([v], [w])),
    "dict": (lambda u: dict[str, u], lambda v, w: ({"k": v}, {"k": w})),
    "opt": (lambda u: typing.Optional[u], lambda v, w: (v, w)),
    "tuple": (lambda u: tuple[int, u], lambda v, w: ((1, v), (1, w))),
    "vtuple": (lambda u: tuple[u, ...], lambda v, w: ((v,), (w,))),
    "deque": (lambda u: collections.deque[u], lambda v, w: (collections.deque([v]), [w])),
    "listlist": (lambda u: list[list[u]], lambda v, w: ([[], [v]], [[], [w]])),
    "optlist": (lambda u: typing.Optional[list[u]], lambda v, w: ([v], [w])),
    "ddict": (lambda u: collections.defaultdict[str, list[u]],
              lambda v, w: (collections.defaultdict(list, {"k": [v]}), {"k": [w]})),
}


def _roundtrip(inp, env):
    """env: (members as specs, {(tagging index, pos): class})."""
    from serde import from_dict, from_tuple, to_dict, to_tuple

    members, clss = env
    (ti, pos), cls = inp.pick("cls", list(clss.items()))
    t = TAGGINGS[ti]
    i = inp.choice("member", len(members))
    m = members[i]
    v = m.draw(inp, "v")
    for ri, cs in ((True, False), (False, True)):
        w = m.wire(v, WireOpts(reuse_instances=ri, convert_sets=cs))
        if isinstance(m, DC):
            w = tag(t, m.cls.__name__, w)
        val, exp = POS[pos][1](v, w)
        x = cls(inp.int("a") if ri else 5, val)
        d = to_dict(x, reuse_instances=ri, convert_sets=cs)
        check(same(d, {"a": x.a, "u": exp}), "representation")
        tu = to_tuple(x, reuse_instances=ri, convert_sets=cs)
        check(same(tu, (x.a, exp)), "tuple representation")
        y = from_dict(cls, d, reuse_instances=ri)
        check(same(y, x), "round trip")
        check(same(from_tuple(cls, tu, reuse_instances=ri), x), "tuple round trip")
    inp.reach("end")


def _env(members, poss, tags=range(len(TAGGINGS))):
    u = typing.Union[tuple(m.py for m in members)]
    return members, {(t, p): make_class(f"U{t}{p}", [F("a", INT), F("u", INT, ann=POS[p][0](u))],
                                        tagging=tagging(TAGGINGS[t]))
                     for t in tags for p in poss}


def _same_shape(n):
    """n classes with the same fields can only be told apart by the tag."""
    fs = lambda: [F("x", INT), F("s", Opt(STR), default=None)]  # noqa: E731
    return [DC(f"M{i}", fs()) for i in range(n)]


def _pos(pos):
    def build():
        ms = _same_shape(3) + [INT, STRB, NONE]
        if pos == "opt":
            ms = _same_shape(3) + [INT, NONE]
        return _env(ms, [pos], range(5))

    return Harness(f"pos:{pos}", build, _roundtrip)


def _memtype(label, th):
    """Classes that hold a value of every type, told apart only by the tag."""
    def build():
        spec = th()
        return _env([DC("A", [F("v", spec)]), DC("B", [F("v", spec)]), NONE], ["field", "list"], [0, 1, 3])

    return Harness(f"member:{label}", build, _roundtrip)


def _order(label, th):
    """A union of any type and classes of another shape: declaration order does not matter."""
    def build():
        spec = th()
        c = DC("Oc", [F("oc_x", KINT), F("oc_y", KSTR2)])
        a, b = [spec, c], [c, spec]
        mk = lambda n, u, **o: make_class(n, [F("u", INT, ann=u)], **o)  # noqa: E731
        out = [(0, mk("O2", typing.Union[c.cls, spec.py]))]
        # data of a class is a mapping: what a mapping member declared before accepts is its value
        mapping = any(isinstance(m, (DictS, CounterS)) for m in [spec, getattr(spec, "inner", None)] +
                      list(getattr(spec, "members", ())))
        if not mapping:
            out.append((0, mk("O1", typing.Union[spec.py, c.cls])))
            if not any(u in label for u in ("u_", "udc", "union")):  # (these have their own tags)
                out.append((5, mk("O3", typing.Union[spec.py, c.cls], tagging=tagging(TAGGINGS[5]))))
                out.append((5, mk("O4", typing.Union[c.cls, spec.py], tagging=tagging(TAGGINGS[5]))))
        return spec, c, out

    def run(inp, env):
        from serde import from_dict, to_dict

        spec, c, clss = env
        ti, cls = inp.pick("cls", clss)
        m = inp.pick("m", [spec, c])
        v = m.draw(inp, "v")
        for ri in (True, False):
            w = m.wire(v, WireOpts(reuse_instances=ri, convert_sets=True))
            if isinstance(m, DC):
                w = tag(TAGGINGS[ti], m.cls.__name__, w)
            d = to_dict(cls(v), reuse_instances=ri, convert_sets=True)
            check(same(d, {"u": w}), "representation")
            check(same(from_dict(cls, d, reuse_instances=ri), cls(v)), "round trip")
        inp.reach("end")

    return Harness(f"order:{label}", build, run)


def _shapes():
    """Members with their own settings."""
    import serde

    def nested():
        i = inner()
        return [DC("N1", [F("a", i), F("l", ListS(i, 1))]), DC("N2", [F("a", i), F("l", ListS(i, 1))]), i]

    def sub():
        b = DC("Base", [F("x", INT)])
        d = DC("Derived", [F("x", INT), F("y", INT)],
               cls=make_class("Derived", [F("y", INT)], bases=(b.cls,)))
        return b, d

    def enumfield():
        return [DC("E1", [F("e", ECOLOR), F("p", PATH)]), DC("E2", [F("e", ECOLOR), F("p", PATH)])]

    class Trans(DC):
        def wire(self, v, o=W):
            return self.fields[0].spec.wire(v.x, o)

    def trans():
        c = lambda n: Trans(n, [F("x", DictS(KSTR2, INT, 1))], transparent=True)  # noqa: E731
        return [c("T1"), c("T2")]

    def un_in_un():
        a, b = inner(), inner2()
        return [DC("W1", [F("u", UnionS(a, b))]), DC("W2", [F("u", UnionS(b, INT))]), a]

    def tagged():
        i = inner()
        return [DC("G1", [F("u", UnionS(i, INT, tagging="Untagged"))], tagging=serde.Untagged),
                DC("G2", [F("u", UnionS(i, INT, tagging="Internal", tag="t"))],
                   tagging=serde.InternalTagging("t")), i]

    return {
        "renamed": lambda: [DC("R1", [F("x_x", INT, key="xX"), F("y", INT, key="Q", opts={"rename": "Q"})],
                               rename_all="camelcase"),
                            DC("R2", [F("x_x", INT, key="x-x"), F("y", INT, key="y")],
                               rename_all="kebabcase")],
        "deny": lambda: [DC("D1", [F("x", INT)], deny_unknown_fields=True),
                         DC("D2", [F("x", INT)], deny_unknown_fields=True), STRB],
        "plain": lambda: [plain(), inner()],
        "nested": nested,
        "sub_db": lambda: list(reversed(sub())),
        "sub_bd": lambda: list(sub()),
        "empty": lambda: [DC("Em1", []), DC("Em2", []), NONE],
        "enums": enumfield,
        "coll": lambda: [DC("Long_Name_1", [F("x", INT)]), DC("Long_Name", [F("x", INT)])],
        "trans": trans,
        "union_in_union": un_in_un,
        "rec": lambda: [rec(), inner()],
        "frozen": lambda: [DC(n, [F("x", INT)], cls=make_class(
            n, [F("x", INT)], deco=lambda c: serde.serde(dataclasses.dataclass(frozen=True)(c))))
            for n in ("Fz1", "Fz2")],
        "coerce": lambda: [DC("C1", [F("x", INT)], type_check=serde.coerce),
                           DC("C2", [F("x", INT)], type_check=serde.coerce)],
        "tagged_members": tagged,
    }


def _shape(label, th):
    def build():
        tags = [0, 3] if label == "trans" else [0, 1, 3] if label != "sub_bd" else [0, 1, 3]
        return _env(th(), ["field", "list", "opt", "dict"], tags)

    return Harness(f"shape:{label}", build, _roundtrip)


def _leafunions():
    """Non-class members are never tagged; distinguishable ones round-trip in any order."""
    return {
        "int,str": lambda: [INT, STR], "bool,str": lambda: [BOOL, STR], "float,str": lambda: [FLOAT, STR],
        "int,float": lambda: [INT, FLOAT], "float,bool": lambda: [FLOAT, BOOL],
        "int,str,bool,float": lambda: [INT, STR, FLOAT], "str,none,int": lambda: [STR, NONE, INT],
        "list,dict": lambda: [ListS(INT, 1), DictS(KSTR2, INT, 1)],
        "list,str": lambda: [ListS(STR, 1), STR], "dict,str": lambda: [DictS(KSTR2, STR, 1), STR],
        "enum,int": lambda: [ECOLOR, INT], "enum,list": lambda: [ECOLOR, ListS(ECOLOR, 1)],
        "path,int": lambda: [PATH, INT], "uuid,int": lambda: [UUID_, BOOL],
        "dt,int": lambda: [DATETIME, INT], "date,bool": lambda: [DATE, BOOL],
        "decimal,list": lambda: [DECIMAL, ListS(INT, 1)],
        "set,str": lambda: [SetS(KSTR2, 1), INT], "vtup,str": lambda: [VarTup(INT, 1), STR],
        "tup,int": lambda: [Tup(INT, STR), INT], "deque,int": lambda: [DequeS(INT, 1), INT],
        "literal,int": lambda: [LitS("a", "b"), INT], "literal,path": lambda: [LitS(1, 2), PATH],
        "literalq,int": lambda: [LitS("a-b", "a'b", 'q"'), INT],
        "literal2": lambda: [LitS("a"), LitS(1), DATE],
        "newtype,str": lambda: [NTI, STR], "newtypes": lambda: [NTI, NTS],
        "counter,int": lambda: [CounterS(KSTR2, 1), INT],
        "ddict,int": lambda: [DefaultDictS(KSTR2, INT, int, 1), INT],
        "listlist,str": lambda: [ListS(ListS(INT, 1), 1), STR],
        "dictlist,list": lambda: [DictS(KSTR2, ListS(INT, 1), 1), ListS(INT, 1)],
        "strenum,int": lambda: [ESE, INT], "ie,list": lambda: [EIE, ListS(EIE, 1)],
        "ip4,ip6": lambda: [STRSER[5], STRSER[6]],
        "optunion_in_list": lambda: [ListS(UnionS(STR, NONE, INT), 1), INT],
        "union_in_dict": lambda: [DictS(KSTR2, UnionS(STR, INT), 1), INT],
        "alias": lambda: [Alias("PA", INT), STR], "aliaslist": lambda: [Alias("PL", ListS(INT, 1)), STR],
        "frozenset,int": lambda: [SetS(KSTR2, 1, frozen=True), INT],
        "baretuple": lambda: [BareTup(), INT],
        "int,mystr": lambda: [INT, SUBSTR],
    }


def _leaf(label, th):
    def build():
        ms = th()
        rev = list(reversed(ms))
        a = _env(ms, ["field", "list", "opt"] if NONE not in ms else ["field", "list"], [0, 5])[1]
        b = _env(rev, ["field", "dict"], [1, 3])[1]
        return ms, {**a, **b}

    return Harness(f"leaf:{label}", build, _roundtrip)


# ------------------------------------------------------------------ resolution and failures
def _first():
    return {
        "dc": lambda: [inner(), inner2(), plain()],
        "dc_same": lambda: _same_shape(2),
        "prims": lambda: [INT, BOOL, STRB, FLOAT], "prims_rev": lambda: [FLOAT, STRB, BOOL, INT],
        "bool,int": lambda: [BOOL, INT],
        "lists": lambda: [ListS(INT, 1), ListS(STRB, 1)], "dicts": lambda: [DictS(KSTR2, INT, 1), DictS(KSTR2, STRB, 1)],
        "list,set": lambda: [ListS(KSTR2, 1), SetS(KSTR2, 1)],
        "tups": lambda: [Tup(INT, STRB), VarTup(INT, 1), ListS(STRB, 1)],
        "enum": lambda: [ECOLOR, STRB, EIE, INT], "lit": lambda: [LitS("a", 1), INT, STRB],
        "mix": lambda: (lambda i: [INT, i, ListS(i, 1), NONE])(inner()),
        "mix2": lambda: [NONE, DictS(KSTR2, INT, 1), inner2(), STRB],
        "path": lambda: [BOOL, PATH, INT], "counter": lambda: [CounterS(KSTR2, 1), DictS(KSTR2, STRB, 1)],
        "def": lambda: [DC("Df1", [F("x", INT, default=1)]), DC("Df2", [F("y", INT, default=1)])],
    }


def _resolve(label, th):
    """Untagged data resolves to the first declared member that accepts it, else SerdeError."""
    def build():
        ms = th()
        u = typing.Union[tuple(m.py for m in ms)]
        one = [make_class(f"One{i}", [F("u", INT, ann=m.py)]) for i, m in enumerate(ms)]
        return ms, one, make_class("Un", [F("u", INT, ann=u)], tagging=tagging(TAGGINGS[5]))

    def run(inp, env):
        from serde import from_dict

        ms, one, cls = env
        sym = label != "path"
        d = near(inp, "d", inp.pick("like", ms), sym) if inp.flag("near") else junk(inp, "d", 1, sym)
        if type(d) is str:
            inp.assume(len(d) <= 5)
        got, y = attempt(lambda: from_dict(cls, {"u": d}))
        exp = None
        for m, c in zip(ms, one):
            if isinstance(m, (ListS, Tup, VarTup, SetS)) and isinstance(d, (str, dict)):
                continue
            if isinstance(m, NoneS) and d is not None:
                continue
            ok, z = attempt(lambda: from_dict(c, {"u": d}))
            if ok:
                exp = z
                break
        if exp is None:
            check(not got, "data of no member")
            inp.reach("none")
        else:
            check(got and same(y.u, exp.u), "the first member that accepts it")
            inp.reach("some")

    return Harness(f"first:{label}", build, run,
                   reach=("some",) if label == "def" else ("none", "some"))


def _tags(ti, pos):
    """Exactly the member names are accepted as tag, each for its member."""
    t = TAGGINGS[ti]

    def build():
        ms = [DC("Alpha", [F("x", INT)]), DC("Beta", [F("x", INT)]), DC("Alphabet", [F("x", INT), F("y", INT)])]
        u = typing.Union[tuple(m.py for m in ms)]
        return ms, make_class("H", [F("u", INT, ann=POS[pos][0](u))], tagging=tagging(t))

    def run(inp, env):
        from serde import from_dict

        ms, cls = env
        x = inp.int("x")
        w = {"x": x} if not inp.flag("y") else {"x": x, "y": 2}
        k = inp.str("tag")
        if t[0] == "External":
            d = inp.dict([(k, w)])
        elif t[0] == "Internal":
            d = {t[1]: k, **w}
        else:
            d = {t[1]: k, t[2]: w}
        got, y = attempt(lambda: from_dict(cls, {"u": POS[pos][1](None, d)[1]}))
        for m in ms:
            if bool(k == m.cls.__name__):
                fits = m is not ms[2] or "y" in w
                check(got == fits, "accepted exactly when the content fits the tagged class")
                if fits:
                    v = m.cls(x) if m is not ms[2] else m.cls(x, 2)
                    check(same(y.u, POS[pos][1](v, None)[0]), "the tagged class")
                inp.reach("known")
                return
        check(not got, "an unknown tag")
        inp.reach("unknown")

    return Harness(f"tag:{ti}:{pos}", build, run, reach=("known", "unknown"))


def _missing(ti):
    """Missing tags, tags that are no strings, data that is no dict, missing content."""
    t = TAGGINGS[ti]

    def build():
        ms = [DC("Alpha", [F("x", INT)]), DC("Beta", [F("x", INT)])]
        return ms, [make_class("H", [F("u", INT, ann=u)], tagging=tagging(t)) for u in
                    (typing.Union[ms[0].py, ms[1].py], typing.Union[ms[0].py, ms[1].py, None],
                     typing.Union[ms[0].py, int])]

    def run(inp, env):
        from serde import from_dict

        ms, clss = env
        k = inp.choice("cls", 3)
        how = inp.choice("how", 6)
        j = junk(inp, "j", 1, keys=["x", "k"])
        x = inp.int("x")
        if how == 0:
            d = j
        elif how == 1:
            d = {"x": x}
        elif how == 2:  # a tag that is no string
            inp.assume(type(j) is not str)
            d = {"Alphaa": {"x": x}} if t[0] == "External" else {t[1]: j, "x": x, (t[2] or "x"): {"x": x}}
        elif how == 3:  # no content
            d = {} if t[0] == "External" else {t[1]: "Alpha"}
        elif how == 4:  # content of the wrong kind
            inp.assume(type(j) is not int and type(j) is not bool)
            inp.assume(not (isinstance(j, dict) and type(j.get("x")) in (int, bool)))
            inp.assume(not (isinstance(j, list) and len(j) > 0))
            d = {"Alpha": j} if t[0] == "External" else {t[1]: "Alpha", t[2]: j} if t[0] == "Adjacent" \
                else {t[1]: "Alpha", "x": j}
        else:  # the tag at the wrong level
            d = {"u": {"Alpha": {"x": x}}} if t[0] == "External" else \
                {t[1]: {t[1]: "Alpha"}, "x": x} if t[0] == "Internal" else {t[2]: {t[1]: "Alpha", "x": x}}
        ok, y = attempt(lambda: from_dict(clss[k], {"u": d}))
        if k == 1 and d is None:
            check(ok and y.u is None, "None is a member")
        elif k == 2 and isinstance(d, int):
            check(ok and same(y.u, d), "int is a member")
        else:
            check(not ok, "must be rejected")
            inp.reach("end")

    return Harness(f"missing:{ti}", build, run)


def _unserializable():
    """A value of no member cannot be serialized."""
    def build():
        import serde

        a, b = inner(), inner2()
        out = []
        for t in TAGGINGS:
            out.append(make_class("Us", [F("u", INT, ann=typing.Union[a.cls, str, int])],
                                  tagging=tagging(t), type_check=serde.disabled))
        return b, out

    def run(inp, env):
        from serde import to_dict

        b, clss = env
        v = inp.pick("v", [1.5, None, [1], {"a": 1}, (1,), b.cls(True, None), b"x"])
        must_fail(lambda: to_dict(inp.pick("cls", clss)(v)), "a value of no member")
        inp.reach("end")

    return Harness("unserializable", build, run)


def _siblings():
    """Several unions with members in common and different orders in one class."""
    def build():
        a, b, c = _same_shape(3)
        fs = [("u1", UnionS(a, b)), ("u2", UnionS(b, a)), ("u3", UnionS(c, INT, b)), ("u4", UnionS(INT, STRB)),
              ("u5", UnionS(STRB, INT)), ("u6", UnionS(a, NONE, c))]
        return fs, [(t, make_class("Sib", [F(n, INT, ann=s.py) for n, s in fs] +
                                   [F("l", INT, ann=list[typing.Union[b.cls, c.cls]])], tagging=tagging(t)), b, c)
                    for t in TAGGINGS[:5]]

    def run(inp, env):
        from serde import from_dict, to_dict

        fs, clss = env
        t, cls, b, c = inp.pick("cls", clss)
        vals, exp = {}, {}
        free = inp.choice("free", len(fs))
        for i, (n, s) in enumerate(fs):
            m = s.members[inp.choice(n, len(s.members)) if i == free else i % len(s.members)]
            vals[n] = m.draw(inp, n) if i == free else {"int": 3, "str": "z", "None": None}.get(
                m.label) if not isinstance(m, DC) else m.cls(i, "s")
            w = m.wire(vals[n])
            exp[n] = tag(t, m.cls.__name__, w) if isinstance(m, DC) else w
        l = [b.cls(1, None), c.cls(2, "x")]
        exp["l"] = [tag(t, k.cls.__name__, k.wire(v)) for k, v in zip((b, c), l)]
        x = cls(**vals, l=l)
        check(same(to_dict(x), exp), "representation")
        check(same(from_dict(cls, exp), x), "round trip")
        inp.reach("end")

    return Harness("siblings", build, run)


def _names():
    """Unions whose members have similar names do not interfere."""
    def build():
        a, b, ab = (DC(n, [F("x", INT)]) for n in ("Na", "Nb", "Na_Nb"))
        fs = [("u1", UnionS(a, b)), ("u2", UnionS(ab, NONE, INT)), ("u3", UnionS(a, b, NONE, INT)),
              ("u4", UnionS(SetS(KINT, 1), STRB)), ("u5", UnionS(SetS(KINT, 1, frozen=True), STRB)),
              ("u6", UnionS(LitS("a-b"), INT)), ("u7", UnionS(LitS("a_b"), INT)),
              ("u8", UnionS(ListS(a, 1), INT)), ("u9", UnionS(ListS(b, 1), INT))]
        return fs, make_class("Nm", [F(n, INT, ann=s.py) for n, s in fs])

    def run(inp, env):
        from serde import from_dict, to_dict

        fs, cls = env
        free = inp.choice("free", len(fs))
        vals = {}
        for i, (n, s) in enumerate(fs):
            vals[n] = s.members[0].draw(ReplayInputs(), n)
        n, s = fs[free]
        m = inp.pick("m", s.members)
        vals[n] = m.draw(inp, n)
        exp = {k: s.wire(vals[k], LAX) for k, s in fs}
        x = cls(**vals)
        check(same(to_dict(x, convert_sets=True), exp), "representation")
        check(same(from_dict(cls, exp), x), "round trip")
        if free == 5:
            must_fail(lambda: from_dict(cls, {**exp, "u6": "a_b"}), "another literal's value")
        inp.reach("end")

    return Harness("names", build, run)


def harnesses(tier):
    uni = universe(tier if tier == "thorough" else "core")
    out = [_pos(p) for p in POS]
    out += [_memtype(l, t) for l, t in uni]
    skip = {"any", "dc", "dc_nested", "str", "u_prim", "u_prim3", "u_none", "opt<str>", "opt<dc>", "opt<union>",
            "pep604union", "pep604union_none"}  # unbounded strings are searched for the tag
    out += [_order(l, t) for l, t in uni if l not in skip]
    out += [_shape(l, t) for l, t in _shapes().items()]
    out += [_leaf(l, t) for l, t in _leafunions().items()]
    out += [_resolve(l, t) for l, t in _first().items()]
    out += [_tags(i, p) for i in range(5) for p in ("field", "list", "dict", "opt")]
    return out + [_missing(i) for i in range(5)] + [_unserializable(), _siblings(), _names()] + similar("unions")
