"""C06  Strict classes never hold a value of the wrong type."""
from props.common import *
from symex import env as _env
from symex.junk import junk, near

BOUNDS = ("type shapes: leaves, containers, two nesting levels (thorough: three); input data: every "
          "kind of plain value with containers up to 2 elements and depth 2 (thorough: 3); leaf "
          "values unbounded except where the declared type has a C parser (finite pools); the "
          "element beartype samples (one per container) is a symbolic choice")
ASSUMPTIONS = ["an equal value of another literal type (1 for True) passes beartype's own check of Literal when "
               "the constructor is called",
               "in a container of two elements only the sampled one is required to have the type"]

ABSTRACT_LABELS = {l for l, _ in ABSTRACT}


def _symbolic(label):
    return not any(t in label for t in ("ss_", "dt_", "path", "datetime", "opt<dt>", "uuid",
                                        "date", "<k", "kstr", "enum", "kie", "sub_", "float"))


def _deser(label, th):
    sym = _symbolic(label)

    def build():
        spec = th()
        return spec, make_class("Host", [F("v", spec), F("w", INT)])

    def run(inp, env):
        from serde import from_dict, from_tuple

        spec, cls = env
        v = near(inp, "v", spec, sym)
        w = inp.int("w")
        dicts = inp.flag("dict")
        reuse = inp.flag("reuse") if not sym else True
        ok, y = attempt((lambda: from_dict(cls, {"v": v, "w": w}, reuse_instances=reuse))
                        if dicts else (lambda: from_tuple(cls, (v, w), reuse_instances=reuse)))
        if ok:
            check(type(y) is cls and spec.ok(y.v) and type(y.w) is int,
                  "an instance holds a value that is not of the declared type")
            if sym:
                check(agrees(y.v, v), "a value of the wrong type was converted, not rejected")
            inp.reach("ok")
        else:
            inp.reach("rejected")

    return Harness(f"deser:{label}", build, run,
                   reach=() if label in ("any", "u_none") else ("rejected",))


def _ctor(label, th):
    def build():
        spec = th()
        return spec, make_class("Host", [F("v", spec), F("w", INT)])

    def run(inp, env):
        spec, cls = env
        if inp.flag("good"):
            v = spec.draw(inp, "v")
            ok, x = attempt(lambda: cls(v=v, w=inp.int("w")))
            check(ok, "the constructor rejects a value of the declared type")
            check(x.v is v or same(x.v, v), "the constructor stores the value")
            inp.reach("good")
            return
        v = junk(inp, "v", 1, True, keys=["k"], tuples=True)
        ok, x = attempt(lambda: cls(v=v, w=1))
        LITERAL_EQ["on"] = True
        try:
            good = spec.ok(v)
        finally:
            LITERAL_EQ["on"] = False
        if ok:
            check(good, "the constructor accepts a value that is not of the declared type")
        else:
            check(not good, "the constructor rejects a value of the declared type")
        inp.reach("junk")

    return Harness(f"ctor:{label}", build, run, reach=("good", "junk"))


def _sampled(label, elem, mk):
    """Two elements, one of them wrong: rejected whenever the sampled one is the wrong one."""
    def build():
        spec = mk(elem())
        return spec, make_class("Host", [F("v", spec)])

    def run(inp, env):
        from serde import from_dict

        spec, cls = env
        idx = inp.choice("sample", 2)
        bad = inp.choice("bad", 3)
        vals = []
        for i in range(2):
            vals.append(inp.str(f"bad{i}", 3) if bad == i else spec_value(inp, f"good{i}"))
        _env.set_randbits(idx)
        try:
            if isinstance(spec, DictS):
                data = {"k": vals[0], "Z z": vals[1]}
                idx = 0  # beartype looks at the first pair
            else:
                data = list(vals)
            if isinstance(spec, DequeS):
                idx = 0  # and at the first element of a deque
            ok, y = attempt(lambda: from_dict(cls, {"v": data}))
            check(ok or bad < 2, "well-typed elements are rejected")
            check(not (ok and bad == idx), "the sampled element has the wrong type")
            inp.reach("ok" if ok else "rejected")
        finally:
            _env.set_randbits(0)

    def spec_value(inp, n):
        return inp.int(n)

    return Harness(f"sampled:{label}", build, run, reach=("ok", "rejected"))


def _tuple_len(how):
    def build():
        t = Tup(INT, STR)
        return t, make_class("Host", [F("v", t)])

    def run(inp, env):
        from serde import from_dict, from_tuple

        spec, cls = env
        n = inp.choice("n", 5)
        vals = [inp.int("a"), inp.str("b"), inp.int("c"), inp.str("d")][:n]
        seq = list(vals) if inp.flag("list") else tuple(vals)
        if how == "direct":
            frm = from_dict if inp.flag("dict") else from_tuple
            ok, y = attempt(lambda: frm(spec.py, seq))
        elif how == "field":
            ok, y = attempt(lambda: from_dict(cls, {"v": seq}).v)
        else:
            ok, y = attempt(lambda: from_tuple(cls, (seq,)).v)
        inp.reach("ok" if ok else "rejected")
        if ok:
            check(same(y, tuple(vals)), "a tuple has exactly the declared number of elements")
        check(ok or n != 2, "a well-typed tuple is rejected")

    return Harness(f"tuple-length:{how}", build, run, reach=("ok", "rejected"))


def _nested():
    """The check applies to nested serde classes, wherever they are."""
    def build():
        i = DC("In", [F("i", INT), F("o", Opt(STR))])
        return i, make_class("Host", [F("a", i), F("l", ListS(i, 1)), F("d", DictS(KSTR, i, 1)),
                                      F("o", Opt(i)), F("t", Tup(i, INT))])

    def run(inp, env):
        from serde import from_dict

        i, cls = env
        good = {"i": 1, "o": None}
        where = inp.pick("where", ["a", "l", "d", "o", "t"])
        data = {"a": dict(good), "l": [dict(good)], "d": {"k": dict(good)}, "o": dict(good),
                "t": [dict(good), 3]}
        bad = {"i": junk(inp, "i", 0), "o": junk(inp, "o", 0)}
        data[where] = {"a": bad, "l": [bad], "d": {"k": bad}, "o": bad, "t": [bad, 3]}[where]
        ok, y = attempt(lambda: from_dict(cls, data))
        want = isinstance(bad["i"], int) and (bad["o"] is None or type(bad["o"]) is str)
        check(ok == want, "nested class checked exactly")
        inp.reach("ok" if ok else "rejected")

    return Harness("nested", build, run, reach=("ok", "rejected"))


def _feature(label, fields, data, bad_ok, **opts):
    """Defaults, renames and keyword-only fields are checked like any other."""
    def build():
        return make_class("Host", fields(), **opts)

    def run(inp, cls):
        from serde import from_dict

        d, name = data(inp)
        v = d[name]
        ok, y = attempt(lambda: from_dict(cls, d))
        if ok:
            check(bad_ok(y.a if hasattr(y, "a") else y.a_b), "checked exactly")
        else:
            check(not bad_ok(v), "well-typed data is rejected")
        inp.reach("ok" if ok else "rejected")

    return Harness(f"feature:{label}", build, run, reach=("ok", "rejected"))


def _isint(v):
    return isinstance(v, int)


FEATURES = [
    ("default", lambda: [F("a", INT, default=1)], lambda i: ({"a": junk(i, "a", 0)}, "a"), _isint,
     {}),
    ("factory", lambda: [F("a", ListS(INT), factory=list)],
     lambda i: ({"a": junk(i, "a", 1)}, "a"), None, {}),
    ("rename", lambda: [F("a", INT, opts={"rename": "z"})],
     lambda i: ({"z": junk(i, "a", 0)}, "z"), _isint, {}),
    ("rename_all", lambda: [F("a_b", INT)], lambda i: ({"aB": junk(i, "a", 0)}, "aB"), _isint,
     {"rename_all": "camelcase"}),
    ("alias", lambda: [F("a", INT, opts={"alias": ["z"]})],
     lambda i: ({"z": junk(i, "a", 0)}, "z"), _isint, {}),
    ("kw_only", lambda: [F("a", INT, opts={"kw_only": True})],
     lambda i: ({"a": junk(i, "a", 0)}, "a"), _isint, {}),
    ("optional", lambda: [F("a", Opt(INT), default=None)],
     lambda i: ({"a": junk(i, "a", 0)}, "a"), lambda v: v is None or isinstance(v, int), {}),
    ("deny", lambda: [F("a", INT)], lambda i: ({"a": junk(i, "a", 0)}, "a"), _isint,
     {"deny_unknown_fields": True}),
]


def harnesses(tier):
    u = [(l, t) for l, t in universe(tier) if l not in ABSTRACT_LABELS and "any" not in l
         and "rec" not in l]
    out = []
    out += [_deser(l, t) for l, t in u]
    core = {l for l, _ in universe("core" if tier == "quick" else tier)}
    out += [_ctor(l, t) for l, t in u if l in core]
    for lab, mk in [("list", lambda e: ListS(e)), ("dict", lambda e: DictS(KSTR2, e)),
                    ("vtup", lambda e: VarTup(e)), ("deque", lambda e: DequeS(e))]:
        out.append(_sampled(lab, lambda: INT, mk))
    out += [_tuple_len(h) for h in ("direct", "field", "positional")] + [_nested()]
    for lab, fs, d, ok, opts in FEATURES:
        if ok is None:
            ok = lambda v: (isinstance(v, list) and  # noqa: E731
                            all(isinstance(e, int) for e in v))
        out.append(_feature(lab, fs, d, ok, **opts))
    return out
