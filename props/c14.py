"""C14  Unknown keys are ignored, or all rejected with deny_unknown_fields."""
from props.common import *
from symex.api import ReplayInputs

BOUNDS = ("an unbounded symbolic extra key (any string) with plain data of any kind, in every "
          "position and class configuration; all universe types for the known fields; symbolic values")
ASSUMPTIONS = ["the extra key's value is never looked at: four kinds of plain data and an opaque object"]
LAX = WireOpts(reuse_instances=False, convert_sets=True)


def _junk(inp):
    return inp.pick("junk", [None, 1, "s", [1], {"k": 1}, object()])


def _type(label, th):
    def build():
        spec = th()
        mk = lambda n, **o: make_class(n, [F("a", INT), F("v", spec), F("z", INT, default=1)], **o)  # noqa
        return spec, mk("Un"), mk("De", deny_unknown_fields=True)

    def run(inp, env):
        from serde import from_dict, from_tuple, to_tuple

        spec, un, de = env
        v, a = spec.draw(inp, "v"), inp.int("a")
        items = [("a", a), ("v", spec.wire(v, LAX))]
        if inp.flag("z"):
            items.append(("z", 5))
        k = inp.str("key")
        for n in ("a", "v", "z"):
            inp.assume(k != n)
        j = _junk(inp)
        d = inp.dict(items + [(k, j)])
        y = from_dict(un, d, reuse_instances=False)
        z = 5 if len(items) == 3 else 1
        check(same((y.a, y.v, y.z), (a, v, z)), "an unknown key changes nothing")
        e = must_fail(lambda: from_dict(de, d, reuse_instances=False), "an unknown key is rejected")
        y = from_dict(de, dict(items), reuse_instances=False)
        check(same((y.a, y.v, y.z), (a, v, z)), "no unknown key: accepted")
        check(same(from_tuple(de, to_tuple(y)), y), "tuples have no keys")
        inp.reach("end")

    return Harness(f"type:{label}", build, run)


def _configs():
    """(label, thunk -> (class, known names, a required item list, expected attributes))."""
    def mk(fields, **o):
        return make_class("Cfg", fields, **o)
    inn = lambda: make_class("CIn", [F("p", INT, default=0), F("q_q", INT, default=0,  # noqa: E731
                                                               opts={"alias": ["qa"]})])
    return {
        "plain": lambda o: (mk([F("x_x", INT, default=0), F("y", INT, default=0)], **o), {"x_x", "y"}),
        "rename": lambda o: (mk([F("x_x", INT, default=0, opts={"rename": "R"}),
                                 F("y", INT, default=0)], **o), {"R", "y"}),
        "rename_all": lambda o: (mk([F("x_x", INT, default=0), F("y_z", INT, default=0,
                                                                opts={"rename": "R"})],
                                    rename_all="camelcase", **o), {"xX", "R"}),
        "alias": lambda o: (mk([F("x_x", INT, default=0, opts={"alias": ["a1", 'a"']}),
                                F("y", INT, default=0)], rename_all="camelcase", **o),
                            {"xX", "y", "a1", 'a"'}),
        "opt": lambda o: (mk([F("x", Opt(INT)), F("y", Opt(INT), default=3)], **o), {"x", "y"}),
        "skip_de": lambda o: (mk([F("x", INT, default=0, opts={"skip_deserializing": True}),
                                  F("y", INT, default=0)], **o), {"x", "y"}),
        "skip_se": lambda o: (mk([F("x", INT, default=0, opts={"skip_serializing": True}),
                                  F("y", INT, default=0)], **o), {"x", "y"}),
        "kw": lambda o: (mk([F("x", INT, default=0, opts={"kw_only": True}), F("y", INT, default=0)],
                            **o), {"x", "y"}),
        "inherit": lambda o: (make_class("CSub", [F("y", INT, default=0)],
                                         bases=(mk([F("x", INT, default=0)]),), **o), {"x", "y"}),
        "inherit_rename": lambda o: (make_class("CSub", [F("y_y", INT, default=0)],
                                                bases=(mk([F("x_x", INT, default=0)]),),
                                                rename_all="camelcase", **o), {"xX", "yY"}),
        "initvar": lambda o: (mk([F("x", INT, default=0, ann=__import__("dataclasses").InitVar[int]),
                                  F("y", INT, default=0)], **o), {"y"}),  # not a field
        "classvar": lambda o: (mk([F("x", INT, default=0), F("c", INT, default=0,
                                                            ann=typing.ClassVar[int])], **o), {"x"}),
        "empty": lambda o: (mk([], **o), set()),
        "generic": lambda o: (lambda T: (make_class("CGen", [F("x", INT, default=0, ann=T),
                                                             F("y", INT, default=0)],
                                                    bases=(typing.Generic[T],), **o), {"x", "y"}))(
            typing.TypeVar("T")),
        "flatten": lambda o: (lambda i: (mk([F("f", INT, ann=i, factory=i, opts={"flatten": True}),
                                             F("x", INT, default=0)], **o),
                                         {"p", "q_q", "qa", "x"}))(inn()),
        "flatten_opt": lambda o: (mk([F("f", INT, ann=typing.Optional[inn()], default=None,
                                        opts={"flatten": True}), F("x", INT, default=0)], **o),
                                  {"p", "q_q", "qa", "x"}),
        "flatten2": lambda o: (lambda i: (mk([F("g", INT, ann=make_class(
            "CMid", [F("f", INT, ann=i, opts={"flatten": True}), F("m", INT, default=0)]),
            opts={"flatten": True}), F("x", INT, default=0)], **o), {"p", "q_q", "qa", "m", "x"}))(inn()),
        "frozen": lambda o: (mk([F("x", INT, default=0)], deco=lambda c: __import__("serde").serde(
            __import__("dataclasses").dataclass(frozen=True)(c), **o)), {"x"}),
        "coerce": lambda o: (mk([F("x", INT, default=0)], type_check=__import__("serde").coerce, **o), {"x"}),
        "disabled": lambda o: (mk([F("x", INT, default=0)], type_check=__import__("serde").disabled, **o),
                               {"x"}),
    }


def _cfg(name, th):
    """For all strings k: {k: v} is rejected by deny_unknown_fields iff k is not a known name."""
    def build():
        return th({"deny_unknown_fields": True}), th({})

    def run(inp, env):
        from serde import from_dict

        (de, known), (lax, _) = env
        k, v = inp.str("key"), inp.int("v")
        d = inp.dict([(k, v)])
        ok, y = attempt(lambda: from_dict(de, d))
        is_known = any([bool(k == n) for n in known])
        check(ok == is_known, "rejected exactly when the key is unknown")
        ok, y = attempt(lambda: from_dict(lax, d))
        check(ok, "never rejected without the option")
        if not is_known:
            check(same(y, from_dict(lax, {})), "and an unknown key changes nothing")
            inp.reach("unknown")
        else:
            inp.reach("known")

    return Harness(f"cfg:{name}", build, run, reach=("unknown",) if name == "empty" else
                   ("unknown", "known"))


def _nested(pos):
    """The option of the nested class decides at its position, the parent's at its own."""
    def build():
        inn = [make_class("NI", [F("x", INT)], **o) for o in ({}, {"deny_unknown_fields": True})]
        out = []
        for po in ({}, {"deny_unknown_fields": True}):
            for i, c in enumerate(inn):
                ann = {"direct": c, "list": list[c], "dict": dict[str, c], "opt": typing.Optional[c],
                       "tuple": tuple[int, c], "deque": collections.deque[c],
                       "union": typing.Union[int, c], "optlist": typing.Optional[list[c]],
                       "dictlist": dict[str, list[c]], "vtuple": tuple[c, ...],
                       "default": c}[pos]
                out.append((bool(po), bool(i), c, make_class(
                    "NH", [F("p", INT, ann=ann, **({"factory": lambda c=c: c(0)} if pos == "default" else {}))],
                    **po)))
        return out

    def run(inp, env):
        from serde import from_dict

        pd, cd, c, cls = inp.pick("cls", env)
        k, v = inp.str("key"), inp.int("x")
        where = inp.choice("where", 3)
        inp.assume(k != "x")
        inp.assume(k != "p")
        child = inp.dict([("x", v), (k, 1)]) if where == 1 else {"x": v}
        w = {"direct": lambda: child, "default": lambda: child, "list": lambda: [child],
             "dict": lambda: {"k": child}, "opt": lambda: child, "tuple": lambda: (1, child),
             "deque": lambda: [child], "union": lambda: {"NI": child}, "optlist": lambda: [child],
             "dictlist": lambda: {"k": [child]}, "vtuple": lambda: [child]}[pos]()
        d = inp.dict([("p", w), (k, 1)]) if where == 2 else {"p": w}
        ok, y = attempt(lambda: from_dict(cls, d))
        check(ok == (not (where == 1 and cd or where == 2 and pd)), "each class's own setting")
        if ok:
            check(same(y, from_dict(cls, {"p": {"direct": {"x": v}, "default": {"x": v}}.get(pos, w)
                                          if where != 1 else w})), "ignored keys change nothing")
        inp.reach("end")

    return Harness(f"nested:{pos}", build, run)


def _tagged(tag):
    """Tags are not unknown fields; members that deny are skipped for the next one."""
    def build():
        import serde

        t = {"External": serde.ExternalTagging, "Internal": serde.InternalTagging("t"),
             "Adjacent": serde.AdjacentTagging("t", "c"), "Untagged": serde.Untagged}[tag]
        a = make_class("TA", [F("x", INT)], deny_unknown_fields=True)
        b = make_class("TB", [F("x", INT), F("y", INT, default=1)])
        return t, a, b, make_class("TH", [F("u", INT, ann=typing.Union[a, b]),
                                          F("l", INT, ann=list[typing.Union[a, int]], factory=list)],
                                   tagging=t, deny_unknown_fields=True)

    def run(inp, env):
        from serde import from_dict, to_dict

        t, a, b, cls = env
        v = inp.int("v")
        for x in (cls(a(v), [a(v), 2]), cls(b(v), [])):
            if tag == "Untagged" and type(x.u) is b:
                check(same(from_dict(cls, to_dict(x)), x), "denied by A, accepted by B")
            else:
                check(same(from_dict(cls, to_dict(x)), x), "round trip")
        k = inp.str("key")
        for n in ("x", "y", "t", "c"):
            inp.assume(k != n)
        w = inp.dict([("x", v), (k, 1)])
        data = {"External": lambda: {"TA": w}, "Internal": lambda: inp.dict([("x", v), ("t", "TA"), (k, 1)]),
                "Adjacent": lambda: {"t": "TA", "c": w}, "Untagged": lambda: w}[tag]()
        ok, y = attempt(lambda: from_dict(cls, {"u": data}))
        if tag == "Untagged":
            check(ok and same(y.u, b(v)), "the next member")
        else:
            check(not ok, "an unknown key in the member")
        inp.reach("end")

    return Harness(f"tagged:{tag}", build, run)


def _flatten_deny():
    """Parent and child settings with flattening: the child's names are known to the parent; what
    the parent knows is not unknown to the child."""
    def build():
        out = []
        for p in (False, True):
            for c in (False, True):
                ch = make_class("FC", [F("x", INT), F("y", INT, default=1, opts={"alias": ["ya"]})],
                                **({"deny_unknown_fields": True} if c else {}))
                sib = make_class("FS", [F("s", INT, default=1)],
                                 **({"deny_unknown_fields": True} if c else {}))
                out.append((p, c, make_class("FP", [
                    F("a", INT, opts={"rename": "A"}), F("f", INT, ann=ch, opts={"flatten": True}),
                    F("g", INT, ann=sib, opts={"flatten": True})],
                    **({"deny_unknown_fields": True} if p else {}))))
        return out

    def run(inp, env):
        from serde import from_dict, to_dict

        p, c, cls = inp.pick("cls", env)
        a, x, v, k = inp.int("a"), inp.int("x"), inp.int("v"), inp.str("key")
        inp.assume(k != "A")
        inp.assume(k != "x")
        ok, r = attempt(lambda: from_dict(cls, inp.dict([("A", a), ("x", x), (k, v)])))
        isy, iss = bool(k == "y") or bool(k == "ya"), bool(k == "s")
        check(ok == (isy or iss or not (p or c)), "names of flattened children are known")
        if ok:
            check(same((r.a, r.f.x, r.f.y, r.g.s), (a, x, v if isy else 1, v if iss else 1)), "values")
            check(same(from_dict(cls, to_dict(r)), r), "round trip")
        inp.reach("end")

    return Harness("flatten_deny", build, run)


def harnesses(tier):
    u = universe(tier)
    out = [_type(l, t) for l, t in u]
    out += [_cfg(n, t) for n, t in _configs().items()]
    out += [_nested(p) for p in ("direct", "list", "dict", "opt", "tuple", "deque", "union", "optlist",
                                 "dictlist", "vtuple", "default")]
    out += [_tagged(t) for t in ("External", "Internal", "Adjacent", "Untagged")]
    return out + [_flatten_deny()]
