"""C15  Flattening inlines children and round-trips."""
import dataclasses

from props.common import *
from props.c33 import similar
from symex.api import ReplayInputs

BOUNDS = ("flattened classes with every universe type and every feature combination, at every "
          "field position, nested to depth 3; a flattened dict with an unbounded symbolic key; "
          "symbolic leaf values")
ASSUMPTIONS = ["field names of parent and children are different (otherwise the parent's win, which "
               "is checked for a flattened dict)"]


def _type(label, th):
    """Children with a field of every type, before / between / after the parent's fields."""
    def build():
        spec = th()
        ch = make_class("Ch", [F("c1", spec), F("c2", INT), F("c3", Opt(STR), default=None)])
        fl = lambda: F("ch", INT, ann=ch, opts={"flatten": True})  # noqa: E731
        fo = lambda: F("ch", INT, ann=typing.Optional[ch], opts={"flatten": True})  # noqa: E731
        return spec, ch, [make_class("P0", [fl(), F("a", INT), F("b", INT)]),
                          make_class("P1", [F("a", INT), fl(), F("b", INT)]),
                          make_class("P2", [F("a", INT), F("b", INT), fl()]),
                          make_class("P3", [F("a", INT), fo(), F("b", INT)])]

    def run(inp, env):
        from serde import from_dict, to_dict

        spec, ch, clss = env
        k = inp.choice("cls", 4)
        c = ch(spec.draw(inp, "c"), inp.int("c2"), inp.str("c3") if inp.flag("c3?") else None)
        x = clss[k](a=inp.int("a"), b=inp.int("b"), ch=c)
        for ri, w in ((True, W), (False, WireOpts(reuse_instances=False, convert_sets=True))):
            own = {"c1": spec.wire(c.c1, w), "c2": c.c2, "c3": c.c3}
            a, b = {"a": x.a}, {"b": x.b}
            exp = [{**own, **a, **b}, {**a, **own, **b}, {**a, **b, **own}, {**a, **own, **b}][k]
            d = to_dict(x, reuse_instances=ri, convert_sets=not ri)
            check(same(list(d), list(exp)), "exactly its own entries, in place")
            check(same(d, exp), "exactly its own entries")
            check(same(from_dict(clss[k], d, reuse_instances=ri), x), "and is rebuilt from them")
        if k == 3:
            y = from_dict(clss[3], to_dict(clss[3](a=x.a, b=x.b, ch=None)))
            check(y.ch is None and same((y.a, y.b), (x.a, x.b)), "an absent optional child is None")
        inp.reach("end")

    return Harness(f"type:{label}", build, run)


def _childcombo(combo):
    """Every feature combination on the child's fields, under parents with other settings."""
    _, o, default, factory = combo

    def build():
        out = []
        for i, (cr, pr) in enumerate([(None, None), ("camelcase", None), (None, "camelcase"),
                                      ("kebabcase", "constcase")]):
            ch = combo_class(combo, f"Fc{i}", rename_all=cr)
            out.append((cr, pr, ch, make_class(f"Fp{i}", [
                F("p_p", INT), F("c", INT, ann=ch, opts={"flatten": True}), F("q_q", INT, default=1)],
                rename_all=pr)))
        return out

    def run(inp, env):
        import casefy

        from serde import from_dict, from_tuple, to_dict, to_tuple

        cr, pr, ch, cls = inp.pick("cls", env)
        cv = lambda r, n: getattr(casefy, r)(n) if r else n  # noqa: E731
        c = combo_value(inp, ch, combo)
        x = cls(inp.int("p"), c, inp.int("q"))
        exp = {cv(pr, "p_p"): x.p_p, cv(cr, "a_a"): c.a_a,
               o.get("rename") or cv(cr, "m_m"): c.m_m, cv(cr, "z_z"): c.z_z, cv(pr, "q_q"): x.q_q}
        skipped = "skip_if_default" in o and bool(c.m_m == (3 if default is not MISSING else 5))
        if skipped:
            del exp[o.get("rename") or cv(cr, "m_m")]
        d = to_dict(x)
        check(same(d, exp) and same(list(d), list(exp)), "the child's own entries")
        check(same(from_dict(cls, d), x), "round trip")
        check(same(from_tuple(cls, to_tuple(x)), x), "tuple round trip")
        check(same(to_tuple(x), (x.p_p, c.a_a, c.m_m, c.z_z, x.q_q)), "tuple form")
        if "alias" in o and not skipped:
            d["al1"] = d.pop(o.get("rename") or cv(cr, "m_m"))
            check(same(from_dict(cls, d), x), "the child's aliases")
        inp.reach("end")

    return Harness(f"child:{combo[0]}", build, run)


FLATOPTS = {
    "plain": {}, "kw": {"kw_only": True}, "alias": {"alias": ["zz"]}, "rename": {"rename": "zz"},
    "sin": {"skip_if_none": True},
}


def _flatfield(label):
    """Features of the flattened field itself; defaults; Optional with a default."""
    o = FLATOPTS[label]

    def build():
        ch = make_class("FfC", [F("x", INT), F("y", INT, default=4)])
        out = []
        for k, (ann, kw) in enumerate([(ch, {}), (ch, {"factory": lambda: ch(7, 8)}),
                                       (typing.Optional[ch], {}), (typing.Optional[ch], {"default": None}),
                                       (typing.Optional[ch], {"factory": lambda: ch(7, 8)}),
                                       (ch | None, {"default": None})]):
            out.append((k, make_class(f"Ff{k}", [F("a", INT), F("c", INT, ann=ann,
                                                               opts={"flatten": True, **o}, **kw),
                                                 F("b", INT, default=1)])))
        return ch, out

    def run(inp, env):
        from serde import from_dict, to_dict

        ch, clss = env
        k, cls = inp.pick("cls", clss)
        a, b = inp.int("a"), inp.int("b")
        none = k >= 2 and inp.flag("none")
        c = None if none else ch(inp.int("x"), inp.int("y"))
        x = cls(a=a, b=b, c=c)
        exp = {"a": a, "b": b} if none else {"a": a, "x": c.x, "y": c.y, "b": b}
        check(same(to_dict(x), exp), "own entries")
        y = from_dict(cls, exp)
        if none and k == 4:
            check(same(y.c, ch(7, 8)), "absent: the default")
        else:
            check(same(y, x), "round trip")
        ok, y = attempt(lambda: from_dict(cls, {"a": a, "b": b}))
        if k == 0:
            check(not ok, "a missing required child is an error")
        else:
            check(ok and same(y.c, ch(7, 8) if k in (1, 4) else None), "absent: default or None")
        ok, y = attempt(lambda: from_dict(cls, {"a": a, "x": a}))
        check(ok and same(y.c, ch(a, 4)), "the child's defaults")
        inp.reach("end")

    return Harness(f"field:{label}", build, run)


def _deep():
    """Depth 3, siblings, generics, inheritance, unions, in containers and passed directly."""
    def build():
        g = make_class("DG", [F("g1", INT), F("g2", ListS(INT, 1), factory=list)])
        m = make_class("DM", [F("m1", STR), F("g", INT, ann=g, opts={"flatten": True}), F("m2", BOOL)])
        s = make_class("DS", [F("s1", INT), F("s_2", INT, default=2)], rename_all="camelcase")
        p = make_class("DP", [F("m", INT, ann=m, opts={"flatten": True}), F("p1", INT),
                              F("s", INT, ann=s, opts={"flatten": True})])
        sub = make_class("DSub", [F("w", INT)], bases=(p,))
        T = typing.TypeVar("T")
        gen = make_class("DGen", [F("t", INT, ann=T), F("m", INT, ann=m, opts={"flatten": True})],
                         bases=(typing.Generic[T],))
        host = make_class("DHost", [F("l", INT, ann=list[p]), F("o", INT, ann=typing.Optional[sub]),
                                    F("u", INT, ann=typing.Union[p, int]), F("g", INT, ann=gen[int]),
                                    F("d", INT, ann=dict[str, p])])
        return g, m, s, p, sub, gen, host

    def run(inp, env):
        from serde import from_dict, from_tuple, to_dict, to_tuple

        g, m, s, p, sub, gen, host = env
        gg = g(inp.int("g1"), [inp.int("g2")] if inp.flag("g2?") else [])
        mm = m(inp.str("m1"), gg, inp.bool("m2"))
        ss = s(inp.int("s1"), inp.int("s2"))
        x = p(mm, inp.int("p1"), ss)
        exp = {"m1": mm.m1, "g1": gg.g1, "g2": gg.g2, "m2": mm.m2, "p1": x.p1, "s1": ss.s1, "s2": ss.s_2}
        check(same(to_dict(x), exp) and same(list(to_dict(x)), list(exp)), "depth 3")
        check(same(from_dict(p, exp), x), "depth 3 back")
        t = (mm.m1, gg.g1, gg.g2, mm.m2, x.p1, ss.s1, ss.s_2)
        check(same(to_tuple(x), t) and same(from_tuple(p, t), x), "tuples")
        y = sub(mm, x.p1, ss, inp.int("w"))
        expy = {**exp, "w": y.w}
        check(same(to_dict(y), expy) and same(from_dict(sub, expy), y), "inherited")
        ge = gen(inp.int("t"), mm)
        expg = {"t": ge.t, **{k: exp[k] for k in ("m1", "g1", "g2", "m2")}}
        check(same(from_dict(gen[int], expg), ge), "generic")
        h = host([x], y, x, ge, {"k": x})
        eh = {"l": [exp], "o": expy, "u": {"DP": exp}, "g": expg, "d": {"k": exp}}
        check(same(to_dict(h), eh) and same(from_dict(host, eh), h), "in every position")
        inp.reach("end")

    return Harness("deep", build, run)


def _dict(kind):
    """A flattened dict captures exactly the undeclared entries; any string as key."""
    def build():
        ann = {"any": dict[str, typing.Any], "bare": dict, "typing": typing.Dict[str, typing.Any]}[
            kind.split("_")[0]]
        fl = lambda **k: F("extra", INT, ann=ann, opts={"flatten": True, **k.pop("o", {})}, **k)  # noqa
        ch = make_class("DiC", [F("x", INT, default=1), F("y", INT, default=2, opts={"alias": ["ya"]})])
        if kind.endswith("_child"):
            return make_class("Di", [F("a_a", INT, default=0), F("c", INT, ann=ch, opts={"flatten": True}, factory=ch),
                                     fl(factory=dict), F("b", INT, default=5)], rename_all="camelcase")
        if kind.endswith("_first"):
            return make_class("Di", [fl(), F("a_a", INT, default=0, opts={"alias": ["al"]}),
                                     F("b", INT, default=5)], rename_all="camelcase")
        if kind.endswith("_deny"):
            return make_class("Di", [F("a_a", INT, default=0, opts={"rename": "aA"}), F("b", INT, default=5),
                                     fl(factory=dict)], deny_unknown_fields=True)
        return make_class("Di", [F("a_a", INT, default=0), fl(factory=dict, o={"kw_only": True}),
                                 F("b", INT, default=5, opts={"alias": ["al"]})], rename_all="camelcase")

    def run(inp, cls):
        from serde import from_dict, to_dict

        known = {"aA", "b"}
        if kind.endswith("_child"):
            known |= {"x", "y", "ya"}
        elif not kind.endswith("_deny"):
            known |= {"al"}
        sym = inp.flag("symbolic key")
        if sym:
            k = inp.str("key")
            inp.assume(k != "aA")
            inp.assume(k != "e1")
            v = inp.int("v")
        else:
            k = inp.pick("known key", sorted(known - {"aA"}) + ["a_a", "extra", "", "B"])
            v = ANY.draw(inp, "v")
        a, e = inp.int("a"), inp.int("e")
        items = [("aA", a)] + ([("e1", e)] if inp.flag("e?") else [])
        isk = any(bool(k == n) for n in sorted(known))
        if isk:
            v = inp.int("kv")
        d = inp.dict(items + [(k, v)])
        y = from_dict(cls, d)
        check(same(y.a_a, a), "declared field")
        exp = [("e1", e)] if len(items) == 2 else []
        if not isk:
            exp.append((k, v))
        check(len(y.extra) == len(exp), "exactly the undeclared entries")
        for kk, vv in exp:
            check(kk in y.extra and same(y.extra[kk], vv), "are captured unchanged")
        if isk:
            got = {"b": lambda: y.b, "al": lambda: y.b if kind.count("_") == 0 else y.a_a,
                   "x": lambda: y.c.x, "y": lambda: y.c.y, "ya": lambda: y.c.y}
            if not (bool(k == "al") and kind.endswith("_first")):  # aA wins over its alias
                for n in got:
                    if n in known and bool(k == n):
                        check(same(got[n](), v), "declared names go to their fields")
            inp.reach("known")
        elif sym:
            inp.reach("any")
        else:
            out = to_dict(y)
            check(k in out and same(out[k], v) and same(out["aA"], a) and same(out["b"], 5), "merged back")
            check(len(out) == 2 + len(exp) + 2 * kind.endswith("_child"), "nothing else")
            inp.reach("extra")

    return Harness(f"dict:{kind}", build, run, reach=("known", "extra", "any"))


def _precedence():
    """Declared fields take precedence over entries of the dict, wherever it is declared and
    whatever their values are."""
    def build():
        fl = lambda **kw: F("e", INT, ann=dict[str, typing.Any], opts={"flatten": True}, **kw)  # noqa
        o = lambda **kw: F("o", Opt(INT), **kw)  # noqa: E731
        b = lambda: F("b", INT, opts={"rename": "B"})  # noqa: E731
        child = make_class("PrC", [F("c", INT), fl()])
        opt = lambda: F("f", INT, ann=typing.Optional[child], opts={"flatten": True})  # noqa: E731
        return child, [
            make_class("Pr0", [F("a", INT, opts={"kw_only": True}), o(), b(), fl(factory=dict)]),
            make_class("Pr1", [fl(), F("a", INT), o(), b()]),
            make_class("Pr2", [F("a", INT), o(), b(), F("f", INT, ann=child, opts={"flatten": True})]),
            make_class("Pr3", [F("a", INT), opt(), b(), o()])]

    def run(inp, env):
        from serde import from_dict, to_dict

        child, clss = env
        cls = inp.pick("cls", clss)
        k, v = inp.pick("key", ["a", "B", "b", "e", "", "x y", "o", "f"]), inp.int("v")
        a, b, o, c = inp.int("a"), inp.int("b"), Opt(INT).draw(inp, "o"), inp.int("c")
        e = inp.dict([(k, v)])
        nested = cls in clss[2:]
        x = cls(a=a, b=b, o=o, f=child(c, e)) if nested else cls(a=a, b=b, o=o, e=e)
        d = to_dict(x)
        isk = any([bool(k == n) for n in ("a", "B", "o")])
        check(same(d["a"], a) and same(d["B"], b) and same(d["o"], o), "never overwrites a declared field")
        check(not nested or same(d["c"], c), "nor one of the child")
        check(len(d) == 3 + nested + (not isk), "one entry per name")
        if not isk:
            check(same(d[k], v), "other entries are merged")
            y = from_dict(cls, d)
            check(same((y.a, y.b, y.o), (a, b, o)) and same(y.f.e if nested else y.e, {k: v}), "captured")
        inp.reach("end")

    return Harness("precedence", build, run)


def _dictnested():
    """Captured values are kept as they are at any depth and round-trip in every position."""
    def build():
        c = make_class("DnC", [F("x", INT), F("e", INT, ann=dict[str, typing.Any],
                                            opts={"flatten": True}, factory=dict)])
        return c, make_class("DnH", [F("l", INT, ann=list[c]), F("o", INT, ann=typing.Optional[c]),
                                     F("u", INT, ann=typing.Union[int, c]),
                                     F("d", INT, ann=dict[str, c])])

    def run(inp, env):
        from serde import from_dict, to_dict

        c, h = env
        v = {"i": inp.int("i"), "n": {"s": inp.str("s"), "l": [inp.int("j"), None, {"q": inp.bool("b")}]}}
        val = c(inp.int("x"), {"k1": v, "k2": inp.float("f")})
        w = {"x": val.x, "k1": v, "k2": val.e["k2"]}
        x = h([val], val, val, {"k": val})
        exp = {"l": [w], "o": w, "u": {"DnC": w}, "d": {"k": w}}
        check(same(to_dict(x), exp), "merged")
        check(same(from_dict(h, exp), x), "captured")
        before = snapshot(w)
        from_dict(c, w)
        check(same(w, before), "the input is unchanged")
        inp.reach("end")

    return Harness("dictnested", build, run)


def _invalid():
    """Types that cannot be flattened are rejected when the class is defined."""
    anns = [int, str, list[int], dict[str, int], dict[int, str], typing.Union[int, str],
            typing.Optional[int], tuple[int, int], set[int], typing.Optional[list[int]]]

    def build():
        return None

    def run(inp, env):
        from serde import SerdeError

        ann = inp.pick("ann", anns)
        try:
            make_class("Inv", [F("a", INT), F("f", INT, ann=ann, opts={"flatten": True})])
            check(False, "rejected")
        except SerdeError:
            pass
        inp.reach("end")

    return Harness("invalid", build, run)


def harnesses(tier):
    out = [_type(l, t) for l, t in universe(tier)]
    out += [_childcombo(c) for c in feature_combos(tier)]
    out += [_flatfield(l) for l in FLATOPTS]
    out += [_dict(k + s) for k in ("any", "bare", "typing") for s in ("", "_child", "_first", "_deny")]
    return out + [_deep(), _precedence(), _dictnested(), _invalid()] + similar("flat")
