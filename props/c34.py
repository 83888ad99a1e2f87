"""C34  The serializing and the deserializing decorator are independent of each other."""
import dataclasses
import datetime

from props.common import *

BOUNDS = ("every pair of 11 option sets for @serialize and @deserialize in both orders, on classes with optional, "
          "default, set, date, union, nested and plain fields; classes with only one of the two; values and the "
          "data's form (key style, tagging, instances, unknown keys, missing fields, wrong primitives) symbolic")
ASSUMPTIONS = ["transparent has to be given to both decorators",
               "a strict type check given to either decorator also guards the constructor, which both share"]

DT = datetime.datetime(2020, 1, 2, 3, 4, 5)


def _opts(name):
    import serde

    return {"none": {}, "camel": {"rename_all": "camelcase"}, "pascal": {"rename_all": "pascalcase"},
            "skipnone": {"skip_if_none": True}, "skipdef": {"skip_if_default": True},
            "sets": {"convert_sets_default": True}, "reuse": {"reuse_instances_default": True},
            "noreuse": {"reuse_instances_default": False}, "untagged": {"tagging": serde.Untagged},
            "adjacent": {"tagging": serde.AdjacentTagging("t", "c")},
            "mix": {"rename_all": "camelcase", "skip_if_none": True, "convert_sets_default": True,
                    "reuse_instances_default": False, "tagging": serde.InternalTagging("t")},
            "deny": {"deny_unknown_fields": True}, "coerce": {"type_check": serde.coerce},
            "disabled": {"type_check": serde.disabled}}[name]


SE = ["none", "camel", "skipnone", "skipdef", "sets", "reuse", "noreuse", "untagged", "adjacent", "mix", "disabled"]
DE = ["none", "camel", "pascal", "reuse", "noreuse", "untagged", "adjacent", "mix", "deny", "coerce", "disabled"]


def _fields(inner_cls):
    return [F("a_a", Opt(INT)), F("b_b", SetS(KSTR2, 1)), F("c_c", DATETIME),
            F("u_u", INT, ann=typing.Union[inner_cls, int]), F("n_n", inner()), F("p_p", Opt(INT), None),
            F("d_d", INT, 3)]


def _bare(fields):
    return make_class("Sd", fields, deco=dataclasses.dataclass)


def _style(name):
    return {"camel": "camel", "mix": "camel", "pascal": "pascal"}.get(name, "plain")


def _key(k, style):
    p = k.split("_")
    return {"plain": k, "camel": p[0] + p[1].upper(), "pascal": p[0].upper() + p[1].upper()}[style]


def _pair(s, d, deep=True):
    def build():
        import serde

        so, do = _opts(s), _opts(d)
        i = inner()
        mk = lambda deco: deco(_bare(_fields(i.cls)))  # noqa: E731
        both = [mk(lambda c: serde.serialize(serde.deserialize(c, **do), **so)),
                mk(lambda c: serde.deserialize(serde.serialize(c, **so), **do))]
        return i.cls, both, mk(lambda c: serde.serialize(c, **so)), mk(lambda c: serde.deserialize(c, **do))

    def run(inp, env):
        from serde import from_dict, from_tuple, to_dict, to_tuple

        i, both, se, de = env
        j = inp.choice("order", 2)
        cls = both[j]
        n = typing.get_type_hints(cls)["n_n"]
        vals = {"a_a": Opt(INT).draw(inp, "a"), "b_b": {"k"}, "c_c": DT,
                "u_u": i(inp.int("i"), "s") if inp.flag("cls") else inp.int("u"), "n_n": None,
                "p_p": None, "d_d": inp.int("d")}
        mk = lambda c: c(**{**vals, "n_n": typing.get_type_hints(c)["n_n"](inp_i, "q")})  # noqa: E731
        inp_i = inp.int("n")
        if inp.flag("write"):
            vals["p_p"] = Opt(INT).draw(inp, "p")
            check(same(to_dict(mk(cls)), to_dict(mk(se))), "written as by the serializing decorator alone")
            check(same(to_tuple(mk(cls)), to_tuple(mk(se))), "tuples, too")
            inp.reach("end")
            return
        # The forms of the data: all combinations, or one aspect at a time.
        what = None if deep else inp.pick("what", ["style", "tag", "how"])
        on = lambda x: what in (None, x)  # noqa: E731
        st = inp.pick("style", sorted({_style(s), _style(d)})) if on("style") else _style(d)
        own = {"untagged": "un", "adjacent": "adj", "mix": "int"}.get(d, "ext")
        uw = vals["u_u"]
        if not isinstance(uw, int):
            w = {"i": uw.i, "s": "s"}
            uw = {"ext": {"Inner": w}, "int": {**w, "t": "Inner"}, "adj": {"t": "Inner", "c": w}, "un": w}[
                inp.pick("tag", sorted({{"untagged": "un", "adjacent": "adj", "mix": "int"}.get(x, "ext")
                                        for x in (s, d)})) if on("tag") else own]
        data = {_key("a_a", st): vals["a_a"], _key("b_b", st): ["k"],
                _key("c_c", st): DT.isoformat() if on("how") and inp.flag("text") else DT, _key("u_u", st): uw,
                _key("n_n", st): {"i": inp_i, "s": "q"}, _key("d_d", st): vals["d_d"]}
        how = inp.pick("how", ["as is", "extra", "missing", "wrong"]) if on("how") else "as is"
        if how == "extra":
            data["zz"] = inp.int("z")
        elif how == "missing":
            del data[_key("a_a", st)], data[_key("d_d", st)]
        elif how == "wrong":
            data[_key("d_d", st)] = inp.pick("w", ["7", "x", None, True])
        x, y = attempt(lambda: from_dict(cls, data)), attempt(lambda: from_dict(de, data))
        strict = "disabled" in (s, d) and s != d
        if x[0] != y[0] and strict:
            inp.reach("end")  # the shared constructor is checked by one of the two
            return
        check(x[0] == y[0], "accepted as by the deserializing decorator alone")
        if x[0]:
            for k in vals:
                a, b = getattr(x[1], k), getattr(y[1], k)
                if k == "n_n":
                    a, b = (a.i, a.s), (b.i, b.s)
                check(same(a, b), "read as by the deserializing decorator alone")
            t = tuple(data.values())[:5] + (None, vals["d_d"])
            if how == "as is":
                x, y = attempt(lambda: from_tuple(cls, t)), attempt(lambda: from_tuple(de, t))
                check(x[0] == y[0], "tuples")
        inp.reach("end")

    return Harness(f"pair:{s}:{d}{'' if deep else ':q'}", build, run)


def _one(side, o):
    """The other side of a class with only one decorator works with the default options."""
    def build():
        import serde

        i = inner()
        d = serde.serialize if side == "se" else serde.deserialize
        ref = serde.deserialize if side == "se" else serde.serialize
        return i.cls, d(_bare(_fields(i.cls)), **_opts(o)), \
            ref(_bare(_fields(i.cls)), **({"type_check": serde.disabled} if side == "se" else {}))

    def run(inp, env):
        from serde import from_dict, is_deserializable, is_serializable, to_dict

        i, cls, ref = env
        mk = lambda c: c(a, {"k"}, DT, u, typing.get_type_hints(c)["n_n"](n, "q"), None, d)  # noqa: E731
        a, n, d = Opt(INT).draw(inp, "a"), inp.int("n"), inp.int("d")
        u = i(inp.int("i"), "s") if inp.flag("cls") else inp.int("u")
        check(is_serializable(cls) and is_deserializable(cls), "usable")
        if side == "de":
            check(same(to_dict(mk(cls)), to_dict(mk(ref))), "written with the default options")
        else:
            w = u if isinstance(u, int) else {"Inner": {"i": u.i, "s": "s"}}
            data = {"a_a": a, "b_b": ["k"], "c_c": DT.isoformat() if inp.flag("text") else DT, "u_u": w,
                    "n_n": {"i": n, "s": "q"}, "d_d": d}
            if inp.flag("missing"):
                del data["d_d"]
            x, y = attempt(lambda: from_dict(cls, data)), attempt(lambda: from_dict(ref, data))
            check(x[0] == y[0], "accepted with the default options")
            if x[0]:
                for k in ("a_a", "b_b", "c_c", "u_u", "p_p", "d_d"):
                    check(same(getattr(x[1], k), getattr(y[1], k)), "read with the default options")
                check(same((x[1].n_n.i, x[1].n_n.s), (y[1].n_n.i, y[1].n_n.s)), "nested")
        inp.reach("end")

    return Harness(f"one:{side}:{o}", build, run)


def harnesses(tier):
    pairs = [(s, d) for s in SE for d in DE]
    if tier == "quick":
        pairs = [(s, "none") for s in SE] + [("none", d) for d in DE] + [("mix", d) for d in DE] + \
            [(s, DE[-1 - k]) for k, s in enumerate(SE)]
        pairs = list(dict.fromkeys(pairs))
    return [_pair(s, d, tier != "quick") for s, d in pairs] + [_one("se", o) for o in SE] + [_one("de", o) for o in DE]
