"""C02  Tuple round trip and declaration order."""
import dataclasses

from props.common import *
from symex.specs import TUP

BOUNDS = ("type shapes: leaves, containers, two (thorough: three) nesting levels, containers up to "
          "2 elements; class layouts up to 5 fields with skip, kw_only, init=False fields, "
          "defaults and inheritance; leaf values unbounded")


def _mk(label, th):
    def build():
        spec = th()
        return DC("Host", [F("w", INT), F("v", spec), F("z", STRB)])

    def run(inp, dc):
        from serde import from_tuple, to_tuple

        x = dc.draw(inp, "x")
        for reuse in (True, False):
            o = WireOpts(named=False, reuse_instances=reuse)
            w = to_tuple(x, reuse_instances=reuse)
            check(same(w, dc.wire(x, o)), f"to_tuple is not the documented tuple (reuse={reuse})")
            y = from_tuple(dc.cls, w, reuse_instances=reuse)
            check(same(y, x), f"from_tuple(to_tuple(x)) != x (reuse_instances={reuse})")
        inp.reach("end")

    return Harness(f"field:{label}", build, run)


def _direct(label, th):
    def run(inp, spec):
        from serde import from_tuple, to_tuple

        v = spec.draw(inp, "v")
        w = to_tuple(v, c=spec.py)
        check(same(from_tuple(spec.py, w), v), "direct tuple round trip")
        inp.reach("end")

    return Harness(f"direct:{label}", th, run)


# ---- layouts: (name, spec, serialized, constructor keyword) per field
def L_plain():
    return [F("a", INT), F("b", STR), F("c", BOOL), F("d", INT), F("e", FLOAT)], {}


def L_skip_middle():
    return [F("a", INT), F("b", INT, default=7, opts={"skip": True}), F("c", INT, default=0),
            F("d", INT, default=0)], {"b": "skip"}


def L_skip_first():
    return [F("b", INT, default=7, opts={"skip": True}), F("c", INT, default=0),
            F("d", INT, default=0)], {"b": "skip"}


def L_kwonly():
    return [F("a", INT), F("b", INT, opts={"kw_only": True}), F("c", INT)], {}


def L_kwonly_first():
    return [F("k", INT, opts={"kw_only": True}), F("a", INT), F("b", INT)], {}


def L_init_false_middle():
    return [F("a", INT), F("b", INT, default=5, opts={"init": False}), F("c", INT, default=1),
            F("d", INT, default=2)], {"b": "noinit"}


def L_init_false_last():
    return [F("a", INT), F("c", INT), F("b", INT, default=5, opts={"init": False})], {"b": "noinit"}


def L_skip_deser():
    return [F("a", INT), F("b", INT, default=5, opts={"skip_deserializing": True}),
            F("c", INT, default=1)], {"b": "skipde"}


def L_defaults():
    return [F("a", INT, default=1), F("b", STR, default="x"),
            F("c", ListS(INT, 1), factory=list)], {}


def _fl(opt=False, name="FlC"):
    d = DC(name, [F("x", INT), F("y", STR)])
    return Opt(d) if opt else d


def L_flatten_first():
    return [F("f", _fl(), opts={"flatten": True}), F("a", INT), F("b", INT)], {"f": "flat"}


def L_flatten_last():
    return [F("a", INT), F("b", INT), F("f", _fl(), opts={"flatten": True})], {"f": "flat"}


def L_flatten_two():
    return [F("a", INT), F("f", _fl(), opts={"flatten": True}), F("b", INT),
            F("g", _fl(name="FlD"), opts={"flatten": True})], {"f": "flat", "g": "flat"}


def L_flatten_opt():
    return [F("a", INT), F("f", _fl(True), opts={"flatten": True}), F("b", INT)], {"f": "flat"}


LAYOUTS = [L_flatten_first, L_flatten_last, L_flatten_two, L_flatten_opt, L_plain, L_skip_middle, L_skip_first, L_kwonly, L_kwonly_first, L_init_false_middle,
           L_init_false_last, L_skip_deser, L_defaults]


def _layout(mk):
    def build():
        fs, special = mk()
        return fs, special, make_class("Lay", fs)

    def run(inp, env):
        from serde import from_tuple, to_tuple

        fs, special, cls = env
        vals = {f.name: f.spec.draw(inp, f.name) for f in fs}
        x = cls(**{f.name: vals[f.name] for f in fs if special.get(f.name) != "noinit"})
        for f in fs:
            if special.get(f.name) == "noinit":
                vals[f.name] = f.default
        exp = []
        for f in fs:
            v = vals[f.name]
            if special.get(f.name) == "flat":
                exp += [None, None] if v is None else [v.x, v.y]
            elif special.get(f.name) != "skip":
                exp.append(v)
        w = to_tuple(x)
        check(same(w, tuple(exp)), "to_tuple lists the serialized fields in declaration order")
        y = from_tuple(cls, w)
        for f in fs:
            want = f.default if special.get(f.name) in ("skip", "skipde") else vals[f.name]
            check(same(getattr(y, f.name), want), f"field {f.name} after from_tuple")
        inp.reach("end")

    return Harness(f"layout:{mk.__name__[2:]}", build, run)


def _inherit():
    def build():
        base = make_class("Base", [F("a", INT), F("b", STR)])
        return make_class("Derived", [F("c", BOOL), F("a", INT)], bases=(base,))

    def run(inp, cls):
        from serde import from_tuple, to_tuple

        x = cls(a=inp.int("a"), b=inp.str("b"), c=inp.bool("c"))
        w = to_tuple(x)
        check(same(w, (x.a, x.b, x.c)), "declaration order with inheritance")
        check(same(from_tuple(cls, w), x), "round trip with inheritance")
        inp.reach("end")

    return Harness("layout:inherit", build, run)


def _swap():
    """Two same-typed fields never change places, whatever the declaration order."""
    def build():
        return [make_class("S1", [F("b", INT), F("a", INT), F("c", INT)]),
                make_class("S2", [F("c", INT), F("b", INT), F("a", INT)])]

    def run(inp, clss):
        from serde import from_tuple, to_tuple

        cls = inp.pick("cls", clss)
        a, b, c = inp.int("a"), inp.int("b"), inp.int("c")
        x = cls(a=a, b=b, c=c)
        t = to_tuple([x])
        check(same(from_tuple(list[cls], t), [x]), "list of tuples")
        y = from_tuple(cls, [getattr(x, f.name) for f in dataclasses.fields(cls)])
        check(same(y, x), "list input")
        inp.reach("end")

    return Harness("layout:swap", build, run)


def _combo(combo):
    def build():
        return combo_class(combo), combo_class(combo, "ComboC", rename_all="camelcase")

    def run(inp, env):
        from serde import from_tuple, to_tuple

        cls = inp.pick("cls", env)
        x = combo_value(inp, cls, combo)
        w = to_tuple(x)
        check(same(w, (x.a_a, x.m_m, x.z_z)), "every field has its item, in declaration order")
        check(same(from_tuple(cls, w), x), "tuple round trip with field features")
        inp.reach("end")

    return Harness(f"combo:{combo[0]}", build, run)


def harnesses(tier):
    return _types(tier) + [_combo(c) for c in feature_combos(tier)]


def _types(tier):
    u = universe(tier)
    return [_mk(l, t) for l, t in u] + [_direct(l, t) for l, t in u] + \
        [_layout(m) for m in LAYOUTS] + [_inherit(), _swap()]
