"""C01  Dict round trip."""
from props.common import *

BOUNDS = ("type shapes: leaves, containers of them, two (thorough: three) nesting levels; "
          "containers up to 2 elements; leaf values unbounded; hash keys / stdlib values from "
          "finite pools")


def _mk(label, th):
    def build():
        spec = th()
        return DC("Host", [F("v", spec), F("w", INT)])

    def run(inp, dc):
        from serde import from_dict, to_dict

        x = dc.draw(inp, "x")
        for reuse in (True, False):
            w = to_dict(x, reuse_instances=reuse)
            y = from_dict(dc.cls, w, reuse_instances=reuse)
            check(same(y, x), f"from_dict(to_dict(x)) != x (reuse_instances={reuse})")
        w = to_dict(x, convert_sets=True)
        check(same(from_dict(dc.cls, w), x), "round trip with convert_sets=True")
        inp.reach("end")

    return Harness(f"field:{label}", build, run)


def _direct(label, th):
    def build():
        return th()

    def run(inp, spec):
        from serde import from_dict, to_dict

        v = spec.draw(inp, "v")
        for reuse in (True, False):
            w = to_dict(v, c=spec.py, reuse_instances=reuse)
            y = from_dict(spec.py, w, reuse_instances=reuse)
            check(same(y, v), f"direct round trip (reuse_instances={reuse})")
        inp.reach("end")

    return Harness(f"direct:{label}", build, run)


def _combo(combo):
    def build():
        return combo_class(combo), combo_class(combo, "ComboC", rename_all="camelcase")

    def run(inp, env):
        from serde import from_dict, to_dict

        cls = inp.pick("cls", env)
        x = combo_value(inp, cls, combo)
        y = from_dict(cls, to_dict(x))
        check(same(y, x), "round trip with field features")
        y = from_dict(list[cls], to_dict([x]))
        check(same(y, [x]), "round trip in a list with field features")
        inp.reach("end")

    return Harness(f"combo:{combo[0]}", build, run)


def harnesses(tier):
    return _types(tier) + [_combo(c) for c in feature_combos(tier)]


def _types(tier):
    u = universe(tier)
    return [_mk(l, t) for l, t in u] + [_direct(l, t) for l, t in u]
