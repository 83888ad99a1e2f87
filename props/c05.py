"""C05  The plain form is exactly the documented one."""
import dataclasses

from props.common import *

BOUNDS = ("type shapes: leaves, containers, two (thorough: three) nesting levels, bare and abstract "
          "container types, aliases; containers up to 2 elements; leaf values unbounded; all "
          "combinations of reuse_instances and convert_sets")


def _mk(label, th):
    def build():
        return DC("Host", [F("b", BOOL), F("v", th()), F("a", INT)])

    def run(inp, dc):
        from serde import asdict, astuple, to_dict, to_tuple

        x = dc.draw(inp, "x")
        for reuse in (True, False):
            for conv in (True, False):
                o = WireOpts(reuse_instances=reuse, convert_sets=conv)
                w = to_dict(x, reuse_instances=reuse, convert_sets=conv)
                check(type(w) is dict and list(w) == ["b", "v", "a"],
                      "one entry per field in declaration order")
                check(same(w, dc.wire(x, o)), f"plain form (reuse={reuse}, convert_sets={conv})")
                t = to_tuple(x, reuse_instances=reuse, convert_sets=conv)
                check(same(t, dc.wire(x, dataclasses.replace(o, named=False))),
                      f"tuple form (reuse={reuse}, convert_sets={conv})")
        w = to_dict(x, reuse_instances=False, convert_sets=True)
        if "sub_" not in label:
            check(is_plain(w), "only plain data")
            check(is_plain(to_tuple(x, reuse_instances=False, convert_sets=True)), "only plain data")
        o = WireOpts(reuse_instances=False)
        check(same(asdict(x), dc.wire(x, o)), "asdict")
        check(same(astuple(x), dc.wire(x, dataclasses.replace(o, named=False))), "astuple")
        inp.reach("end")

    return Harness(f"field:{label}", build, run)


def _direct(label, th):
    def run(inp, spec):
        from serde import to_dict

        v = spec.draw(inp, "v")
        w = to_dict(v, c=spec.py, reuse_instances=False, convert_sets=True)
        check(same(w, spec.wire(v, WireOpts(reuse_instances=False, convert_sets=True))),
              "plain form of a directly passed value")
        w = to_dict([v], reuse_instances=False, convert_sets=True)
        if "union" not in label and "udc" not in label and not label.startswith("u_"):
            check(same(w, [spec.wire(v, WireOpts(reuse_instances=False, convert_sets=True))]),
                  "plain form inside a list")
        if "sub_" not in label:
            check(is_plain(w), "only plain data")
        inp.reach("end")

    return Harness(f"direct:{label}", th, run)


def _many():
    """Field counts 0..4: nothing added, nothing lost, order kept."""
    names = ["z", "a", "m", "_p", "B"]

    def build():
        out = []
        for n in range(6):
            out.append(make_class(f"M{n}", [F(x, INT) for x in names[:n]]))
        return out

    def run(inp, clss):
        from serde import to_dict, to_tuple

        n = inp.choice("n", 6)
        vals = [inp.int(f"v{i}") for i in range(n)]
        x = clss[n](*vals)
        w = to_dict(x)
        check(list(w.items()) == list(zip(names[:n], vals)), "dict entries")
        check(same(to_tuple(x), tuple(vals)), "tuple entries")
        inp.reach("end")

    return Harness("fields:count", build, run)


def harnesses(tier):
    u = universe(tier)
    return [_mk(l, t) for l, t in u] + [_direct(l, t) for l, t in u] + [_many()]
