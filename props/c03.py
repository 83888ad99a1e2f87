"""C03  JSON, YAML and TOML round trips."""
from props.common import *
from symex.formats import JSON, TOML, YAML, Inexpressible

BOUNDS = ("type shapes: leaves, containers, two (thorough: three) nesting levels, containers up to "
          "2 elements; leaf values unbounded; the format encoders enter through their contract "
          "(keys to text, sequences to lists); every solver witness is also run through the real "
          "encoder and decoder")
ASSUMPTIONS = ["json, yaml, tomllib and tomli_w honour their contract (checked on each witness)"]


def round_trip(inp, fmt, x, T, cls=None, w=None):
    to, frm = fmt.api()
    try:
        box = to(x, cls=cls, se=fmt.se())
    except Inexpressible:
        inp.reach("inexpressible")
        return
    y = frm(T, box, de=fmt.de())
    check(same(y, x), f"{fmt.name} round trip")
    inp.reach("end")
    if not inp.symbolic:
        from serde import to_dict

        plain = to_dict(x, c=cls, reuse_instances=False, convert_sets=True,
                        skip_none=fmt is TOML)
        if fmt.real_conforms(plain):
            check(same(frm(T, to(x, cls=cls)), x), f"real {fmt.name} round trip")


def _mk(fmt, label, th):
    def build():
        return DC("Host", [F("v", th()), F("w", INT)])

    def run(inp, dc):
        x = dc.draw(inp, "x")
        if fmt is TOML and x.v is None and "None" not in str(dc.fields[0].spec.py):
            return  # required field without a value: nothing is written
        round_trip(inp, fmt, x, dc.cls)

    return Harness(f"{fmt.name}:field:{label}", build, run, reach=())


def _direct(fmt, label, th):
    def run(inp, spec):
        v = spec.draw(inp, "v")
        round_trip(inp, fmt, v, spec.py, cls=spec.py)

    return Harness(f"{fmt.name}:direct:{label}", th, run, reach=())


def _plumbing(fmt):
    """se/de get exactly the plain form / the text and the caller's options."""
    def build():
        return DC("Host", [F("a", INT), F("p", PATH), F("s", SetS(KSTR2, 1)), F("o", Opt(STR))])

    def run(inp, dc):
        to, frm = fmt.api()
        x = dc.draw(inp, "x")
        n = inp.int("opt")
        reuse, conv, skip = inp.flag("reuse"), inp.flag("conv"), inp.flag("skip")
        slog, dlog = [], []

        class Se(fmt.se()):
            @classmethod
            def serialize(cls, obj, **opts):
                slog.append((obj, opts))
                return Box_(obj)

        class Box_:
            def __init__(self, v):
                self.v = v

        class De(fmt.de()):
            @classmethod
            def deserialize(cls, data, **opts):
                dlog.append((data, opts))
                return data.v

        box = to(x, se=Se, reuse_instances=reuse, convert_sets=conv, skip_none=skip, myopt=n)
        check(len(slog) == 1 and same(slog[0][1], {"myopt": n}), "serializer options")
        exp = dc.wire(x, WireOpts(reuse_instances=reuse, convert_sets=conv, skip_none=skip))
        check(same(slog[0][0], exp), "the serializer gets exactly the plain form")
        box2 = to(x, se=Se)
        check(same(box2.v, dc.wire(x, WireOpts(reuse_instances=False, convert_sets=True,
                                              skip_none=fmt is TOML))), "defaults of the format")
        check(same(slog[1][1], {}), "no options")
        y = frm(dc.cls, box2, de=De, other=n)
        check(same(y, x) and len(dlog) == 1 and dlog[0][0] is box2
              and same(dlog[0][1], {"other": n}), "deserializer arguments")
        inp.reach("end")

    return Harness(f"{fmt.name}:plumbing", build, run)


def harnesses(tier):
    core = universe("core" if tier == "quick" else tier)
    out = []
    for fmt in (JSON, YAML, TOML):
        out.append(_plumbing(fmt))
        for l, t in universe(tier) if fmt is JSON else core:
            out.append(_mk(fmt, l, t))
        if fmt is not TOML:
            for l, t in core:
                out.append(_direct(fmt, l, t))
    return out
