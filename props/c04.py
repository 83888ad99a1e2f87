"""C04  MessagePack and pickle round trips."""
from props.common import *
from symex.formats import MSGPACK, Box, Inexpressible

BOUNDS = ("type shapes: leaves, containers, two (thorough: three) nesting levels, containers up to "
          "2 elements; leaf values unbounded; the encoders enter through their contract "
          "(msgpack: sequences come back as tuples); every solver witness is also run through the "
          "real encoder and decoder; ext codes 0..127")
ASSUMPTIONS = ["msgpack and pickle honour their contract (checked on each witness)"]




def _mk(label, th, named):
    def build():
        return DC("Host", [F("v", th()), F("w", INT)])

    def run(inp, dc):
        _rt(inp, dc.draw(inp, "x"), dc.cls, None, named)

    return Harness(f"msgpack:{'named' if named else 'positional'}:{label}", build, run, reach=())


def _direct(label, th, named):
    def run(inp, spec):
        _rt(inp, spec.draw(inp, "v"), spec.py, spec.py, named)

    return Harness(f"msgpack:direct-{'named' if named else 'positional'}:{label}", th, run,
                   reach=())


def _rt(inp, x, T, cls, named):
    from serde import to_dict, to_tuple
    from serde.msgpack import from_msgpack, to_msgpack

    try:
        box = to_msgpack(x, cls=cls, se=_Se, named=named)
    except Inexpressible:
        inp.reach("inexpressible")
        return
    y = from_msgpack(T, box, de=_De, named=named)
    check(same(y, x), "msgpack round trip")
    inp.reach("end")
    if not inp.symbolic:
        plain = (to_dict if named else to_tuple)(x, c=cls, reuse_instances=False,
                                                 convert_sets=True)
        if MSGPACK.real_conforms(plain):
            check(same(from_msgpack(T, to_msgpack(x, cls=cls, named=named), named=named), x),
                  "real msgpack round trip")




def _classes():
    from serde.de import Deserializer
    from serde.se import Serializer

    class Se(Serializer):
        @classmethod
        def serialize(cls, obj, ext_type_code=None, **opts):
            b = Box(MSGPACK.transform(obj), opts)
            return b if ext_type_code is None else Box(Ext(ext_type_code, b), opts)

    class De(Deserializer):
        @classmethod
        def deserialize(cls, data, **opts):
            return data.v

    return Se, De


class Ext:
    def __init__(self, code, data):
        self.code, self.data = code, data


_Se = _De = None


def _ext():
    def build():
        a = DC("EA", [F("i", INT), F("s", STR)])
        b = DC("EB", [F("i", INT), F("s", STR)])
        c = DC("EC", [F("i", INT)])
        return a, b, c

    def run(inp, env):
        from serde.msgpack import from_msgpack, to_msgpack

        a, b, c = env
        ka = inp.pick("ka", [0, 1, 127])
        kb = inp.pick("kb", [0, 2, 5])
        inp.assume(ka != kb)
        named = inp.flag("named")
        first = inp.flag("first")
        d = a if first else b
        x = d.draw(inp, "x")
        box = to_msgpack(x, se=_Se, ext_dict={a.cls: ka, b.cls: kb}, named=named)
        check(type(box.v) is Ext and box.v.code == (ka if first else kb), "ext code")
        y = from_msgpack(None, box, de=_De, ext_dict={ka: a.cls, kb: b.cls}, named=named)
        check(same(y, x), "ext round trip")
        z = c.draw(inp, "z")
        must_fail(lambda: to_msgpack(z, se=_Se, ext_dict={a.cls: ka, b.cls: kb}), "unknown type")
        other = {kb: b.cls} if first else {ka: a.cls}
        must_fail(lambda: from_msgpack(None, box, de=_De, ext_dict=other, named=named),
                  "unknown code")
        must_fail(lambda: to_msgpack(x, se=_Se, ext_dict={}), "empty ext_dict")
        if not inp.symbolic:
            try:
                raw = to_msgpack(x, ext_dict={a.cls: ka, b.cls: kb}, named=named)
            except (UnicodeEncodeError, OverflowError):
                return
            check(same(from_msgpack(None, raw, ext_dict={ka: a.cls, kb: b.cls}, named=named), x),
                  "real ext round trip")
        inp.reach("end")

    return Harness("msgpack:ext", build, run)


def _plumb():
    def build():
        return DC("Host", [F("a", INT), F("p", PATH), F("s", SetS(KSTR2, 1)), F("o", Opt(STR))])

    def run(inp, dc):
        from serde.msgpack import from_msgpack, to_msgpack
        from serde.pickle import from_pickle, to_pickle

        x = dc.draw(inp, "x")
        n = inp.int("opt")
        fmt = inp.pick("fmt", ["msgpack", "pickle"])
        reuse, conv, skip = inp.flag("reuse"), inp.flag("conv"), inp.flag("skip")
        named = fmt == "pickle" or inp.flag("named")
        slog, dlog = [], []

        class Se(_Se):
            @classmethod
            def serialize(cls, obj, **opts):
                opts.pop("ext_type_code", None)
                slog.append((obj, opts))
                return Box(obj, opts)

        class De(_De):
            @classmethod
            def deserialize(cls, data, **opts):
                dlog.append((data, opts))
                return data.v

        kw = {"named": named} if fmt == "msgpack" else {}
        to = to_msgpack if fmt == "msgpack" else to_pickle
        frm = from_msgpack if fmt == "msgpack" else from_pickle
        to(x, se=Se, reuse_instances=reuse, convert_sets=conv, skip_none=skip, myopt=n, **kw)
        check(len(slog) == 1 and same(slog[0][1], {"myopt": n}), "serializer options")
        exp = dc.wire(x, WireOpts(named=named, reuse_instances=reuse, convert_sets=conv,
                                  skip_none=skip))
        check(same(slog[0][0], exp), "the serializer gets exactly the plain form")
        box = to(x, se=Se, **kw)
        check(same(box.v, dc.wire(x, WireOpts(named=named, reuse_instances=False,
                                              convert_sets=True))), "defaults of the format")
        y = frm(dc.cls, box, de=De, other=n, **kw)
        check(same(y, x) and len(dlog) == 1 and dlog[0][0] is box
              and same(dlog[0][1], {"other": n}), "deserializer arguments")
        inp.reach("end")

    return Harness("plumbing", build, run)


def _pickle(label, th, direct):
    def build():
        return th() if direct else DC("Host", [F("v", th()), F("w", INT)])

    def run(inp, spec):
        from serde.pickle import from_pickle, to_pickle

        class Se(_Se):
            @classmethod
            def serialize(cls, obj, **opts):
                return Box(obj, opts)

        v = spec.draw(inp, "v")
        c = spec.py if direct else None
        y = from_pickle(spec.py, to_pickle(v, cls=c, se=Se), de=_De)
        check(same(y, v), "pickle round trip")
        if not inp.symbolic:
            check(same(from_pickle(spec.py, to_pickle(v, cls=c)), v), "real pickle round trip")
        inp.reach("end")

    return Harness(f"pickle:{'direct' if direct else 'field'}:{label}", build, run)


def harnesses(tier):
    global _Se, _De
    _Se, _De = _classes()
    core = universe("core" if tier == "quick" else tier)
    out = [_ext(), _plumb()]
    for named in (True, False):
        out += [_mk(l, t, named) for l, t in (universe(tier) if named else core) if l != "any"]
        out += [_direct(l, t, named) for l, t in core if l != "any"]
    out += [_pickle(l, t, d) for l, t in core for d in (False, True)]
    return out
