"""Arbitrary plain data: any mixture of None, booleans, numbers, strings, lists and string-keyed
dicts, to a bounded depth.  `sym=False` takes strings from a finite pool (for declared types whose
parser is C code or a large library function)."""
from __future__ import annotations

STRINGS = ["", "a", "1"]
KEYS = ["k", "i", "1", "v", "red"]


def jstr(inp, n, sym):
    if sym:
        return inp.str(n + ".s", 4)
    return inp.pick(n + ".s", STRINGS)


def junk(inp, n, depth=1, sym=True, width=1, keys=KEYS, tuples=False):
    """Every kind of plain value; containers of up to `width` elements down to `depth`."""
    kinds = ["none", "bool", "int", "float", "str"]
    if depth > 0:
        kinds += ["list", "dict"] + (["tuple"] if tuples else [])
    k = inp.pick(n + ".kind", kinds)
    if k == "none":
        return None
    if k == "bool":
        return inp.bool(n + ".b") if sym else inp.flag(n + ".b")
    if k == "int":
        return inp.int(n + ".i") if sym else inp.pick(n + ".i", [0, 1, -7, 2**70])
    if k == "float":
        return inp.float(n + ".f") if sym else inp.pick(n + ".f", [0.5, 1.0, float("nan")])
    if k == "str":
        return jstr(inp, n, sym)
    ln = inp.choice(n + ".len", width + 1)
    if k in ("list", "tuple"):
        v = [junk(inp, f"{n}[{i}]", depth - 1, sym, width, keys, tuples) for i in range(ln)]
        return v if k == "list" else tuple(v)
    out = {}
    for i in range(ln):
        out[inp.pick(f"{n}.k{i}", keys)] = junk(inp, f"{n}.v{i}", depth - 1, sym, width, keys,
                                                tuples)
    return out


def near(inp, n, spec, sym=True, keys=("k", "1")):
    """Data shaped like the wire form of `spec` in which every node may instead be arbitrary."""
    from . import specs as S

    inner = getattr(spec, "inner", None)
    if isinstance(spec, (S.ListS, S.VarTup, S.SetS)):
        k = inp.choice(n + ".shape", 3)
        if k == 0:
            return junk(inp, n, 0, sym)
        if k == 1:
            return {"k": 1} if inp.flag(n + ".d") else {}
        return [near(inp, f"{n}[{i}]", inner, sym, keys)
                for i in range(inp.choice(n + ".len", 2))]
    if isinstance(spec, (S.DictS, S.CounterS)):
        k = inp.choice(n + ".shape", 3)
        if k == 0:
            return junk(inp, n, 0, sym)
        if k == 1:
            return [1] if inp.flag(n + ".d") else []
        if not inp.flag(n + ".len"):
            return {}
        key = inp.pick(n + ".k", keys)
        val = getattr(spec, "val", S.INT)
        return {key: near(inp, n + ".v", val, sym, keys)}
    if isinstance(spec, S.Tup):
        k = inp.choice(n + ".shape", 3)
        if k == 0:
            return junk(inp, n, 0, sym)
        if k == 1:
            return [junk(inp, n + ".1", 0, sym)] * inp.choice(n + ".len", 4)
        bad = inp.choice(n + ".bad", len(spec.inners))
        return [near(inp, f"{n}({i})", s, sym, keys) if i == bad
                else s.wire(s.draw(inp, f"{n}({i})"), S.WireOpts(reuse_instances=False))
                for i, s in enumerate(spec.inners)]
    if isinstance(spec, S.Opt):
        return near(inp, n, spec.inner, sym, keys)
    if isinstance(spec, S.DC) and spec.fields:
        k = inp.choice(n + ".shape", 3)
        if k == 0:
            return junk(inp, n, 0, sym)
        if k == 1:
            return [1, "a"][:inp.choice(n + ".len", 3)]
        bad = inp.choice(n + ".bad", len(spec.fields))
        out = {}
        for i, f in enumerate(spec.fields):
            if i == bad:
                if inp.flag(n + ".miss"):
                    continue
                out[f.name] = near(inp, f"{n}.{f.name}", f.spec, sym, keys)
            else:
                out[f.name] = f.spec.wire(f.spec.draw(inp, f"{n}.{f.name}"),
                                          S.WireOpts(reuse_instances=False))
        return out
    if isinstance(spec, S.UnionS):
        m = spec.members[inp.choice(n + ".m", len(spec.members))]
        v = near(inp, n, m, sym, keys)
        if isinstance(m, S.DC):
            tag = inp.pick(n + ".tag", [m.cls.__name__, "Nope", None])
            return v if tag is None else {tag: v}
        return v
    if isinstance(spec, S.Pool) and inp.flag(n + ".wire"):
        v = spec.draw(inp, n)
        return spec.wire(v, S.WireOpts(reuse_instances=inp.flag(n + ".reuse")))
    return junk(inp, n, 1, sym, keys=["k"])
