"""Contracts of the text/binary formats, stated over plain data (the encoders themselves are C code
or large parsers outside the reach of the symbolic engine).  `Fmt.transform(plain)` is what a
conforming encoder followed by its decoder gives back, or Inexpressible.  In concrete runs (every
witness and counterexample) the real encoder/decoder pair is used as well."""
from __future__ import annotations


class Inexpressible(Exception):
    pass


class Box:
    """The 'text' of the abstract formats."""

    def __init__(self, v, opts):
        self.v, self.opts = v, opts


def prim(v):
    t = type(v)
    if t in (bool, int, float, str):
        return v
    for b in (bool, int, float, str):
        if isinstance(v, b):
            return str.__str__(v) if b is str else b.__new__(b, v)
    raise Inexpressible(f"{t}")


def _key_json(k):
    if type(k) is str:
        return k
    if k is True:
        return "true"
    if k is False:
        return "false"
    if k is None:
        return "null"
    if isinstance(k, str):
        return prim(k)
    if isinstance(k, (int, float)):
        return str(prim(k))
    raise Inexpressible(f"key {type(k)}")


def _key_str(k):
    if isinstance(k, str):
        return prim(k)
    raise Inexpressible(f"key {type(k)}")


def _key_any(k):
    return prim(k)


def _tr(v, key, seq, none):
    if v is None:
        if not none:
            raise Inexpressible("None")
        return None
    t = type(v)
    if t in (list, tuple):
        return seq([_tr(e, key, seq, none) for e in v])
    if isinstance(v, dict):
        out = {}
        for k, e in v.items():
            kk = key(k)
            if kk in out:
                raise Inexpressible("keys collapse")
            out[kk] = _tr(e, key, seq, none)
        return out
    return prim(v)


class Fmt:
    def __init__(self, name, key, seq, none=True):
        self.name, self.key, self.seq, self.none = name, key, seq, none

    def transform(self, v):
        return _tr(v, self.key, self.seq, self.none)

    def api(self):
        import importlib

        m = importlib.import_module(f"serde.{self.name}")
        return getattr(m, f"to_{self.name}"), getattr(m, f"from_{self.name}")

    def se(self, log=None):
        from serde.se import Serializer

        fmt = self

        class Se(Serializer):
            @classmethod
            def serialize(cls, obj, **opts):
                if log is not None:
                    log.append((obj, opts))
                return Box(fmt.transform(obj), opts)

        return Se

    def de(self, log=None):
        from serde.de import Deserializer

        class De(Deserializer):
            @classmethod
            def deserialize(cls, data, **opts):
                if log is not None:
                    log.append((data, opts))
                return data.v

        return De

    def real_conforms(self, plain):
        """Do the real encoder and decoder honour the contract for this value?"""
        import importlib

        m = importlib.import_module(f"serde.{self.name}")
        pre = {"json": "Json", "yaml": "Yaml", "toml": "Toml", "msgpack": "MsgPack"}[self.name]
        try:
            s = getattr(m, pre + "Serializer").serialize(plain)
            v = getattr(m, pre + "Deserializer").deserialize(s)
            from .specs import same

            return same(v, self.transform(plain))
        except Exception:  # noqa: BLE001
            return False


JSON = Fmt("json", _key_json, list)
YAML = Fmt("yaml", _key_any, list)
TOML = Fmt("toml", _key_str, list, none=False)
MSGPACK = Fmt("msgpack", _key_str, tuple)
FORMATS = [JSON, YAML, TOML, MSGPACK]
