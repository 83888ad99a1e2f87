"""JSON form of draws."""
import math


def enc(v):
    if isinstance(v, float):
        return {"f": v.hex() if math.isfinite(v) else repr(v)}
    return v


def dec(v):
    if isinstance(v, dict) and "f" in v:
        return float.fromhex(v["f"]) if "0x" in v["f"] else float(v["f"])
    return v


def enc_draws(draws):
    return [[n, k, enc(v)] for n, k, v in draws]


def dec_draws(draws):
    return [(n, k, dec(v)) for n, k, v in draws]
