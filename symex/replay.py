"""Replays recorded draws of one harness on the real code, in plain CPython.

usage: python -m symex.replay FILE.json      exit 1: the property is violated, 0: it is not
"""
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def main(path):
    import importlib

    from symex import env as _env

    _env.prepare(symbolic=False)
    from symex.api import AssumeFailed, ReplayInputs
    from symex.encode import dec_draws

    rec = json.load(open(path))
    mod = importlib.import_module(f"props.{rec['property'].lower()}")
    h = {h.name: h for t in ("thorough", "quick") for h in mod.harnesses(t)}[rec["harness"]]
    try:
        e = h.build()
    except Exception as exc:  # noqa: BLE001
        traceback.print_exc()
        if rec.get("error", "").startswith("build:"):
            print("REPRODUCED (while defining the program):", type(exc).__name__, exc)
            return 1
        return 3
    inp = ReplayInputs(dec_draws(rec["draws"]))
    try:
        h.run(inp, e)
    except AssumeFailed as exc:
        print("NOT REPRODUCED: assumption/draw mismatch:", exc)
        return 3
    except Exception as exc:  # noqa: BLE001
        for k, v in inp.notes:
            print(f"  {k} = {v!r}")
        print("REPRODUCED:", type(exc).__name__, exc)
        traceback.print_exc()
        return 1
    print("NOT REPRODUCED: the harness passes on the recorded draws")
    return 0


if __name__ == "__main__":
    try:
        code = main(sys.argv[1])
    except Exception:  # noqa: BLE001  (a failure of the replayer itself is not a reproduction)
        traceback.print_exc()
        code = 4
    sys.exit(code)
