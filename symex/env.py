"""Process set-up shared by the driver and the replayer."""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")


def prepare(symbolic: bool):
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings

    warnings.simplefilter("ignore")
    if symbolic:
        from symex import engine

        engine.patch_beartype()
    else:
        # the sampled element of a container is an environment choice; same stub as the engine
        import beartype._check.code.codemain as cm

        cm.getrandbits = lambda n: RANDBITS["value"]
    import serde

    if symbolic:
        engine.patch_codegen()
    assert os.path.dirname(os.path.dirname(serde.__file__)) == REPO, serde.__file__


RANDBITS = {"value": 0}


def set_randbits(v):
    RANDBITS["value"] = v
