"""Bounded symbolic execution of the real pyserde code (CrossHair engine, z3 back end).

Everything pyserde executes for a harness - API functions, the functions it generates for a
class, helpers - is interpreted under CrossHair's tracer with z3-backed values.  `explore`
enumerates all feasible paths; it answers "decided" only when the path tree is exhausted and
every path was solved.
"""
from __future__ import annotations

import os
import sys
import time
import traceback

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

import random as _random

import z3  # noqa: E402
import crosshair.core_and_libs  # noqa: E402,F401
import crosshair.core as _chcore  # noqa: E402
from crosshair.condition_parser import condition_parser  # noqa: E402
from crosshair.core import ExceptionFilter, Patched, deep_realize  # noqa: E402
from crosshair.libimpl.builtinslib import (  # noqa: E402
    AnySymbolicStr,
    LazyIntSymbolicStr,
    PreciseIeeeSymbolicFloat,
    SymbolicBool,
    SymbolicBoundedInt,
    SymbolicValue,
)
from crosshair import opcode_intercept as _opc  # noqa: E402
from crosshair.options import AnalysisKind  # noqa: E402
from crosshair.simplestructs import ShellMutableMap, SimpleDict  # noqa: E402
from crosshair.statespace import (  # noqa: E402
    CallAnalysis,
    RootNode,
    StateSpace,
    StateSpaceContext,
    VerificationStatus,
)
from crosshair.tracers import COMPOSITE_TRACER, NoTracing, ResumedTracing  # noqa: E402
from crosshair.util import IgnoreAttempt, NotDeterministic, UnexploredPath  # noqa: E402

from .api import AssumeFailed, Harness, Inputs, ReplayInputs, Violation  # noqa: E402

# --------------------------------------------------------------------------- statistics
STATS = {"queries": 0, "solver_s": 0.0}
_orig_check = z3.Solver.check


def _counting_check(self, *a):
    t = time.perf_counter()
    try:
        return _orig_check(self, *a)
    finally:
        STATS["queries"] += 1
        STATS["solver_s"] += time.perf_counter() - t


z3.Solver.check = _counting_check

# --------------------------------------------------------------------------- stubs
# (1) Message formatting is not the subject of any property and would enumerate the digits of
#     every symbolic value: repr()/format() of anything that may hold a symbolic value yields
#     a fixed opaque text.
OPAQUE = {"on": True}
_PLAIN = (str, int, float, bool, bytes, type(None), type)


def _opaque(obj) -> bool:
    t = type(obj)
    if t in (str, int, float, bool, bytes, type(None)) or isinstance(obj, type):
        return False
    if callable(obj) and not isinstance(obj, SymbolicValue):
        return False
    mod = t.__module__
    if mod in ("typing", "types", "enum"):
        return False
    return True


_orig_repr = _chcore._PATCH_REGISTRATIONS[repr]
_orig_format = _chcore._PATCH_REGISTRATIONS[format]


def _my_repr(obj):
    with NoTracing():
        if OPAQUE["on"] and _opaque(obj):
            return "<value>"
    return _orig_repr(obj)


def _my_format(obj, spec=""):
    with NoTracing():
        if OPAQUE["on"] and _opaque(obj) and not isinstance(obj, AnySymbolicStr):
            return "<value>"
    return _orig_format(obj, spec)


_chcore._PATCH_REGISTRATIONS[repr] = _my_repr
_chcore._PATCH_REGISTRATIONS[format] = _my_format


def _fs_format(self, fmt):
    with NoTracing():
        if OPAQUE["on"] and _opaque(self.value) and not isinstance(self.value, AnySymbolicStr):
            self.formatted = "<value>"
            return ""
    self.formatted = format(self.value, fmt)
    return ""


def _fs_repr(self):
    with NoTracing():
        if OPAQUE["on"] and _opaque(self.value):
            self.formatted = "<value>"
            return ""
    self.formatted = repr(self.value)
    return ""


_opc.FormatStashingValue.__format__ = _fs_format
_opc.FormatStashingValue.__repr__ = _fs_repr

# (2) functools caches: the engine normally bypasses them.  They are part of the behaviour
#     under test (history independence) and are called on concrete types, so the real C cache
#     is used.
import functools as _ft  # noqa: E402


def _is_concrete_key(x):
    return not isinstance(x, SymbolicValue)


_lru = _ft._lru_cache_wrapper


def _cached_call(self, *a, **kw):
    with NoTracing():
        if type(self) is _lru and all(map(_is_concrete_key, a)) and not kw:
            return self(*a)
    return self.__wrapped__(*a, **kw)


_chcore._PATCH_REGISTRATIONS[_lru.__call__] = _cached_call


# (3) beartype samples one random element per container; the sampled index is an environment
#     choice.  It is fixed (0 unless a harness draws it) through this variable.
from .env import RANDBITS  # noqa: E402


def _getrandbits(n):
    return RANDBITS["value"]


def patch_beartype():
    import beartype._check.code.codemain as cm
    import beartype._check.checkmake as mk

    cm.getrandbits = _getrandbits

    real_pith = mk.get_func_pith_violation
    real_obj = mk.get_hint_object_violation

    def pith_stub(check_meta, pith_name, pith_value, **kw):
        with NoTracing():
            if not _tracing_active():
                return real_pith(check_meta, pith_name, pith_value, **kw)
            return check_meta.conf.violation_param_type("beartype violation")

    def obj_stub(obj, hint, conf, *a, **kw):
        with NoTracing():
            if not _tracing_active():
                return real_obj(obj, hint, conf, *a, **kw)
            return conf.violation_door_type("beartype violation")

    mk.get_func_pith_violation = pith_stub
    mk.get_hint_object_violation = obj_stub


def _untraced(fn):
    def call(*a, **kw):
        with NoTracing():
            return fn(*a, **kw)

    return call


def patch_codegen():
    """Class decoration / code generation works on concrete types only: run it untraced.  The
    generated functions themselves are traced like any other code."""
    import dataclasses

    import beartype._check.checkmake as mk
    import beartype.door._func.doorcheck as doorcheck
    import serde
    from serde import de, se

    from . import api, specs

    for f in {api.concretely, specs.make_class, dataclasses.field, serde.serde, serde.serialize, serde.deserialize, se.serialize, de.deserialize,
              dataclasses.make_dataclass, dataclasses.dataclass, mk.make_func_tester,
              doorcheck.make_func_tester}:
        _chcore._PATCH_REGISTRATIONS.setdefault(f, _untraced(f))


_SYMBOLIC_RUN = {"on": False}


def _tracing_active():
    return _SYMBOLIC_RUN["on"]


# (4) floats are always modelled as IEEE doubles (never as reals).
from crosshair.libimpl.builtinslib import ModelingDirector  # noqa: E402

_orig_choose = ModelingDirector.choose


def _choose(self, typ):
    return PreciseIeeeSymbolicFloat if typ is float else _orig_choose(self, typ)


ModelingDirector.choose = _choose


# --------------------------------------------------------------------------- inputs
class SymInputs(Inputs):
    symbolic = True

    def __init__(self, space):
        super().__init__()
        self.space = space

    def int(self, name, lo=None, hi=None):
        with NoTracing():
            v = SymbolicBoundedInt(name + self.space.uniq(), int)
            if lo is not None:
                self.space.add(v.var >= lo)
            if hi is not None:
                self.space.add(v.var <= hi)
            self.draws.append((name, "int", v))
            return v

    def bool(self, name):
        with NoTracing():
            v = SymbolicBool(name + self.space.uniq(), bool)
            self.draws.append((name, "bool", v))
            return v

    def str(self, name, maxlen=None):
        with NoTracing():
            v = LazyIntSymbolicStr(name + self.space.uniq(), str)
            if maxlen is not None:
                with ResumedTracing():
                    n = len(v)
                self.space.add(n.var <= maxlen)
            self.draws.append((name, "str", v))
            return v

    def float(self, name):
        with NoTracing():
            v = PreciseIeeeSymbolicFloat(name + self.space.uniq(), float)
            self.draws.append((name, "float", v))
            return v

    def choice(self, name, n):
        with NoTracing():
            i = 0
            while i < n - 1:
                if self.space.smt_fork(desc=f"{name}_{i}"):
                    break
                i += 1
            self.draws.append((name, "choice", i))
            return i

    def dict(self, items):
        with NoTracing():
            items = list(items)
            if all(type(k) is str for k, _ in items):
                return dict(items)
            return ShellMutableMap(SimpleDict(items))

    def assume(self, cond):
        if not cond:
            raise IgnoreAttempt("assume")


# --------------------------------------------------------------------------- exploration
class Result(dict):
    pass


def _profile(fn, codes):
    """Run fn recording the code objects executed in /repo/serde and in generated code."""

    def prof(frame, event, arg):
        if event == "call":
            codes.add(frame.f_code)

    sys.setprofile(prof)
    try:
        return fn()
    finally:
        sys.setprofile(None)


def _interesting(code, repo):
    f = code.co_filename
    if f.startswith(repo + "/serde/"):
        return f"{f[len(repo) + 1:]}:{code.co_qualname}"
    if f == "<string>" and not code.co_name.startswith("<"):
        return f"generated:{code.co_name}"
    return None


def explore(h: Harness, env, budget: float, per_path: float = 20.0, max_cex: int = 4,
            validate_every: int = 1, repo: str = "/repo") -> Result:
    root = RootNode()
    t0 = time.time()
    res = Result(
        harness=h.name, paths=0, confirmed=0, ignored=0, unknown={}, branches=0, cex=[],
        spurious=[], validated=0, witness_failures=[], reached={}, samples=[], exhausted=False,
        functions=[], bounds=h.bounds,
    )
    q0, s0 = STATS["queries"], STATS["solver_s"]
    codes: set = set()
    exhausted = False
    analysis = None
    with Patched():
        while time.time() - t0 < budget:
            res["paths"] += 1
            space = StateSpace(time.process_time() + per_path, per_path / 2, root)
            status = VerificationStatus.CONFIRMED
            draws = None
            with condition_parser([AnalysisKind.PEP316]), COMPOSITE_TRACER, NoTracing(), \
                    StateSpaceContext(space):
                src = SymInputs(space)
                RANDBITS["value"] = 0
                _SYMBOLIC_RUN["on"] = True
                try:
                    with ExceptionFilter() as ef, ResumedTracing():
                        h.run(src, env)
                    failed = ef.user_exc
                    if ef.ignore:
                        raise IgnoreAttempt
                    if status is VerificationStatus.CONFIRMED:
                        with ResumedTracing():
                            space.detach_path()
                            draws = deep_realize(src.draws)
                        if failed:
                            exc, tb = failed
                            status = VerificationStatus.REFUTED
                            res["cex"].append({
                                "draws": draws,
                                "error": type(exc).__name__,
                                "message": _safe_str(exc),
                                "where": [l for l in tb.format()][-4:],
                            })
                        else:
                            res["confirmed"] += 1
                            for lab in set(src.reached):
                                res["reached"][lab] = res["reached"].get(lab, 0) + 1
                except IgnoreAttempt:
                    status = None
                    res["ignored"] += 1
                except UnexploredPath as e:
                    status = VerificationStatus.UNKNOWN
                    k = type(e).__name__
                    res["unknown"][k] = res["unknown"].get(k, 0) + 1
                    res.setdefault("unknown_msgs", []).append(_safe_str(e)[:300])
                except (NotDeterministic, z3.Z3Exception) as e:
                    k = type(e).__name__
                    res["unknown"][k] = res["unknown"].get(k, 0) + 1
                    res.setdefault("unknown_msgs", []).append(_safe_str(e)[:300])
                    break
                finally:
                    _SYMBOLIC_RUN["on"] = False
                res["branches"] += len(getattr(space, "choices_made", ()) or ())
                analysis, exhausted = space.bubble_status(
                    CallAnalysis(status) if status is not None else CallAnalysis())
            # Concrete witness of a confirmed path: run it on the real code, no tracing.
            if draws is not None and status is VerificationStatus.CONFIRMED and (
                    res["confirmed"] <= 50 or res["confirmed"] % validate_every == 0):
                ok, err = concrete_run(h, env, draws, codes)
                if ok:
                    res["validated"] += 1
                    if len(res["samples"]) < 3:
                        res["samples"].append({n: _short(v) for n, k, v in draws})
                else:
                    res["witness_failures"].append({"draws": draws, "message": err})
            if exhausted:
                break
            if len(res["cex"]) >= max_cex or len(res["witness_failures"]) >= 3:
                break
    res["exhausted"] = bool(exhausted)
    res["seconds"] = time.time() - t0
    res["queries"] = STATS["queries"] - q0
    res["solver_s"] = STATS["solver_s"] - s0
    res["functions"] = sorted({x for x in (_interesting(c, repo) for c in codes) if x})
    return res


def concrete_run(h, env, draws, codes=None):
    inp = ReplayInputs(list(draws))
    RANDBITS["value"] = 0
    try:
        if codes is not None:
            _profile(lambda: h.run(inp, env), codes)
        else:
            h.run(inp, env)
        return True, None
    except AssumeFailed as e:
        return True, None
    except Exception as e:  # noqa: BLE001
        return False, f"{type(e).__name__}: {_safe_str(e)}\n" + "".join(
            traceback.format_exc().splitlines(True)[-6:])


def _short(v):
    r = repr(v)
    return r if len(r) < 120 else r[:117] + "..."


def _safe_str(e):
    try:
        return str(e)[:2000]
    except BaseException:  # noqa: BLE001
        return "<unprintable>"
