"""Harness API shared by the symbolic engine and by the plain-CPython replayer.

A harness is a pair of functions:

  build()        -> env    run once, concretely: defines the (enumerated) programs, i.e. the
                           classes and API options the property quantifies over.
  run(inp, env)            draws inputs from `inp`, calls the real pyserde API and states the
                           property with `check`.  `inp` is symbolic under the engine and
                           concrete in the replayer; the code of the harness is the same.
"""
from __future__ import annotations
import dataclasses
from typing import Any, Callable


class Violation(Exception):
    """The property does not hold on this path."""


class AssumeFailed(Exception):
    """Replay only: the recorded draws do not satisfy an assumption."""


def concretely(fn):
    """Run code on concrete values only (e.g. class definitions): the engine does not trace it."""
    return fn()


def check(cond: Any, msg: str = "") -> None:
    if not cond:
        raise Violation(msg)


@dataclasses.dataclass
class Harness:
    name: str
    build: Callable[[], Any]
    run: Callable[[Any, Any], None]
    # labels that must each be reached by at least one confirmed path (vacuity guard)
    reach: tuple[str, ...] = ("end",)
    tags: tuple[str, ...] = ()
    budget: float = 0.0  # seconds; 0 = tier default
    bounds: str = ""
    isolate_tracing: bool = False


class Inputs:
    """Base: bookkeeping common to symbolic and concrete sources."""

    symbolic = False

    def __init__(self) -> None:
        self.draws: list[tuple[str, str, Any]] = []
        self.reached: list[str] = []
        self.notes: list[tuple[str, Any]] = []

    def reach(self, label: str) -> None:
        self.reached.append(label)

    def note(self, label: str, value: Any) -> None:
        self.notes.append((label, value))

    def pick(self, name: str, options: Any) -> Any:
        options = list(options)
        return options[self.choice(name, len(options))]

    def flag(self, name: str) -> bool:
        """A concrete (forked) boolean."""
        return self.choice(name, 2) == 1

    def dict(self, items: Any) -> Any:
        """A dict with the given (key, value) items; at most one key may be symbolic and it must
        be assumed different from the others."""
        return dict(items)

    # to be provided
    def int(self, name: str, lo: int | None = None, hi: int | None = None) -> int: ...
    def bool(self, name: str) -> bool: ...
    def str(self, name: str, maxlen: int | None = None) -> str: ...
    def float(self, name: str) -> float: ...
    def choice(self, name: str, n: int) -> int: ...
    def assume(self, cond: Any) -> None: ...


class ReplayInputs(Inputs):
    """Replays recorded draws; draws beyond the recording get a default (used for warm-up)."""

    DEFAULTS = {"int": 0, "bool": False, "str": "", "float": 0.0, "choice": 0}

    def __init__(self, draws: list[tuple[str, str, Any]] | None = None) -> None:
        super().__init__()
        self._todo = list(draws or [])
        self._strict = draws is not None

    def _next(self, name: str, kind: str) -> Any:
        if self._todo:
            n, k, v = self._todo.pop(0)
            if (n, k) != (name, kind):
                raise AssumeFailed(f"draw mismatch: recorded {n}:{k}, asked {name}:{kind}")
        else:
            v = self.DEFAULTS[kind]
        self.draws.append((name, kind, v))
        return v

    def int(self, name, lo=None, hi=None):
        v = self._next(name, "int")
        if lo is not None and v < lo:
            v = lo if not self._strict else self._bad(name)
        if hi is not None and v > hi:
            v = hi if not self._strict else self._bad(name)
        return v

    def _bad(self, name):
        raise AssumeFailed(name)

    def bool(self, name):
        return self._next(name, "bool")

    def str(self, name, maxlen=None):
        return self._next(name, "str")

    def float(self, name):
        return self._next(name, "float")

    def choice(self, name, n):
        return self._next(name, "choice")

    def assume(self, cond):
        if not cond:
            raise AssumeFailed("assume")
