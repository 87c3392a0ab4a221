"""Watchers installed around the real code: solver trace, fault injection,
caller-data snapshots and process-wide state."""
from __future__ import annotations

import copy
import hashlib
import threading
import warnings
from contextlib import contextmanager

import numpy as np
import pandas as pd
from cvxopt import matrix, solvers

# ---------------------------------------------------------------- solver trace
_real = {k: getattr(solvers, k) for k in ("qp", "lp", "conelp", "coneqp", "socp") if hasattr(solvers, k)}
_mode = {"fail": None, "trace": None, "exc": None, "pause": None}
_tl = threading.local()


def _wrap(name):
    fn = _real[name]

    def traced(*a, **k):
        if getattr(_tl, "depth", 0):
            return fn(*a, **k)
        _tl.depth = 1
        try:
            if _mode["pause"] is not None:
                _mode["pause"]()
            if _mode["exc"] is not None:
                _mode["trace"].append((name, "raise"))
                raise _mode["exc"]
            sol = fn(*a, **k)
        finally:
            _tl.depth = 0
        if _mode["trace"] is not None:
            _mode["trace"].append((name, sol["status"]))
        if _mode["fail"] is not None:
            sol = dict(sol)
            sol["status"] = _mode["fail"](len(_mode["trace"]) if _mode["trace"] is not None else 0, sol["status"])
        return sol

    traced.__name__ = name
    return traced


for _k in _real:
    setattr(solvers, _k, _wrap(_k))


@contextmanager
def solver_trace(fail=None, exc=None, pause=None):
    """Record every top-level solver call; optionally override its status, raise in it, or delay it."""
    old = dict(_mode)
    _mode.update(trace=[], fail=fail, exc=exc, pause=pause)
    try:
        yield _mode["trace"]
    finally:
        _mode.update(old)


# ---------------------------------------------------------------- caller data
def fingerprint(x, depth=0):
    """Deep content fingerprint of caller-owned data (values, dtypes, labels, order, flags)."""
    if depth > 8:
        return "deep"
    if isinstance(x, pd.Series):
        return ("S", tuple(map(repr, x.index.tolist())), str(x.dtype), repr(x.name), fingerprint(x.to_numpy(), depth + 1),
                repr(x.index.names), str(x.index.dtype))
    if isinstance(x, pd.DataFrame):
        return ("D", tuple(map(repr, x.index.tolist())), tuple(map(repr, x.columns.tolist())),
                tuple(str(t) for t in x.dtypes), repr(x.index.names), repr(x.columns.names),
                tuple(fingerprint(x.iloc[:, j].to_numpy(), depth + 1) for j in range(x.shape[1])))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("O", x.shape, tuple(fingerprint(v, depth + 1) for v in x.ravel().tolist()))
        return ("A", x.shape, str(x.dtype), x.flags.writeable, hashlib.sha1(np.ascontiguousarray(x).tobytes()).hexdigest())
    if isinstance(x, dict):
        return ("M", tuple((repr(k), fingerprint(v, depth + 1)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(fingerprint(v, depth + 1) for v in x))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted(map(repr, x))))
    if isinstance(x, matrix):
        return ("cvx", x.size, tuple(x))
    if isinstance(x, (int, float, complex, str, bytes, bool, type(None), np.generic)):
        return repr(x)
    mod = type(x).__module__ or ""
    if mod.startswith("pyvallocation") and hasattr(x, "__dict__"):
        return (type(x).__name__, tuple((k, fingerprint(v, depth + 1)) for k, v in sorted(vars(x).items())))
    return ("obj", type(x).__name__)


@contextmanager
def unmodified(cx, what, *objs):
    """The objects must have the same content after the block as before (also when it raises)."""
    before = [fingerprint(o) for o in objs]
    try:
        yield
    finally:
        for i, (b, o) in enumerate(zip(before, objs)):
            cx.check(fingerprint(o) == b, f"{what}: caller data unmodified", arg=i, type=type(o).__name__, now=o)


# ---------------------------------------------------------------- process state
def process_state():
    """Process-wide state a numerical library must leave alone."""
    st = np.random.get_state()
    import random
    import locale
    import logging
    import decimal
    mpl = None
    import sys
    if "matplotlib" in sys.modules:
        m = sys.modules["matplotlib"]
        mpl = hashlib.sha1(repr(sorted((k, repr(v)) for k, v in m.rcParams.items() if not k.startswith("backend"))).encode()).hexdigest()
    return {
        "cvxopt solver options": repr(sorted((k, repr(v)) for k, v in solvers.options.items())),
        "numpy global generator": (st[0], hashlib.sha1(np.asarray(st[1]).tobytes()).hexdigest(), st[2], st[3], st[4]),
        "random module": hashlib.sha1(repr(random.getstate()).encode()).hexdigest(),
        "numpy error state": repr(sorted(np.geterr().items())),
        "numpy print options": repr(sorted((k, repr(v)) for k, v in np.get_printoptions().items())),
        "warning filters": repr(warnings.filters),
        "pandas options": repr([pd.get_option(o) for o in ("display.max_rows", "display.precision", "mode.chained_assignment",
                                                           "display.float_format")]),
        "recursion limit": sys.getrecursionlimit(),
        "root log level": (logging.getLogger().level, len(logging.getLogger().handlers), logging.root.manager.disable),
        "decimal context": repr(decimal.getcontext()),
        "matplotlib rcParams": mpl,
    }
