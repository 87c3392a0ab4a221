"""A process that has imported the library and executed none of it: the reference for history independence.

`fresh(module, function, *args)` evaluates module.function(*args) in a fork of that
pristine process, so nothing the caller's process did can reach the result.
"""
from __future__ import annotations

import importlib
import os
import pickle
import signal
import struct
import warnings

_z = None


def _read(fd, n):
    b = b""
    while len(b) < n:
        c = os.read(fd, n - len(b))
        if not c:
            raise EOFError
        b += c
    return b


def _recv(fd):
    return pickle.loads(_read(fd, struct.unpack("<Q", _read(fd, 8))[0]))


def _send(fd, x):
    b = pickle.dumps(x)
    b = struct.pack("<Q", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _loop(r, w):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        try:
            mod, fn, args = _recv(r)
        except EOFError:
            os._exit(0)
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    _send(w, ("ok", getattr(importlib.import_module(mod), fn)(*args)))
            except BaseException as e:
                try:
                    _send(w, ("error", f"{type(e).__name__}: {e}"))
                except BaseException:
                    code = 1
            os._exit(code)
        if os.waitpid(pid, 0)[1] != 0:
            _send(w, ("error", "the fresh process ended"))


def start(close=()):
    """Fork the pristine process (before this process has run any library code)."""
    global _z
    if _z is not None and _z[2] == os.getpid():
        return
    a, b = os.pipe()
    c, d = os.pipe()
    if os.fork() == 0:
        os.close(b)
        os.close(c)
        for fd in close:
            try:
                os.close(fd)
            except OSError:
                pass
        _loop(a, d)
    os.close(a)
    os.close(d)
    _z = (c, b, os.getpid())


def fresh(mod, fn, *args):
    start()
    _send(_z[1], (mod, fn, args))
    kind, v = _recv(_z[0])
    if kind != "ok":
        raise RuntimeError(v)
    return v
