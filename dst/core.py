"""
Processes of the simulator: a worker is a fresh interpreter with a given hash seed that has imported the code under test
and forks one process per simulated run, such that every run starts from the same state.
"""

import gc
import ctypes
import json
import os
import select
import signal
import sys
import time
import traceback

REPO = os.environ.get("DST_REPO", "/repo")

_clock = time.monotonic
_library_codes = None


def setup():
    "Imports the code under test behind the seams of the simulator."
    global _library_codes
    sys.dont_write_bytecode = True
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)

    from . import sched

    # the standard library modules that the code under test needs keep the real locks
    import copy
    import dataclasses
    import email  # noqa: F401
    import importlib.machinery
    import importlib.util  # noqa: F401
    import inspect
    import typing

    import jsonschema  # noqa: F401

    assert copy and dataclasses and importlib and inspect and typing
    sched.patch()

    import strong_typing

    assert os.path.realpath(strong_typing.__file__).startswith(os.path.realpath(REPO) + os.sep), strong_typing.__file__
    import pkgutil

    for m in pkgutil.walk_packages(strong_typing.__path__, "strong_typing."):
        __import__(m.name)

    _library_codes = sched.module_codes(["strong_typing"])
    # flags are computed once in the worker and inherited by all runs
    for c in _library_codes:
        sched.FLAGS[c] = sched.code_flags(c)
    gc.collect()
    gc.freeze()
    gc.disable()


def instrument(extra=()):
    "Makes every instruction of the code under test a scheduling point (in this process)."
    from . import sched

    sched.instrument(_library_codes + sched.collect(list(extra)))


class HarnessError(Exception):
    pass


class LibraryFailure(Exception):
    "The code under test failed, or did not return, where a valid call was made on behalf of the workload."

    def __init__(self, text, kind):
        super().__init__(text)
        self.kind = kind


def kind_of_failure(ex):
    "Says whether an exception that reached the simulator was raised inside the code under test."
    seen = set()
    root = os.path.join(os.path.realpath(REPO), "strong_typing") + os.sep
    while ex is not None and id(ex) not in seen:
        seen.add(id(ex))
        if isinstance(ex, LibraryFailure):
            return ex.kind
        tb = ex.__traceback__
        while tb is not None:
            if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
                return "valid call failed"
            tb = tb.tb_next
        ex = ex.__cause__ or ex.__context__
    return None


def shorten(text):
    return text if len(text) < 6000 else text[:2000] + "\n...\n" + text[-4000:]


try:
    _prctl = ctypes.CDLL(None).prctl
except (OSError, AttributeError):
    _prctl = lambda *args: None  # noqa: E731


def fork_call(fn, timeout=90.0):
    "Runs a function in a forked process and returns its (JSON-serializable) result."
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            # do not outlive the caller
            _prctl(1, signal.SIGKILL)
            os.close(r)
            try:
                out = {"r": fn()}
            except BaseException as ex:
                out = {"x": traceback.format_exc(), "library": kind_of_failure(ex)}
            data = json.dumps(out).encode()
            while data:
                n = os.write(w, data)
                data = data[n:]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = _clock() + timeout
    killed = False
    while True:
        left = deadline - _clock()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            killed = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if ready:
            b = os.read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if killed:
        raise LibraryFailure(f"no progress in {timeout} s", "no-progress")
    if status != 0 or not chunks:
        raise HarnessError(f"process ended with status {status}")
    out = json.loads(b"".join(chunks))
    if "x" in out:
        if out["library"]:
            raise LibraryFailure(shorten(out["x"]), out["library"])
        raise HarnessError(shorten(out["x"]))
    return out["r"]


def rehearse(fn):
    "The result of a rehearsal that helps to place faults, or `None` if the code under test fails already."
    try:
        return fork_call(fn)
    except LibraryFailure:
        return None


def errname(ex):
    "The kind of an error."
    t = type(ex)
    return t.__qualname__ if t.__module__ == "builtins" else f"{t.__module__}.{t.__qualname__}"
