"""
Process set-up: puts the seams in place, then imports the library under test.

Seams installed here (before mo_parsing is imported):
  * lock factories  - locks created by mo_parsing code are simulated (engine.SimLock)
  * time.sleep      - a yield point (simulated time)
  * profiler's optional dependencies (File, Date, jx, process_time) - stubs with fault points
"""
import _thread
import io
import os
import sys
import threading
import time

sys.dont_write_bytecode = True
REPO = os.environ.get("SIM_REPO", "/repo")
PKG = os.path.join(REPO, "mo_parsing") + os.sep
sys.pycache_prefix = "/nonexistent-pycache"  # never read stale bytecode of the library
sys.path.insert(0, REPO)

HERE = os.path.dirname(os.path.abspath(__file__))
real_allocate = _thread.allocate_lock
real_RLock = threading.RLock

import engine  # noqa: E402

_threading_file = threading.__file__


def _for_library():
    f = sys._getframe(2)
    while f is not None and f.f_code.co_filename == _threading_file:
        f = f.f_back
    return f is not None and f.f_code.co_filename.startswith(PKG)


def _lock_factory(*a, **k):
    if _for_library():
        return engine.SimLock(False)
    return real_allocate()


def _rlock_factory(*a, **k):
    if _for_library():
        return engine.SimLock(True)
    return real_RLock()


threading.Lock = _lock_factory
threading._allocate_lock = _lock_factory
threading.RLock = _rlock_factory
_real_sleep = time.sleep


def _sleep(seconds):
    if engine.S is not None and engine.S.active:
        engine.S.simulated_sleep(seconds)
    else:
        _real_sleep(seconds)


time.sleep = _sleep

import mo_parsing  # noqa: E402
import mo_parsing.debug  # noqa: E402
import mo_parsing.helpers  # noqa: E402

_stdout, sys.stdout = sys.stdout, io.StringIO()  # IT COMPLAINS ABOUT OPTIONAL DEPENDENCIES
try:
    import mo_parsing.profile as _profile  # noqa: E402
except Exception:  # pragma: no cover
    _profile = None
sys.stdout = _stdout

assert os.path.dirname(os.path.abspath(mo_parsing.__file__)) + os.sep == os.path.abspath(PKG) + os.sep, mo_parsing.__file__

threading.Lock = real_allocate
threading._allocate_lock = real_allocate
threading.RLock = real_RLock
# LOCKS THE LIBRARY MAKES LATER (IN FUNCTIONS) ARE SIMULATED TOO
threading.Lock = _lock_factory
threading._allocate_lock = _lock_factory
threading.RLock = _rlock_factory


# ---- stubs for the profiler's optional dependencies -------------------------------------------------------------
class StubFile(object):
    def __init__(self, name):
        self.name = getattr(name, "name", name)

    def set_extension(self, ext):
        return StubFile(str(self.name).rsplit(".", 1)[0] + "." + ext)

    def add_suffix(self, suffix):
        return StubFile(str(self.name) + "_" + str(suffix))

    def write(self, content):
        engine.S.device("report", len(content))


class StubDate(object):
    @staticmethod
    def now():
        engine.S.device("clock")
        return StubDate()

    def format(self, *_):
        return "20200101_000000"


class StubJx(object):
    @staticmethod
    def sort(rows, spec):
        return list(rows)


def stub_process_time():
    s = engine.S
    return s.clock() if s is not None else 0.0


if _profile is not None:
    _profile.File = StubFile
    _profile.Date = StubDate
    _profile.jx = StubJx
    _profile.process_time = stub_process_time
    if not hasattr(_profile, "text"):
        _profile.text = str
