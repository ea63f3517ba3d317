"""Running drivers of the real code in worker processes, totally: whatever happens becomes part of the trace."""
import gc
import io
import multiprocessing as mp
import os
import signal
import sys
import traceback
import warnings
import zlib
from contextlib import contextmanager, redirect_stdout, redirect_stderr

from vlib import env


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


@contextmanager
def quiet():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with redirect_stdout(io.StringIO()), redirect_stderr(io.StringIO()):
            yield


def describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = [f for f in tb if os.sep + "bartpy" + os.sep in f.filename]
    f = where[-1] if where else tb[-1] if tb else None
    return "%s: %s at %s" % (type(e).__name__, str(e)[:200], "%s:%s %s" % (os.path.basename(f.filename), f.lineno, f.name) if f else "?")


_late = None        # how many jobs of this pool ran out of time


def _share(counter):
    global _late
    _late = counter


_sources = []       # the package's stores of random draws, as the pool was started


def _find_sources():
    mine = [m for n, m in list(sys.modules.items()) if n.startswith("bartpy.samplers")]
    kinds = tuple({k for m in mine for k in vars(m).values() if isinstance(k, type) and k.__module__.startswith("bartpy.samplers")})
    _sources[:] = [o for o in gc.get_objects() if isinstance(o, kinds) and isinstance(getattr(o, "__dict__", {}).get("_cache"), list)] if kinds else []


def _fresh(kw):
    """what a job draws depends on the job alone, not on those this worker ran before"""
    for o in _sources:
        o._cache = []
    if "numpy" in sys.modules:
        sys.modules["numpy"].random.seed(zlib.crc32(repr(kw).encode()))


def _job(args):
    fn, kw, limit = args
    if _late is not None and _late.value >= 4:
        return None     # what hangs has been reported often enough
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        _fresh(kw)
        with quiet():
            return fn(**kw)
    except Timeout:
        if _late is not None:
            with _late.get_lock():
                _late.value += 1
        return {"_error": "no result within %d s" % limit, "_kw": kw}
    except BaseException as e:      # includes RecursionError, SystemExit
        return {"_error": describe(e), "_kw": kw, "_tb": traceback.format_exc()[-3000:]}
    finally:
        signal.alarm(0)


LIMITS = {"quick": {"short": 90, "long": 150}, "thorough": {"short": 300, "long": 1800}}


def pmap(fn, kws, limit="short", procs=8):
    """[fn(**kw) for kw in kws] in worker processes; a driver that fails yields {"_error": ...}, one that was not run None."""
    limit = LIMITS[env.TIER][limit]
    jobs = [(fn, kw, limit) for kw in kws]
    _find_sources()
    if procs <= 1 or len(jobs) <= 1:
        return [_job(j) for j in jobs]
    ctx = mp.get_context("fork")
    sys.stdout.flush()
    with ctx.Pool(min(procs, len(jobs)), _share, (ctx.Value("i", 0),)) as pool:
        return pool.map(_job, jobs, chunksize=max(1, len(jobs) // (procs * 8)))


@contextmanager
def expecting_error(rec):
    """body should raise; rec["raised"] tells"""
    try:
        yield
        rec["raised"] = 0
    except Exception as e:
        rec["raised"] = 1
        rec["exc"] = type(e).__name__
