"""Threads that lose the processor between any two lines of the code under test."""
import os
import sys
import threading
import time
from contextlib import contextmanager

import numpy as np

from vlib import env

ROOT = os.path.join(os.path.realpath(env.REPO), "bartpy") + os.sep


@contextmanager
def preempting(seed, often=0.3, only=None):
    """often: how likely a thread started meanwhile pauses before a line; only: file names it may pause in"""
    rates, known = {}, {}

    def rate(f):
        if f not in known:
            g = os.path.realpath(f)
            known[f] = g.startswith(ROOT) and (only is None or os.path.basename(g) in only)
        return known[f]

    state = threading.local()

    def local(frame, event, arg):
        if event == "line":
            r = state.rng
            if r.random() < often:
                time.sleep(0.00002 if r.random() < 0.7 else 0.001)
        return local

    def start(frame, event, arg):
        if not rate(frame.f_code.co_filename):
            return None
        if not hasattr(state, "rng"):
            with lock:
                count[0] += 1
                state.rng = np.random.RandomState((seed * 7919 + count[0]) % 2 ** 32)
        return local

    lock, count = threading.Lock(), [0]
    threading.settrace(start)
    try:
        yield
    finally:
        threading.settrace(None)
