"""C18: cached random sources."""
import copy
import pickle

import numpy as np

from bartpy.samplers.scalar import DiscreteSampler, NormalScalarSampler, UniformScalarSampler

from vlib.drive import describe, pmap
from vlib.num import fx

GENERATORS = ["normal", "standard_normal", "randn", "uniform", "random", "random_sample", "rand", "choice", "multinomial", "randint"]


class Recorder:
    """sees what is drawn from numpy's global generator, without changing it"""

    def __enter__(self):
        self.drawn, self.saved = [], {}
        for g in GENERATORS:
            f = getattr(np.random, g)
            self.saved[g] = f

            def wrapped(*a, _f=f, **k):
                r = _f(*a, **k)
                self.drawn += list(np.atleast_1d(r))
                return r
            setattr(np.random, g, wrapped)
        return self

    def __exit__(self, *a):
        for g, f in self.saved.items():
            setattr(np.random, g, f)

    def take(self):
        d, self.drawn = self.drawn, []
        return d


def make(rng, kind, size):
    if kind == "normal":
        return NormalScalarSampler(size), lambda v: np.isfinite(v)
    if kind == "uniform":
        return UniformScalarSampler(size), lambda v: 0. <= v < 1.
    k = int(rng.integers(1, 5))
    vals = [float(v) + 100.5 for v in rng.permutation(50)[:k]]
    if rng.random() < 0.3:
        return DiscreteSampler(vals, cache_size=size), lambda v: v in vals
    w = rng.random(k) + 0.05
    if k > 1 and rng.random() < 0.3:
        w[0] = 0.
    w = list(w / w.sum())
    ok = [v for v, q in zip(vals, w) if q > 0]
    return DiscreteSampler(vals, w, cache_size=size), lambda v: v in ok


def copy_of(rng, s):
    c = rng.integers(3)
    return copy.copy(s) if c == 0 else copy.deepcopy(s) if c == 1 else pickle.loads(pickle.dumps(s))


def play(rng, kind, size, ops):
    """ops: ("draw", source) or ("copy", source)"""
    names, ev = {}, []

    def name(v):
        return names.setdefault(float(v), len(names) + 1)

    first, seen = [], 0
    try:
        with Recorder() as rec:
            src, ok = make(rng, kind, size)
            srcs = [src]
            for op in ops:
                s = srcs[op[1] - 1]
                if op[0] == "copy":
                    srcs.append(copy_of(rng, s))
                    ev.append({"op": "copy", "s": op[1]})
                    continue
                v = s.sample()
                d = rec.take()
                if not ev or all(e["op"] == "copy" for e in ev):
                    # are the recorded draws the values that are delivered?  otherwise only their distribution can be judged
                    seen = int(any(float(x) == float(v) for x in d))
                ev.append({"op": "draw", "s": op[1], "v": name(v), "refill": [name(x) for x in d] if seen else [], "ok": int(bool(ok(v)))})
    except Exception as e:
        ev.append({"op": "error", "what": describe(e)})
    return {"ev": ev, "seen": seen, "distinct": int(kind != "discrete")}


def histories(seed, kind):
    rng = np.random.default_rng(seed)
    np.random.seed(seed % (2 ** 32))
    size = int(rng.choice([1, 2, 3, 5, 10, 50]))
    ops, n = [], 1
    for _ in range(int(rng.integers(5, 120))):
        if n < 6 and rng.random() < 0.08:
            ops.append(("copy", int(rng.integers(n)) + 1))
            n += 1
        else:
            ops.append(("draw", int(rng.integers(n)) + 1))
    return play(rng, kind, size, ops)


def bulk(seed, kind):
    """long use of one source, with the buffer sizes the package itself uses"""
    rng = np.random.default_rng(seed)
    np.random.seed(seed % (2 ** 32))
    ev = []
    try:
        with Recorder() as rec:
            size = int(rng.choice([20, 33, 64, 100, 1000, 1000, 5000, 60000]))
            default = kind != "discrete" and rng.random() < 0.3
            if default:
                s, size = (NormalScalarSampler() if kind == "normal" else UniformScalarSampler()), 1000
            else:
                s, _ = make(rng, kind, size)
            n = int(size * 2.3) + 5
            vals, fills = [], []
            for i in range(n):
                vals.append(float(s.sample()))
                d = rec.take()
                if d:
                    fills.append([i, len(d)])
        ev.append({"op": "bulk", "kind": kind, "n": n, "distinct": len(set(vals)), "fills": fills})
    except Exception as e:
        ev.append({"op": "error", "what": describe(e)})
    return {"ev": ev, "seen": 0, "distinct": 0}


def pairs(rng, ev, kind, x, size, edges, at):
    """deliveries some way apart have nothing to do with one another: how often both lie below an edge"""
    for lag in {1, 2, size, int(rng.integers(2, 600))}:
        i = np.arange(len(x) - lag)
        i = i[(i // lag) % 2 == 0]
        i = i[:len(i) // 100 * 100]
        if len(i) >= 2000:
            ev.append({"op": "pairs", "kind": kind, "lag": lag, "n": len(i), "edges": edges, "below": [int(np.sum((x[i] <= e) & (x[i + lag] <= e))) for e in at]})


def distribution(seed, kind, n):
    rng = np.random.default_rng(seed)
    np.random.seed(seed % (2 ** 32))
    ev = []
    try:
        size = int(rng.choice([1, 7, 100, 1000, 60000])) if kind != "discrete" else int(rng.choice([1, 7, 100, 1000]))
        if kind == "discrete":
            k = int(rng.integers(2, 6))
            w = rng.random(k) + 0.05
            w = [1. / k] * k if rng.random() < 0.3 else list(w / w.sum())
            vals = [("v", i) for i in range(k)] if False else [float(i) for i in range(k)]
            s = DiscreteSampler(vals, None if w[0] == w[-1] and len(set(w)) == 1 else w, cache_size=size)
            x = np.array([s.sample() for _ in range(n)])
            cum = np.cumsum(w)[:-1]
            ev.append({"op": "dist", "kind": kind, "n": n, "edges": [fx(c, 10 ** 6) for c in cum], "below": [int(np.sum(x <= i)) for i in range(k - 1)]})
            pairs(rng, ev, kind, x, size, [fx(c, 10 ** 6) for c in cum], [float(i) for i in range(k - 1)])
        else:
            s = NormalScalarSampler(size) if kind == "normal" else UniformScalarSampler(size)
            x = np.array([s.sample() for _ in range(n)])
            edges = [-250, -150, -100, -50, 0, 50, 100, 150, 250] if kind == "normal" else [10000, 100000, 250000, 500000, 750000, 900000, 990000]
            u = 100. if kind == "normal" else 1e6
            ev.append({"op": "dist", "kind": kind, "n": n, "edges": edges, "below": [int(np.sum(x < e / u)) for e in edges]})
            pairs(rng, ev, kind, x, size, edges[1:-1], [e / u for e in edges[1:-1]])
            # consecutive pairs: products and order carry no information
            a, b = x[0::2], x[1::2]
            m = min(len(a), len(b)) // 100 * 100
            ev.append({"op": "dist", "kind": "uniform", "n": m, "edges": [500000], "below": [int(np.sum(a[:m] < b[:m]))]})
    except Exception as e:
        ev.append({"op": "error", "what": describe(e)})
    return {"ev": ev, "seen": 0, "distinct": 0}


def generated(seed, kind, size, ops):
    np.random.seed(seed % (2 ** 32))
    return play(np.random.default_rng(seed), kind, size, ops)


def run(ctx):
    for size, cfg in [(1, "MCBuffer1"), (2, "MCBuffer")] + ([] if ctx.quick else [(3, "MCBufferDeep")]):
        r = ctx.design("MCBuffer", cfg)
        items = r.printed("@T")
        kws = [dict(seed=i, kind=kind, size=size, ops=h) for i, h in enumerate(items) for kind in ("normal", "uniform", "discrete")]
        ctx.validate("TraceBuffer", pmap(generated, kws), "buffer.generated", kws)
        ctx.replay(len(items))
    kinds = ["normal", "uniform", "discrete"]
    kws = [dict(seed=s, kind=kinds[i % 3]) for i, s in enumerate(ctx.seeds(ctx.n(300, 4000), "buffer"))]
    ctx.validate("TraceBuffer", pmap(histories, kws), "buffer.histories", kws)
    kws = [dict(seed=s, kind=kinds[i % 3]) for i, s in enumerate(ctx.seeds(ctx.n(120, 600), "buffer-bulk"))]
    ctx.validate("TraceBuffer", pmap(bulk, kws), "buffer.bulk", kws)
    kws = [dict(seed=s, kind=kinds[i % 3], n=ctx.n(20000, 200000)) for i, s in enumerate(ctx.seeds(ctx.n(60, 300), "buffer-dist"))]
    ctx.validate("TraceBuffer", pmap(distribution, kws, limit="long"), "buffer.distribution", kws)
