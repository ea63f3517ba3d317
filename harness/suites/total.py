"""C17: fit and predict end, with finite results of the right length, on every finite data set."""
from fractions import Fraction
from itertools import product

import numpy as np
import pandas as pd

from bartpy.initializers.sklearntreeinitializer import SklearnTreeInitializer
from bartpy.samplers.oblivioustrees.treemutation import get_tree_sampler as oblivious_sampler
from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
from bartpy.sklearnmodel import SklearnModel

from vlib import gen
from vlib.drive import describe, pmap


def nonfinite(xs):
    return int(np.sum(~np.isfinite(np.asarray(xs, dtype=float))))


def settings(rng, small=True):
    f = Fraction(1) if rng.random() < 0.6 else Fraction(int(rng.integers(1, 10)), 10)
    c = rng.integers(4)
    return dict(n_trees=int(rng.choice([1, 1, 2, 3] if small else [1, 2, 5, 20, 60])), n_chains=int(rng.choice([1, 1, 2, 3])), n_samples=int(rng.choice([1, 2, 4] if small else [1, 2, 5, 12, 40])),
                n_burn=int(rng.choice([0, 1, 3])), thin=float(f), alpha=float(rng.choice([0.95, 0.5, 0.05, 0.999])), beta=float(rng.choice([2., 0.1, 0.5, 1.])),
                sigma_a=float(rng.choice([0.001, 1., 3.])), sigma_b=float(rng.choice([0.001, 0.5])), store_in_sample_predictions=bool(rng.integers(2)), store_acceptance_trace=bool(rng.integers(2)),
                tree_sampler=get_tree_sampler(0.5, 0.5) if c < 2 else [get_tree_sampler(0.9, 0.1), get_tree_sampler(0.001, 0.999), get_tree_sampler(0.999, 0.001)][rng.integers(3)] if c == 2 else oblivious_sampler(0.5, 0.5),
                initializer=SklearnTreeInitializer(max_depth=int(rng.integers(1, 4))) if rng.random() < 0.15 else None), f


def fit_events(m, f, X, y, ev, queries):
    n = len(X)
    r = m.fit(X, y)
    ms = list(m.model_samples)
    bad = sum(nonfinite([leaf.current_value for t in s.trees for leaf in t.leaf_nodes]) + nonfinite([s.sigma.current_value()]) for s in ms)
    preds = np.asarray(m.prediction_samples)
    if m.store_in_sample_predictions:
        bad += nonfinite(preds)
    if m.store_acceptance_trace:
        bad += nonfinite([a["Tree"] for a in m.acceptance_trace])
    ev.append({"op": "fit", "n": n, "chains": int(m.n_chains), "samp": int(m.n_samples), "tn": f.numerator, "td": f.denominator, "wantp": int(m.store_in_sample_predictions), "models": len(ms),
               "preds": [int(v) for v in preds.shape] if m.store_in_sample_predictions else [], "trees": min(len(s.trees) for s in ms) if ms else 0, "nt": int(m.n_trees), "bad": bad})

    def ask(kind, got, rows):
        got = np.asarray(got, dtype=float)
        ev.append({"op": "ask", "kind": kind, "rows": rows, "len": int(got.size), "dim": int(got.ndim), "bad": nonfinite(got)})
    if m.store_in_sample_predictions:
        ask("in sample", m.predict(), n)
        ask("residuals in sample", m.residuals(), n)
    ask("training rows", m.predict(X), n)
    ask("residuals", m.residuals(X, y), n)
    ask("rmse", [m.rmse(X, y)], 1)
    for q in queries:
        ask("new rows", m.predict(q), len(q))
    return r


def tiny(seed, x, y):
    """one of the specification's matrices, with a target over {0,1}"""
    rng = np.random.default_rng(seed)
    np.random.seed(seed % (2 ** 32))
    X, y = np.array(x), np.array(y)
    if rng.random() < 0.3:
        X = X.astype(bool)
    elif rng.random() < 0.6:
        X = X.astype(float)
    if rng.random() < 0.3:
        y = y.astype(bool)
    elif rng.random() < 0.6:
        y = y.astype(float)
    if rng.random() < 0.2:
        X = pd.DataFrame(X, columns=["a%d" % i for i in range(X.shape[1])])
    ev = []
    try:
        s, f = settings(rng)
        m = SklearnModel(n_jobs=1, **s)
        p = X.shape[1]
        fit_events(m, f, X, y, ev, [np.array([[0.] * p, [1.] * p, [2.] * p, [-1.] + [1.] * (p - 1)])])
    except Exception as e:
        ev.append({"op": "error", "what": describe(e)})
    return {"ev": ev}


def moderate(rng, n):
    """a target of any kind"""
    k = rng.integers(10)
    if k == 0:
        return np.full(n, float(rng.choice([0., 1., -7.5, 1e9, 1e-9])))
    if k == 1:
        y = np.zeros(n)
        y[rng.integers(n)] = float(rng.choice([1., -1., 1e-8, 1e8]))
        return y
    if k == 2:
        return rng.integers(0, 2, size=n).astype(bool)
    if k == 3:
        return rng.integers(-128, 128, size=n).astype(np.int8)
    if k == 4:
        return rng.integers(0, 256, size=n).astype(np.uint8)
    if k == 5:
        return rng.normal(size=n).astype(np.float32)
    if k == 6:
        return pd.Series(rng.normal(size=n), index=[int(v) for v in rng.integers(0, 5, size=n)])
    if k == 7:
        return rng.integers(-10 ** 9, 10 ** 9, size=n).astype(rng.choice([np.int32, np.int64]))
    y = rng.normal(size=n) * 10. ** float(rng.integers(-12, 13))
    if k == 8:
        y = y + float(rng.choice([1e3, -1e6]))
    return y


def covariates(rng, n, p):
    X = np.column_stack([gen.column(rng, n) for _ in range(p)])
    k = rng.integers(12)
    if k == 0:
        return np.full((n, p), float(rng.choice([0., 1., -3.])))
    if k == 1:
        return X[rng.integers(0, n, size=n)]
    if k == 2:
        return (X > 0).astype(bool)
    if k == 3:
        return np.clip(X, -100, 100).astype(rng.choice([np.int8, np.int16]))
    if k == 4:
        return np.clip(np.abs(X), 0, 200).astype(np.uint8)
    if k == 5:
        return np.clip(X, -1e30, 1e30).astype(np.float32)
    if k == 6:
        return np.sign(X) * 1e300
    if k == 7:
        return np.clip(X, -100, 100).astype(np.float16)
    if k in (8, 9):
        cols = {}
        for j in range(p):
            c = np.clip(X[:, j], -1e9, 1e9)
            cols["c%d" % j] = [c, c > 0, c.astype(int), c.astype(np.float32)][rng.integers(4)]
        return pd.DataFrame(cols, index=list(rng.permutation(n)))
    return gen.layout(rng, X)


def anything(seed):
    rng = np.random.default_rng(seed)
    np.random.seed(seed % (2 ** 32))
    n = int(rng.choice([1, 2, 2, 3, 5, 9, 20, 60]))
    p = int(rng.choice([1, 1, 2, 3, 8]))
    ev = []
    try:
        s, f = settings(rng, small=rng.random() < 0.6)
        m = SklearnModel(n_jobs=1, **s)
        for _ in range(int(rng.integers(1, 3))):
            X = covariates(rng, n, p)
            y = moderate(rng, n)
            if s["initializer"] is not None and np.abs(np.asarray(X, dtype=float)).max() > 1e30:
                X = np.ones((n, p))
            A = np.asarray(X, dtype=float)
            qs = [A[rng.integers(0, n, size=4)] * float(rng.choice([1., -1., 2.])), np.zeros((0, p))] + ([X[:1]] if isinstance(X, (np.ndarray, pd.DataFrame)) else [])
            fit_events(m, f, X, y, ev, qs)
            n = int(rng.choice([1, 2, 3, 7]))
    except Exception as e:
        ev.append({"op": "error", "what": describe(e)})
    return {"ev": ev}


def run(ctx):
    r = ctx.design("MCTotal", "MCTotal")
    ctx.refuted("MCTotal", "MCTotalUnguarded")
    if not ctx.quick:
        ctx.design("MCTotal", "MCTotalDeep")
    jobs = [(x, y) for x in r.printed("@T") for y in product((0, 1), repeat=len(x))]
    kws = [dict(seed=i, x=x, y=list(y)) for i, (x, y) in enumerate(jobs * ctx.n(3, 30))]
    ctx.validate("TraceTotal", pmap(tiny, kws), "total.tiny", kws)
    ctx.replay(len(kws))
    kws = [dict(seed=s) for s in ctx.seeds(ctx.n(700, 12000), "any")]
    ctx.validate("TraceTotal", pmap(anything, kws, limit="long"), "total.anything", kws)
