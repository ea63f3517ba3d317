"""C20: permutation feature importance."""
import pickle

import numpy as np
from matplotlib import pyplot as plt

from bartpy.features.featureimportance import feature_importance, null_rmse_distribution, original_model_rmse
from bartpy.samplers.oblivioustrees.treemutation import get_tree_sampler as oblivious_sampler
from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
from bartpy.sklearnmodel import SklearnModel

from suites.chain import Watcher
from vlib import gen
from vlib.drive import describe, pmap
from vlib.num import fx

LO = 100
PREDICTED = []      # (sigmas of the samples, covariates, predictions)


class Scored(SklearnModel):
    """the real estimator; remembers what it was asked to predict"""

    def predict(self, X=None):
        r = super().predict(X)
        PREDICTED.append((tuple(s.sigma.current_value() for s in self.model_samples), np.array(X, dtype=float), np.array(r, dtype=float)))
        return r


class Problem:
    def __init__(self, rng, n, p, var, spread):
        self.var = var
        A = np.asarray(gen.matrix(rng, n=n, p=p), dtype=float)
        A = np.clip(np.where(np.isfinite(A), A, 0.), -1e6, 1e6)
        self.id = int(rng.choice([j for j in range(p) if j != var]))
        A[:, self.id] = rng.permutation(n) + (0. if rng.random() < 0.5 else 0.5)
        if spread:
            A[:, var] = rng.permutation(n) * 2.
        if rng.random() < 0.3 and np.all(A == np.round(A)):
            A = A.astype(int)
        self.X = gen.layout(rng, A) if rng.random() < 0.5 and A.dtype == float else A
        self.fac = 2. ** float(rng.integers(-3, 4))
        self.off = self.fac * float(rng.choice([0, 0, 64, -256]))
        self.Y = rng.permutation(np.arange(-20, 21))[:n]
        self.y = self.Y * self.fac + self.off
        if rng.random() < 0.2 and np.all(self.y == np.round(self.y)):
            self.y = self.y.astype(int)
        self.distinct = int(n >= 11 and len(set(A[:, var])) == n)
        self.names = {}
        self.copy = pickle.dumps((np.array(self.X), np.array(self.y)))

    def code(self, x):
        return self.names.setdefault(float(x), len(self.names) + 1)

    def matrix(self, X):
        return [[self.code(v) for v in row] for row in np.asarray(X, dtype=float)]

    def rows(self, X):
        """rows by their identifying column; 0 if there is no such row"""
        at = {float(v): i + 1 for i, v in enumerate(np.asarray(self.X, dtype=float)[:, self.id])}
        return [at.get(float(v), 0) for v in np.asarray(X, dtype=float)[:, self.id]]

    def units(self, xs):
        return [fx((float(v) - self.off) / self.fac, LO) for v in np.asarray(xs, dtype=float)]

    def kept(self):
        X, y = pickle.loads(self.copy)
        return int(np.array_equal(X, np.asarray(self.X)) and X.dtype == np.asarray(self.X).dtype and np.array_equal(y, self.y) and y.dtype == self.y.dtype)


def fingerprint(m, probe):
    d = {k: v for k, v in m.get_params(deep=False).items() if k not in ("tree_sampler", "initializer")}
    res = [sorted(d.items()), id(m.tree_sampler), id(m.schedule.tree_sampler)]
    if m.model_samples is not None:
        res += [[id(s) for s in m.model_samples], [float(v) for v in SklearnModel.predict(m, probe)], id(m.data), id(m.extract), [float(v) for v in m.data.y.unnormalized_y]]
    else:
        res += [m.model is None, m.data is None, m.extract is None]
    return res


def run_events(D, kind, chains, predicted, k, np_, ret):
    """what happened, model by model"""
    ev = [{"op": "begin", "kind": kind, "k": k, "np": np_, "var": D.var + 1}]
    of = {}
    for c in chains:
        Watcher.close(c)
        for s, _, _ in c["sweeps"]:
            of[s] = c
    full = np.asarray(D.X, dtype=float)
    seen, order = {}, []
    for sig, X, r in predicted:
        if sig not in seen:
            seen[sig] = []
            order.append(sig)
        if not any(np.array_equal(X, a) for a, _ in seen[sig]):
            seen[sig].append((X, r))
    for sig in order:
        X = np.concatenate([a for a, _ in seen[sig]])
        r = np.concatenate([b for _, b in seen[sig]])
        cs = []
        for s in sig:
            c = of.get(s)
            if c is None:
                cs = []
                break
            if not any(c is d for d in cs):
                cs.append(c)
        tr = []
        for c in cs:
            cx = np.asarray(c["model"].data.X.values, dtype=float)
            tr.append({"rows": D.rows(cx), "x": D.matrix(cx), "y": D.units(c["model"].data.y.unnormalized_y)})
        which = kind
        if kind == "both":
            same = all(0 not in t["rows"] and np.array_equal(np.asarray(c["model"].data.X.values, dtype=float), full[[i - 1 for i in t["rows"]]]) for c, t in zip(cs, tr))
            rows = D.rows(X)
            which = "original" if same and 0 not in rows and np.array_equal(X, full[[i - 1 for i in rows]]) else "null"
        ev.append({"op": "model", "kind": which, "chains": tr, "rows": D.rows(X), "test": D.matrix(X), "pred": D.units(r)})
    kinds = ["original", "null"] if kind == "both" else [kind]
    ev.append({"op": "ret", "kinds": kinds, "scores": [[fx(float(v) / D.fac, LO) for v in s] for s in ret], "distinct": D.distinct, **{}})
    return ev


def importance(seed, kind, shape=None):
    rng = np.random.default_rng(seed)
    np.random.seed(seed % (2 ** 32))
    if shape:
        n, p, var, k, np_ = shape
    else:
        n = int(rng.integers(4, 15)) if kind != "both" else int(rng.integers(11, 16))
        p = int(rng.integers(2, 5))
        var = int(rng.integers(p))
        k, np_ = int(rng.integers(2, min(n, 5) + 1)), int(rng.integers(1, 4))
    D = Problem(rng, n, p, var, spread=kind == "both" or rng.random() < 0.5)
    keep = {"chains": []}
    head = {"x": D.matrix(D.X), "y": [int(v) * LO for v in D.Y], "id": D.id + 1}
    ev = []
    plain = shape is not None or rng.random() < 0.3
    try:
        inner = get_tree_sampler(0.5, 0.5) if rng.random() < 0.8 else oblivious_sampler(0.5, 0.5)
        m = Scored(n_trees=int(rng.choice([1, 2, 3])), n_chains=1 if plain else int(rng.choice([1, 2, 3])), n_samples=2 if plain else int(rng.integers(1, 4)), n_burn=0 if plain else int(rng.integers(0, 3)),
                   thin=1.0 if rng.random() < 0.7 else 0.5, sigma_a=1., sigma_b=0.5, n_jobs=1, store_in_sample_predictions=bool(rng.integers(2)),
                   store_acceptance_trace=bool(rng.integers(2)), tree_sampler=Watcher(inner, keep))
        for rep in range(1 if rng.random() < 0.7 else 2):
            if rng.random() < 0.4:      # the caller has already used the model
                m.fit(np.array(D.X)[::-1], np.array(D.y)[::-1] * 2.)
            probe = np.array(D.X, dtype=float)
            before = fingerprint(m, probe)
            keep["chains"].clear()
            PREDICTED.clear()
            if kind == "original":
                ret = [original_model_rmse(m, D.X, D.y, k)]
            elif kind == "null":
                ret = [null_rmse_distribution(m, D.X, D.y, D.var, k, np_)]
            else:
                ret = feature_importance(m, D.X, D.y, D.var, k, np_)
                plt.close("all")
                ret = [ret[0], ret[1]]
            chains, predicted = list(keep["chains"]), list(PREDICTED)
            ev += run_events(D, kind, chains, predicted, k, np_, ret)
            ev[-1].update({"data": D.kept(), "model": int(fingerprint(m, probe) == before)})
    except Exception as e:
        ev.append({"op": "error", "what": describe(e)})
    return dict(head, ev=ev)


def two(rng, a, b):
    """a place in a and another in b"""
    ps = [[int(i), int(j)] for i in a for j in b if i != j]
    return ps[rng.integers(len(ps))] if ps else []


def shuffles(seed):
    """one small run: the permutation behind every null score, in the order of the models"""
    rng = np.random.default_rng(seed)
    np.random.seed(seed % (2 ** 32))
    n, p, k, np_ = 3, 2, int(rng.integers(2, 4)), int(rng.integers(1, 4))
    var = int(rng.integers(p))
    D = Problem(rng, n, p, var, spread=True)
    keep = {"chains": []}
    try:
        m = Scored(n_trees=1, n_chains=1, n_samples=1, n_burn=0, n_jobs=1, tree_sampler=Watcher(get_tree_sampler(0.5, 0.5), keep))
        PREDICTED.clear()
        null_rmse_distribution(m, D.X, D.y, var, k, np_)
        ev = [e for e in run_events(D, "null", list(keep["chains"]), list(PREDICTED), k, np_, [[]]) if e["op"] == "model"]
        orig = [r[var] for r in D.matrix(D.X)]
        perms, fold = [], []
        for e in ev:
            c = e["chains"][0]
            at = dict(zip(e["rows"], [r[var] for r in e["test"]]))
            at.update(zip(c["rows"], [r[var] for r in c["x"]]))
            perms.append([orig.index(at[i + 1]) + 1 if at.get(i + 1) in orig else 0 for i in range(n)])
            fold.append(tuple(sorted(e["rows"])))
        first = [i + 1 for i in range(len(fold)) if fold[i] == fold[0]]
        rest = [i + 1 for i in range(len(fold)) if fold[i] != fold[0]]
        return {"op": "run", "perms": perms, "one": int(rng.integers(len(perms))) + 1, "near": two(rng, first, first), "far": two(rng, first, rest)}
    except Exception as e:
        return {"op": "error", "what": describe(e)}


def many(seeds):
    got = pmap(shuffles, [dict(seed=s) for s in seeds])
    return {"name": "C20", "n": 3, "ev": [{"op": "error", "what": e["_error"]} if "_error" in e else e for e in got if e] + [{"op": "done"}]}


def run(ctx):
    ctx.design("MCImportance", "MCImportance")
    ctx.design("MCImportance", "MCImportance2")
    ctx.design("MCImportance", "MCImportance3")
    ctx.design("MCImportance", "MCImportanceSame")
    if not ctx.quick:
        ctx.design("MCImportance", "MCImportanceDeep")
    shapes = [(n, p, v, k, q) for n in range(2, 6) for p in (2, 3) for v in range(p) for k in range(2, n + 1) for q in (1, 2, 3)]
    kws = [dict(seed=900 + i, kind=kind, shape=s) for kind in ("original", "null") for i, s in enumerate(shapes)]
    ctx.validate("TraceImportance", pmap(importance, kws), "importance.shapes", kws)
    kws = [dict(seed=s, kind=k) for k, n in (("original", 60), ("null", 160), ("both", 60)) for s in ctx.seeds(ctx.n(n, n * 15), "imp" + k)]
    ctx.validate("TraceImportance", pmap(importance, kws), "importance.importance", kws)
    kws = [dict(seeds=ctx.seeds(ctx.n(600, 6000), "impshuffle"))]
    ctx.validate("TraceShuffle", [many(**kw) for kw in kws], "importance.many", kws)
