"""C16: initialising trees from fitted sklearn trees."""
from types import SimpleNamespace

import numpy as np
from sklearn.ensemble import GradientBoostingRegressor, RandomForestRegressor
from sklearn.tree import DecisionTreeRegressor, ExtraTreeRegressor

from bartpy.data import Data
from bartpy.initializers.initializer import Initializer
from bartpy.initializers.sklearntreeinitializer import SklearnTreeInitializer, map_sklearn_tree_into_bartpy
from bartpy.model import Model
from bartpy.node import LeafNode
from bartpy.samplers.leafnode import LeafNodeSampler
from bartpy.samplers.modelsampler import ModelSampler
from bartpy.samplers.schedule import SampleSchedule
from bartpy.samplers.sigma import SigmaSampler
from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
from bartpy.sigma import Sigma
from bartpy.sklearnmodel import SklearnModel
from bartpy.split import Split
from bartpy.trace import TraceLogger
from bartpy.tree import Tree

from vlib import gen, obs
from vlib.drive import describe, pmap
from vlib.num import fx

LU = 10 ** 6


def observe(tree, ranker):
    return {"g": obs.graph(tree, ranker, LU), "rows": [obs.rows_of(~n.data.mask) for n in tree.nodes]}


def arrays(t, ranker):
    """sklearn tree arrays in the specification's numbering"""
    n = len(t.children_left)
    leaf = [int(t.children_left[i]) == -1 for i in range(n)]
    val = np.asarray(t.value, dtype=float).reshape(n, -1)[:, 0]
    return {"left": [int(v) + 1 for v in t.children_left], "right": [int(v) + 1 for v in t.children_right],
            "var": [0 if leaf[i] else int(t.feature[i]) + 1 for i in range(n)],
            "cut": [0 if leaf[i] else obs.Cut(ranker, int(t.feature[i]), float(t.threshold[i])) for i in range(n)],
            "value": [fx(v, LU) for v in val]}


def depth_of(t):
    def d(j):
        return 0 if t.children_left[j] == -1 else 1 + max(d(t.children_left[j]), d(t.children_right[j]))
    return d(0)


def covariates(rng, n=None, p=None):
    """values that survive sklearn's conversion to single precision"""
    X = np.asarray(gen.matrix(rng, n=n, p=p), dtype=float)
    X = np.clip(X, -1e6, 1e6).astype(np.float32).astype(float)
    if rng.random() < 0.4:
        X[:, rng.integers(X.shape[1])] = rng.random(len(X)).astype(np.float32)
    if rng.random() < 0.2:     # splits that differ only far behind the point
        X[:, rng.integers(X.shape[1])] = (1 + rng.integers(0, 8, size=len(X)) * 2. ** -20).astype(np.float32)
    return X


def head(X, Q, y, ranker, m, maxdepth):
    return {"x": X, "Q": Q, "y": [fx(v, LU) for v in y], "m": m, "maxdepth": maxdepth}


def finish(h, ranker, ev):
    ranker.freeze()
    res = {k: v for k, v in h.items() if k not in ("x", "Q")}
    res["x"] = ranker.matrix(h["x"])
    res["Q"] = [ranker.matrix(q) for q in h["Q"]]
    res["ev"] = obs.resolve(ev, ranker)
    return res


def conversions(seed):
    """any fitted sklearn regression tree into a bartpy tree"""
    rng = np.random.default_rng(seed)
    np.random.seed(seed % (2 ** 32))
    X = covariates(rng, n=int(rng.integers(1, 14)))
    n, p = X.shape
    y = rng.normal(size=n) if rng.random() < 0.8 else np.ones(n)
    Q = [X, X[rng.permutation(n)]]
    for _ in range(2):
        Q.append(np.clip(X[rng.integers(0, n, size=5)] + rng.choice([0., 0.5, -0.5, 1e3, -1e3], size=(5, p)), -1e6, 1e6).astype(np.float32).astype(float))
    ranker = obs.Ranker(p)
    for q in Q:
        ranker.add_matrix(q)
    ev = []
    try:
        for _ in range(4):
            c = rng.integers(6)
            s = int(rng.integers(10 ** 6))
            if c == 0:
                sk = DecisionTreeRegressor(max_depth=[None, 1, 2, 3][rng.integers(4)], random_state=s)
            elif c == 1:
                sk = DecisionTreeRegressor(max_leaf_nodes=int(rng.integers(2, 8)), random_state=s)      # numbered best first
            elif c == 2:
                sk = ExtraTreeRegressor(max_depth=3, random_state=s)
            elif c == 3:
                sk = DecisionTreeRegressor(criterion="absolute_error", min_samples_leaf=int(rng.integers(1, 4)), random_state=s)
            elif c == 4:
                sk = GradientBoostingRegressor(n_estimators=2, max_depth=3, learning_rate=0.3, random_state=s)
            else:
                sk = RandomForestRegressor(n_estimators=2, max_depth=3, random_state=s)
            sk.fit(X, y)
            t = sk if c < 4 else sk.estimators_[rng.integers(2)][0] if c == 4 else sk.estimators_[rng.integers(2)]
            tree = Tree([LeafNode(Split(Data(X, np.array(y))))])
            if rng.random() < 0.5:
                tree.predict()
                tree.update_y(np.array(y) * 2.)
            map_sklearn_tree_into_bartpy(tree, t.tree_)
            q = int(rng.integers(len(Q)))
            ev.append({"op": "map", "a": arrays(t.tree_, ranker), "o": observe(tree, ranker), "q": q + 1, "got": [fx(v, LU) for v in tree.predict(Q[q])],
                       "sk": [fx(v, LU) for v in t.predict(Q[q])], "pin": [fx(v, LU) for v in tree.predict()]})
    except Exception as e:
        ev.append({"op": "error", "what": describe(e)})
    return finish(head(X, Q, y, ranker, 1, 99), ranker, ev)


class FitWatch:
    """records every gradient boosting fit made while it is active"""

    def __init__(self):
        self.calls = []

    def __enter__(self):
        self.orig = GradientBoostingRegressor.fit
        me = self

        def fit(est, X, y, *a, **k):
            yy = np.array(y, dtype=float)
            XX = np.array(X, dtype=float)
            r = me.orig(est, X, y, *a, **k)
            me.calls.append((XX, yy, est))
            return r
        GradientBoostingRegressor.fit = fit
        return self

    def __exit__(self, *a):
        GradientBoostingRegressor.fit = self.orig


class Probe(Initializer):
    """an initializer of the caller's own: gives each tree a constant, remembering what it was shown"""

    def __init__(self, rng):
        self.rng, self.calls = rng, []

    def initialize_tree(self, tree):
        v = float(self.rng.integers(-300, 300)) / 1000.
        root = tree.nodes[0]
        self.calls.append((np.array(root.data.X.values, dtype=float), np.array(root.data.y.values), v))
        root.set_value(v)


def state_event(model, ranker, initial=False, targets=True):
    return {"op": "state", "trees": [observe(t, ranker) for t in model.trees], "each": [[fx(v, LU) for v in t.predict()] for t in model.trees],
            "p": [fx(v, LU) for v in np.asarray(model.predict())], "res": [fx(v, LU) for v in model.residuals()], **({"initial": 1} if initial else {})}


def models(seed, how):
    """whole models: initialised tree by tree, then sampled"""
    rng = np.random.default_rng(seed)
    np.random.seed(seed % (2 ** 32))
    X = covariates(rng, n=int(rng.integers(2, 14)))
    n, p = X.shape
    y = rng.normal(size=n) * 10. ** float(rng.integers(-2, 4)) + (rng.integers(0, 2) * X[:, 0] if np.abs(X).max() < 100 else 0)
    if rng.random() < 0.1:
        y[:] = 3.
    m = int(rng.choice([1, 2, 3, 4, 6]))
    maxdepth = int(rng.integers(1, 5))
    loss = str(rng.choice(["squared_error", "squared_error", "absolute_error", "huber"]))
    ranker = obs.Ranker(p)
    ranker.add_matrix(X)
    ev = []
    data = Data(np.array(X), np.array(y), normalize=True)
    try:
        if how == "probe":
            probe = Probe(rng)
            model = Model(data, Sigma(1., 0.5, data.y.normalizing_scale), n_trees=m, initializer=probe)
            turns = [(Xc, yc, {"left": [0], "right": [0], "var": [0], "cut": [0], "value": [fx(v, LU)]}, 0) for Xc, yc, v in probe.calls]
        else:
            with FitWatch() as w:
                ini = SklearnTreeInitializer(max_depth=maxdepth, min_samples_split=int(rng.choice([2, 3, 5])), loss=loss)
                if how == "direct":
                    model = Model(data, Sigma(1., 0.5, data.y.normalizing_scale), n_trees=m, initializer=ini)
                else:           # through the estimator
                    est = SklearnModel(n_trees=m, n_chains=1, n_samples=1, n_burn=0, n_jobs=1, sigma_a=1., sigma_b=.5, initializer=ini)
                    model = est._construct_model(np.array(X), np.array(y))
            turns = [(Xc, yc, arrays(e.estimators_[0][0].tree_, ranker), depth_of(e.estimators_[0][0].tree_)) for Xc, yc, e in w.calls]
        if turns:           # otherwise the structures come from somewhere else and only the model is judged
            for Xc, yc, a, d in turns:
                ev.append({"op": "turn", "a": a, "y": [fx(v, LU) for v in yc], "x": int(np.array_equal(Xc, X)), "depth": d})
            ev.append({"op": "count"})
        ev.append(state_event(model, ranker, initial=bool(turns)))
        s = ModelSampler(SampleSchedule(get_tree_sampler(0.5, 0.5), LeafNodeSampler(), SigmaSampler()))
        for _ in range(int(rng.integers(1, 5))):
            s.step(model, TraceLogger())
            ev.append(state_event(model, ranker))
    except Exception as e:
        ev.append({"op": "error", "what": describe(e)})
    return finish(head(X, [X], data.y.values, ranker, m, maxdepth), ranker, ev)


def replay_chunk(items):
    """behaviours of MCInit: hand made arrays, nodes in any numbering"""
    bad, n = [], 0
    for it in items:
        a = it["a"]
        try:
            X = np.array(it["x"], dtype=float)
            t = SimpleNamespace(children_left=np.array(a["left"]) - 1, children_right=np.array(a["right"]) - 1,
                                feature=np.array([v - 1 if v else -2 for v in a["var"]]), threshold=np.array([float(c) if v else -2. for v, c in zip(a["var"], a["cut"])]),
                                value=np.array(a["value"], dtype=float).reshape(-1, 1, 1), node_count=len(a["left"]), n_leaves=sum(1 for v in a["left"] if v == 0))
            tree = Tree([LeafNode(Split(Data(X, np.arange(float(len(X))))))])
            map_sklearn_tree_into_bartpy(tree, t)
            heap = obs.heap_index(tree)
            dec, lv = [], []
            for node in tree.nodes:
                h = heap.get(id(node), -1)
                if obs.kind_of(node) == 1:
                    c = node.most_recent_split_condition()
                    dec.append([h, [int(c.splitting_variable) + 1, int(c.splitting_value)]])
                else:
                    lv.append([h, int(node.current_value)])
            if sorted(dec) != sorted(it["dec"]) or sorted(lv) != sorted(it["lv"]):
                bad.append(("C16.replay_tree", "expected %s %s got %s %s" % (it["dec"], it["lv"], dec, lv), it))
            if [int(v) for v in tree.predict(X)] != it["pred"] or [int(v) for v in tree.predict()] != it["pred"]:
                bad.append(("C16.replay_prediction", "expected %s got %s" % (it["pred"], tree.predict(X)), it))
        except Exception as e:
            bad.append(("ANY.raise", describe(e), it))
        n += 1
    return {"n": n, "bad": bad[:20]}


def run(ctx):
    ctx.design("MCInit", ctx.n("MCInit", "MCInitDeep"))
    r = ctx.design("MCInit", "MCInitEmit")
    items = r.printed("@T")
    for res in pmap(replay_chunk, [{"items": items[i::8]} for i in range(8)], limit="long"):
        if res is None:
            continue
        if "_error" in res:
            ctx.fail("ANY.raise", res["_error"], {"tb": res.get("_tb")})
            continue
        ctx.replay(res["n"])
        for clause, d, it in res["bad"]:
            ctx.fail(clause, d, {"behaviour": it})
    kws = [dict(seed=s) for s in ctx.seeds(ctx.n(300, 5000), "conv")]
    ctx.validate("TraceInit", pmap(conversions, kws), "init.conversions", kws)
    kws = [dict(seed=s, how=h) for h in ("probe", "direct", "estimator") for s in ctx.seeds(ctx.n(80, 1500), "init" + h)]
    ctx.validate("TraceInit", pmap(models, kws), "init.models", kws)
