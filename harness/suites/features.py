"""C14: split shares, null thresholds, selection."""
from fractions import Fraction
from types import SimpleNamespace

import numpy as np
import pandas as pd
from matplotlib import pyplot as plt

from bartpy.data import Data
from bartpy.diagnostics import features as F
from bartpy.features.featureselection import SelectNullDistributionThreshold, SelectSplitProportionThreshold
from bartpy.model import Model, deep_copy_model
from bartpy.mutation import GrowMutation
from bartpy.node import LeafNode
from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
from bartpy.samplers.oblivioustrees.treemutation import get_tree_sampler as oblivious_sampler
from bartpy.sklearnmodel import SklearnModel
from bartpy.sigma import Sigma
from bartpy.split import Split
from bartpy.tree import Tree, mutate

from suites import tree as treesuite
from suites.chain import Watcher
from vlib import gen
from vlib.drive import describe, pmap
from vlib.num import Ranks, fx

LU = 10 ** 6


def variables(tree):
    """variable of every decision node, read off the tree's links and path conditions"""
    kids = set()
    for n in tree.nodes:
        kids.add(id(n.left_child))
        kids.add(id(n.right_child))
    res, stack, seen = [], [n for n in tree.nodes if id(n) not in kids], set()
    while stack:
        n = stack.pop()
        if id(n) in seen:
            continue
        seen.add(id(n))
        if n.left_child is not None:
            res.append(int(n.left_child.split.most_recent_split_condition().splitting_variable) + 1)
            stack += [n.left_child, n.right_child]
    return res


def forest_of(models):
    return [[variables(t) for t in m.trees] for m in models]


class ForestWatcher(Watcher):
    """also keeps the split variables every sweep left behind, and the data of the chain"""

    def __deepcopy__(self, memo):
        from copy import deepcopy
        return ForestWatcher(deepcopy(self.inner, memo), self.keep)

    @staticmethod
    def close(c):
        if c["cur"] is not None:
            c["sweeps"].append([variables(t) for t in c["model"].trees])
        c["cur"] = None


def build(rng, vs, p):
    """a real tree that splits on the given variables, in some shape"""
    data = Data(np.zeros((3, p)), np.zeros(3))
    t = Tree([LeafNode(Split(data))])
    for v in vs:
        leaf = t.leaf_nodes[rng.integers(len(t.leaf_nodes))]
        mutate(t, GrowMutation(leaf, treesuite.grow_by_hand(rng, np.zeros((3, p)), leaf, v - 1, 0.)))
    return t


def sample(rng, trees, p):
    """as models are stored"""
    data = Data(np.zeros((3, p)), np.zeros(3), normalize=True)
    return deep_copy_model(Model(data, Sigma(1., 1., 1.), trees=[build(rng, t, p) for t in trees]))


def fake(rng, forest, p):
    return SimpleNamespace(model_samples=[sample(rng, s, p) for s in forest])


def share_event(model, p, cols):
    """cols: None or 1-based variables"""
    r = F.feature_split_proportions(model, None if cols is None else [c - 1 for c in cols])
    return {"op": "shares", "p": p, "cols": [0] if cols is None else [int(c) for c in cols], "keys": [int(k) + 1 for k in r.keys()], "got": [fx(v, LU) for v in r.values()]}


def keep_event(rng, shares, thr, p, plot=True):
    """shares, thr: real mappings variable -> value"""
    ks = Ranks()
    for v in list(shares.values()) + list(thr.values()):
        ks.add(v)
    ks.freeze()
    order = sorted(shares)
    kept = F.kept_features(shares, thr)
    good, bad = F.partition_into_passed_and_failed_features(shares, thr)
    e = {"op": "keep", "p": p, "rsh": [ks[shares[v]] for v in order], "rthr": [ks[thr[v]] for v in order], "mask": [int(bool(b)) for b in F.is_kept(shares, thr)],
         "kept": [int(k) + 1 for k in kept], "passed": [int(k) + 1 for k in good], "failed": [int(k) + 1 for k in bad]}
    return e


# ------------------------------------------------------------------------------ behaviours of MCFeatures

def replay_chunk(items, all_):
    rng = np.random.default_rng(5)
    n, bad = 0, []
    cache = {}
    for it in items:
        p = it["p"]

        def shares(i):
            if (i, p) not in cache:
                cache[(i, p)] = F.feature_split_proportions(fake(rng, all_[i - 1], p), list(range(p)))
            return cache[(i, p)]
        try:
            sh = shares(it["fit"])
            dist = {v: [shares(i)[v] for i in it["nulls"]] for v in range(p)}
            q = it["q"][0] / it["q"][1]
            thr = (F.local_thresholds if it["m"] == "local" else F.global_thresholds)(dist, q)
            got = {"sh": [sh[v] for v in range(p)], "thr": [float(thr[v]) for v in range(p)], "mask": [int(bool(b)) for b in F.is_kept(sh, thr)]}
            for name, want in (("sh", [a / b for a, b in it["sh"]]), ("thr", [a / b for a, b in it["thr"]])):
                if any(abs(a - b) > 1e-9 for a, b in zip(got[name], want)) or len(got[name]) != len(want):
                    bad.append(("C14.replay_" + name, "expected %s got %s" % (want, got[name]), it))
            exact = all(Fraction(a, b) == Fraction(float(t)) for (a, b), t in zip(it["thr"], got["thr"])) and all(Fraction(a, b) == Fraction(x) for (a, b), x in zip(it["sh"], got["sh"]))
            if exact and got["mask"] != it["mask"]:
                bad.append(("C14.replay_mask", "expected %s got %s" % (it["mask"], got["mask"]), it))
            want = [v for v in range(p) if it["mask"][v]]
            if exact and [int(v) for v in F.kept_features(sh, thr)] != want:
                bad.append(("C14.replay_kept", "expected %s got %s" % (want, F.kept_features(sh, thr)), it))
        except Exception as e:
            bad.append(("ANY.raise", describe(e), it))
        n += 1
    return {"n": n, "bad": bad[:20]}


# ------------------------------------------------------------------------------ recorded

def random_forest(rng, p):
    return [[[int(rng.integers(1, p + 1)) for _ in range(int(rng.integers(0, 5)))] for _ in range(int(rng.integers(1, 4)))] for _ in range(int(rng.integers(1, 5)))]


def functions(seed):
    """the functions on hand made forests and null distributions"""
    rng = np.random.default_rng(seed)
    ev = []
    try:
        for _ in range(3):
            p = int(rng.integers(1, 13))      # also more than ten, so that orders by name and by number differ
            fo = random_forest(rng, p)
            if rng.random() < 0.1:
                fo = [[[] for _ in s] for s in fo]
            m = fake(rng, fo, p)
            ev.append({"op": "fit", "forest": fo})
            ev.append(share_event(m, p, None))
            ev.append(share_event(m, p, list(range(1, p + 1))))
            if rng.random() < 0.5:
                ev.append(share_event(m, p, [int(v) for v in rng.choice(np.arange(1, p + 1), size=int(rng.integers(1, p + 1)), replace=False)]))
            runs = int(rng.integers(1, 12))
            cols = list(rng.permutation(p)) if rng.random() < 0.5 else list(range(p))
            if rng.random() < 0.5:
                dist = {int(v): [float(x) for x in rng.integers(0, 5, size=runs) / 4.] for v in cols}
            else:
                dist = {int(v): [float(x) for x in rng.random(runs)] for v in cols}
            q = Fraction(int(rng.integers(0, 21)), 20)
            for method in ("local", "global"):
                thr = (F.local_thresholds if method == "local" else F.global_thresholds)(dist, float(q))
                ev.append({"op": "thr", "method": method, "q": [q.numerator, q.denominator], "dist": [[fx(x, LU) for x in dist[v]] for v in range(p)],
                           "thr": [fx(thr[v], LU) for v in range(p)]})
                order = [int(v) for v in (rng.permutation(p) if rng.random() < 0.5 else range(p))]
                sh = {v: float(rng.choice([0, .25, .5, .75, 1, rng.random()])) if rng.random() < 0.6 else float(thr[v]) for v in order}
                ev.append(keep_event(rng, sh, thr, p))
    except Exception as e:
        ev.append({"op": "error", "what": describe(e)})
    return {"ev": ev}


def selection(seed):
    """selectors on real fits; null runs recognised by their chains"""
    rng = np.random.default_rng(seed)
    np.random.seed(seed % (2 ** 32))
    n, p, much = int(rng.integers(8, 14)), int(rng.choice([1, 2, 3, 4, 11])), rng.random() < 0.3
    if much:
        p = int(rng.choice([p, 11]))
    X = np.asarray(gen.matrix(rng, n=n, p=p), dtype=float)
    if p > 1 and rng.random() < 0.4:
        X[:, rng.integers(p)] = 1.          # a variable that can never be used
    y = rng.permutation(n) + rng.random(n)
    keep = {"chains": []}
    nc, ns, nb, nt = int(rng.choice([1, 2])), int(rng.integers(1, 5)), int(rng.integers(0, 3)), int(rng.integers(1, 4))
    model = SklearnModel(n_trees=nt, n_chains=nc, n_samples=ns, n_burn=nb, thin=1.0, n_jobs=1,
                         tree_sampler=ForestWatcher(get_tree_sampler(0.5, 0.5) if rng.random() < 0.8 else oblivious_sampler(0.5, 0.5), keep))
    Xin = pd.DataFrame(X, columns=["v%d" % j for j in range(p)]) if rng.random() < 0.3 else np.array(X)
    yin = np.array(y)
    q = Fraction(int(rng.integers(0, 21)), 20)
    if much:                        # many splits, a threshold that only unused variables miss
        ns, nt, q = 15, 8, Fraction(int(rng.choice([0, 0, 1, 2, 3])), 100)
        model.set_params(n_samples=ns, n_trees=nt)
    again = rng.random() < 0.35
    ev = []

    def before(s):
        """the selector may have been fitted to other data before: nothing of that may remain"""
        if again:
            o = int(rng.integers(1, 5))
            s.fit(np.asarray(gen.matrix(rng, n=n + 2, p=o), dtype=float), rng.permutation(n + 2) * 2.5)
            closed()
            keep["chains"].clear()

    def closed():
        for c in keep["chains"]:
            ForestWatcher.close(c)
        return list(keep["chains"])

    def runs_of(chains):
        res = [chains[i:i + nc] for i in range(0, len(chains), nc)]
        return [[s for c in g for s in c["sweeps"][nb:]] for g in res], res

    def permuted(c):
        return int(np.allclose(np.sort(c["model"].data.y.unnormalized_y), np.sort(y)))

    def same_X(c):
        return int(np.array_equal(np.asarray(c["model"].data.X.values, dtype=float), X))

    def null_event(chains, dist, want):
        forests, groups = runs_of(chains)
        return {"op": "null", "p": p, "want": want, "nulls": forests, "dist": [[fx(x, LU) for x in dist[v]] for v in sorted(dist)],
                "ys": [int(all(permuted(c) for c in g) and all(np.allclose(c["model"].data.y.unnormalized_y, g[0]["model"].data.y.unnormalized_y) for c in g)) for g in groups],
                "xs": [int(all(same_X(c) for c in g)) for g in groups]}
    try:
        kind = rng.integers(3)
        if kind == 0:
            perms = int(rng.integers(1, 4))
            dist = F.null_feature_split_proportions_distribution(model, Xin, yin, perms)
            ev.append(null_event(closed(), dist, perms))
        elif kind == 1:
            s = SelectSplitProportionThreshold(model, percentile=float(q))
            before(s)
            s.fit(Xin, yin)
            fo = forest_of(s.model.model_samples)
            ev.append({"op": "fit", "forest": fo})
            ev.append({"op": "shares", "p": p, "cols": list(range(1, p + 1)), "keys": [int(k) + 1 for k in s.feature_proportions], "got": [fx(v, LU) for v in s.feature_proportions.values()]})
            sh = {k: s.feature_proportions[k] for k in s.feature_proportions}
            e = keep_event(rng, sh, {k: float(q) for k in sh}, p)
            e["mask"] = [int(bool(b)) for b in s._get_support_mask()]
            ev.append(selected(e, s, Xin, p))
        else:
            perms, method, trees = int(rng.integers(1, 4)), ["local", "global"][rng.integers(2)], None if rng.random() < 0.5 else int(rng.integers(1, 4))
            s = SelectNullDistributionThreshold(model, percentile=float(q), method=method, n_permutations=perms, n_trees=trees)
            before(s)
            s.fit(Xin, yin)
            chains = closed()
            fo = forest_of(s.model.model_samples)
            ev.append({"op": "fit", "forest": fo})
            ev.append({"op": "shares", "p": p, "cols": list(range(1, p + 1)), "keys": [int(k) + 1 for k in s.feature_proportions], "got": [fx(v, LU) for v in s.feature_proportions.values()]})
            own = [c for c in chains if np.allclose(c["model"].data.y.unnormalized_y, y)]
            if len(own) == nc:              # otherwise a null run drew the identity: they cannot be told apart
                ev.append(null_event([c for c in chains if not any(c is o for o in own)], s.null_distribution, perms))
            want_trees = nt if trees is None else trees
            ev.append({"op": "flag", "name": "C14.trees", "ok": int(all(len(c["model"].trees) == want_trees for c in chains)), "info": "number of trees of the runs"})
            dist = s.null_distribution
            ev.append({"op": "thr", "method": method, "q": [q.numerator, q.denominator], "dist": [[fx(x, LU) for x in dist[v]] for v in range(p)], "thr": [fx(s.thresholds[v], LU) for v in range(p)]})
            e = keep_event(rng, s.feature_proportions, s.thresholds, p)
            e["mask"] = [int(bool(b)) for b in s._get_support_mask()]
            ev.append(selected(e, s, Xin, p))
        ev.append({"op": "flag", "name": "C14.caller", "ok": int(np.array_equal(np.asarray(Xin, dtype=float), X) and np.array_equal(yin, y) and model.model_samples is None and model.n_trees == nt),
                   "info": "the caller's data or model changed"})
    except Exception as e:
        ev.append({"op": "error", "what": describe(e)})
    return {"ev": ev}


def shuffles(seed):
    """one small null run: how the target was shuffled, model by model"""
    rng = np.random.default_rng(seed)
    np.random.seed(seed % (2 ** 32))
    n, perms = 3, int(rng.integers(1, 5))
    X = rng.integers(0, 5, size=(n, 2)).astype(float)
    y = np.array([0., 1., 2.])[rng.permutation(n)] * 4.
    keep = {"chains": []}
    try:
        model = SklearnModel(n_trees=1, n_chains=1, n_samples=1, n_burn=0, n_jobs=1, tree_sampler=ForestWatcher(get_tree_sampler(0.5, 0.5), keep))
        F.null_feature_split_proportions_distribution(model, X, y, perms)
        chains = list(keep["chains"])
        got = [[int(np.argmin(np.abs(y - v))) + 1 for v in c["model"].data.y.unnormalized_y] for c in chains]
        two = [int(v) + 1 for v in rng.permutation(len(got))[:2]] if len(got) > 1 else []
        return {"op": "run", "perms": got, "one": int(rng.integers(len(got))) + 1, "near": two, "far": []}
    except Exception as e:
        return {"op": "error", "what": describe(e)}


def many(seeds):
    got = pmap(shuffles, [dict(seed=s) for s in seeds])
    return {"name": "C14", "n": 3, "ev": [{"op": "error", "what": e["_error"]} if "_error" in e else e for e in got if e] + [{"op": "done"}]}


def selected(e, s, Xin, p):
    """columns that transform keeps, recognised by a marker matrix"""
    marker = np.tile(np.arange(1., p + 1), (2, 1))
    if isinstance(Xin, pd.DataFrame):
        marker = pd.DataFrame(marker, columns=Xin.columns)
    if sum(e["mask"]):
        e["tr"] = [int(v) for v in np.asarray(s.transform(marker))[0]]
    return e


def run(ctx):
    r = ctx.design("MCFeatures", ctx.n("MCFeatures", "MCFeaturesDeep"))
    items = r.printed("@T")
    all_ = r.printed("@F")[0]["all"]
    for res in pmap(replay_chunk, [{"items": items[i::16], "all_": all_} for i in range(16)], limit="long"):
        if res is None:
            continue
        if "_error" in res:
            ctx.fail("ANY.raise", res["_error"], {"tb": res.get("_tb")})
            continue
        ctx.replay(res["n"])
        for clause, d, it in res["bad"]:
            ctx.fail(clause, d, {"behaviour": it})
    kws = [dict(seed=s) for s in ctx.seeds(ctx.n(200, 4000), "featfn")]
    ctx.validate("TraceFeatures", pmap(functions, kws), "features.functions", kws)
    kws = [dict(seed=s) for s in ctx.seeds(ctx.n(240, 3000), "featsel")]
    ctx.validate("TraceFeatures", pmap(selection, kws), "features.selection", kws)
    kws = [dict(seeds=ctx.seeds(ctx.n(600, 6000), "featshuffle"))]
    ctx.validate("TraceShuffle", [many(**kw) for kw in kws], "features.many", kws)
