"""C22: estimators and selectors in pipelines, cross-validation and searches."""
import hashlib
import pickle
import struct
from copy import deepcopy

import numpy as np
import pandas as pd
from sklearn.base import clone
from sklearn.model_selection import GridSearchCV, cross_validate
from sklearn.pipeline import Pipeline

from bartpy.features.featureselection import SelectNullDistributionThreshold, SelectSplitProportionThreshold
from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
from bartpy.sklearnmodel import SklearnModel

from suites.chain import Watcher
from vlib.drive import describe, pmap
from vlib.num import Ranks, fx

LO = 100
MODEL = ["n_trees", "n_chains", "n_samples", "n_burn", "thin", "alpha", "beta", "sigma_a", "sigma_b", "store_in_sample_predictions"]
SCALED = {"thin", "alpha", "beta", "sigma_a", "sigma_b", "percentile"}


class NothingKept(Exception):
    pass


def number(name, v):
    """a parameter as an integer"""
    name = name.split("__")[-1]
    if v is None:
        return -1
    if name == "method":
        return {"local": 1, "global": 2}.get(v, 9) if isinstance(v, str) else 9
    return fx(v, 10 ** 6) if name in SCALED else int(v)


def some(rng, name):
    name = name.split("__")[-1]
    return {"n_trees": lambda: int(rng.integers(1, 6)), "n_chains": lambda: int(rng.integers(1, 3)), "n_samples": lambda: int(rng.integers(2, 5)), "n_burn": lambda: int(rng.integers(0, 3)),
            "thin": lambda: 1.0 if rng.random() < 0.7 else 0.5, "alpha": lambda: float(rng.choice([0.95, 0.7])), "beta": lambda: float(rng.choice([2., 1.])), "sigma_a": lambda: float(rng.choice([0.001, 1.])),
            "sigma_b": lambda: float(rng.choice([0.001, 0.5])), "store_in_sample_predictions": lambda: bool(rng.integers(2)), "percentile": lambda: float(rng.choice([0., 0.1, 0.25, 0.4])),
            "method": lambda: str(rng.choice(["local", "global"])), "n_permutations": lambda: int(rng.integers(1, 4))}[name]()


class Player:
    def __init__(self, rng, kind):
        self.rng, self.kind = rng, kind
        self.sel, self.fin = {"chains": []}, {"chains": []}
        p = self.p = int(rng.integers(2, 5))
        self.data, self.x = [], []
        for d in range(2):
            n = int(rng.integers(6, 13))
            X = np.column_stack([100. * (j + 1) + (rng.permutation(n) if j == 0 or rng.random() < 0.5 else rng.integers(0, 3, size=n)) for j in range(p)])
            y = (rng.permutation(41) - 20)[:n].astype(float)
            if rng.random() < 0.6:
                y = np.sort(y)[np.argsort(np.argsort(X[:, 0]))]
            self.x.append([[int(v) for v in r] for r in X])
            k = rng.integers(4)
            if k == 0:
                self.data.append((pd.DataFrame(X, columns=["v%d" % j for j in range(p)], index=rng.permutation(n) + 3), pd.Series(y, index=rng.permutation(n) + 3)))
            elif k == 1:
                self.data.append((X.astype(int), y.astype(int)))
            else:
                self.data.append((np.asfortranarray(X) if k == 2 else X, y))
        self.names, self.values, e = self.build()
        self.hs = [e]
        self.ev = []

    def model(self, keep):
        kw = {k: some(self.rng, k) for k in MODEL}
        return kw, SklearnModel(n_jobs=1, tree_sampler=Watcher(get_tree_sampler(0.5, 0.5), keep), **kw)

    def build(self):
        kw, m = self.model(self.fin)
        if self.kind == "model":
            return list(kw), [number(k, v) for k, v in kw.items()], m
        skw, s = self.model(self.sel)
        if self.rng.random() < 0.15:        # one model for both parts, as in the package's examples
            skw, s = kw, m
            self.sel = self.fin
        own = {"percentile": some(self.rng, "percentile")}
        if self.kind == "null":
            own.update(method=some(self.rng, "method"), n_permutations=some(self.rng, "n_permutations"), n_trees=None if self.rng.random() < 0.6 else some(self.rng, "n_trees"))
        sel = (SelectNullDistributionThreshold if self.kind == "null" else SelectSplitProportionThreshold)(s, **own)
        names = ["selector__" + k for k in own] + ["selector__model__" + k for k in skw] + ["model__" + k for k in kw]
        return names, [number(n, v) for n, v in zip(names, list(own.values()) + list(skw.values()) + list(kw.values()))], Pipeline([("selector", sel), ("model", m)])

    # ---- looking at estimators
    def parts(self, e):
        return (None, e) if self.kind == "model" else (e.named_steps["selector"], e.named_steps["model"])

    def answers(self, e):
        """names what a fitted estimator answers; 0: not fitted"""
        s, m = self.parts(e)
        if m.model_samples is None:
            return 0 if s is None or not hasattr(s, "feature_proportions") else 1
        probe = np.array(self.x[0], dtype=float)
        # the threshold of the simple selector counts at once: what it keeps may no longer be what the model was fitted to
        stale = self.kind == "split" and int(np.sum(s.get_support())) != np.shape(m.data.X.values)[1]
        got = [] if stale else np.asarray(e.predict(probe), dtype=float)
        h = hashlib.sha256(struct.pack("%dd" % len(got), *got))
        if s is not None:
            h.update(bytes(int(b) for b in s.get_support()))
        return 2 + int(h.hexdigest()[:7], 16)

    def obs(self):
        out = []
        for e in self.hs:
            ps = e.get_params(deep=True)
            out.append({"p": [number(n, ps[n]) for n in self.names], "f": self.answers(e)})
        return out

    def chain(self, c, d):
        X, y = self.data[d]
        at = {float(v): i + 1 for i, v in enumerate(np.asarray(y, dtype=float))}
        D = c["model"].data
        got = [float(np.round(v, 6)) for v in np.asarray(D.y.unnormalized_y, dtype=float)]
        return {"x": [[int(v) if float(v) == int(v) else 0 for v in r] for r in np.asarray(D.X.values, dtype=float)], "y": [at.get(v, 0) for v in got],
                "trees": len(c["model"].trees), "sweeps": len(c["sweeps"])}

    def take(self, keep):
        for c in keep["chains"]:
            Watcher.close(c)
        r = list(keep["chains"])
        keep["chains"].clear()
        return r

    def chains(self):
        """chains run since: the selector's, the model's"""
        if self.sel is not self.fin:
            return self.take(self.sel), self.take(self.fin)
        return None, self.take(self.fin)

    def of(self, e, both):
        """the chains behind a fitted estimator, from those that ran"""
        s, m = self.parts(e)
        sel, fin = both

        def own(model, cs):
            sig = {x.sigma.current_value() for x in model.model_samples}
            return [c for c in cs if any(w[0] in sig for w in c["sweeps"])]
        f = own(m, fin)
        return sel, f

    def fit_record(self, e, d, both):
        s, m = self.parts(e)
        sel, fin = both
        if sel is None and s is not None:       # both parts share a watcher: the model's chains are those its samples come from
            sig = {x.sigma.current_value() for x in m.model_samples}
            mine = [c for c in fin if any(w[0] in sig for w in c["sweeps"])]
            sel, fin = [c for c in fin if not any(c is k for k in mine)], mine
        g = {"sel": [self.chain(c, d) for c in sel or []], "fin": [self.chain(c, d) for c in fin], "mask": [1] * self.p, "sh": [], "thr": []}
        Q = np.array(self.x[d], dtype=float)[self.rng.permutation(len(self.x[d]))[:5]]
        if s is not None:
            g["mask"] = [int(bool(b)) for b in s.get_support()]
            sh = [float(s.feature_proportions[v]) for v in range(self.p)]
            th = [float(s.thresholds[v]) for v in range(self.p)] if self.kind == "null" else [float(s.percentile)] * self.p
            ks = Ranks()
            for v in sh + th:
                ks.add(v)
            ks.freeze()
            g["sh"], g["thr"] = [ks[v] for v in sh], [ks[v] for v in th]
        kept = [j for j in range(self.p) if g["mask"][j]]
        g["pred"] = [fx(v, LO) for v in e.predict(Q)]
        g["via"] = [fx(v, LO) for v in m.predict(Q[:, kept])]
        return g

    # ---- operations
    def folds(self, d):
        n = len(self.x[d])
        k = int(self.rng.integers(2, 4))
        parts = np.array_split(self.rng.permutation(n), k)
        if self.rng.random() < 0.3:
            parts = parts[:-1] if k > 2 else parts
        return [(np.setdiff1d(np.arange(n), t), np.sort(t)) for t in parts]

    def clone(self, h):
        self.hs.append(clone(self.hs[h - 1]))
        return {"op": "clone", "h": h}

    def copy(self, h):
        e = self.hs[h - 1]
        self.hs.append(deepcopy(e))
        return {"op": "copy", "h": h}

    def pick(self, which, e=None):
        """a parameter of the first or of the last part"""
        s, m = (None, None) if e is None else self.parts(e)
        if s is not None and s.model is m:      # set for one, set for the other
            return [n for n in self.names if n.count("__") == 1 and n.startswith("selector__") and n != "selector__n_trees"][0]
        mine = [n for n in self.names if n.startswith("selector__")] if which == 1 and self.kind != "model" else [n for n in self.names if not n.startswith("selector__")]
        mine = [n for n in mine if n != "selector__n_trees"]
        return mine[self.rng.integers(len(mine))]

    def set(self, h, which, _=None):
        n = self.pick(which, self.hs[h - 1])
        v = some(self.rng, n)
        self.hs[h - 1].set_params(**{n: v})
        return {"op": "set", "h": h, "name": n, "v": number(n, v)}

    def fit(self, h, d):
        X, y = self.data[d - 1]
        self.hs[h - 1].fit(X, y)
        return {"op": "fit", "h": h, "d": d, "fit": self.fit_record(self.hs[h - 1], d - 1, self.chains())}

    def cross(self, h):
        d = int(self.rng.integers(2))
        X, y = self.data[d]
        fs = self.folds(d)
        r = cross_validate(self.hs[h - 1], X, y, cv=fs, scoring="neg_mean_squared_error", return_estimator=True, error_score="raise")
        both = self.chains()
        A, Y = np.array(self.x[d], dtype=float), np.asarray(y, dtype=float)
        ests = []
        for (train, test), e, score in zip(fs, r["estimator"], r["test_score"]):
            here = [None if cs is None else [c for c in cs if set(self.chain(c, d)["y"]) == {int(i) + 1 for i in train}] for cs in both]
            g = self.fit_record(e, d, here)
            g.update({"ys": [int(v) * LO for v in Y[test]], "tests": [fx(v, LO) for v in e.predict(A[test])], "score": fx(-score, LO * LO)})
            ests.append(g)
        return {"op": "cross", "h": h, "d": d + 1, "folds": [[int(i) + 1 for i in t] for _, t in fs], "ests": ests}

    def search(self, h, which):
        d = int(self.rng.integers(2))
        X, y = self.data[d]
        fs = self.folds(d)
        n = self.pick(which)
        vs = []
        for _ in range(20):
            v = some(self.rng, n)
            if v not in vs:
                vs.append(v)
            if len(vs) == int(self.rng.integers(2, 4)):
                break
        e = self.hs[h - 1]
        g = GridSearchCV(e, {n: vs}, cv=fs, scoring="neg_mean_squared_error", refit=True, error_score="raise")
        g.fit(X, y)
        sel, fin = self.chains()
        best = g.best_estimator_
        self.hs.append(best)
        ev = {"op": "search", "h": h, "d": d + 1, "folds": [[int(i) + 1 for i in t] for _, t in fs], "name": n, "values": [number(n, v) for v in vs], "best": int(g.best_index_) + 1,
              "means": [fx(v, LO) for v in g.cv_results_["mean_test_score"]]}
        if sel is None and self.kind != "model":
            return None             # one watcher for both parts: chains of the search cannot be told apart
        ev["fin"] = [self.chain(c, d) for c in fin]
        whole = set(range(1, len(self.x[d]) + 1))
        refit = [None if cs is None else [c for c in cs if set(self.chain(c, d)["y"]) == whole] for cs in (sel, fin)]
        ev["fit"] = self.fit_record(best, d, refit)
        return ev


def play(seed, kind, ops=None):
    rng = np.random.default_rng(seed)
    np.random.seed(seed % (2 ** 32))
    P = Player(rng, kind)
    if ops is None:
        ops = []
        n = 1
        for _ in range(int(rng.integers(4, 9))):
            k = str(rng.choice(["clone", "copy", "set", "set", "fit", "fit", "cross", "search"]))
            h = int(rng.integers(n)) + 1
            n += k in ("clone", "copy", "search")
            ops.append([k, h] + {"set": [int(rng.integers(2)) + 1, 1], "fit": [int(rng.integers(2)) + 1], "search": [int(rng.integers(2)) + 1]}.get(k, []))
    ev = []
    try:
        ev.append({"op": "new", "obs": P.obs()})
        for op in ops:
            e = getattr(P, op[0])(*op[1:])
            if e is None:
                break
            e["obs"] = P.obs()
            ev.append(e)
    except ValueError as e:
        if "Empty covariate matrix" not in str(e) or P.kind == "model":       # a selector may keep nothing
            ev.append({"op": "error", "what": describe(e)})
    except Exception as e:
        ev.append({"op": "error", "what": describe(e)})
    return {"kind": kind, "names": P.names, "p": P.values, "x": P.x, "ev": ev}


def run(ctx):
    r = ctx.design("MCCompose", "MCCompose")
    if not ctx.quick:
        ctx.design("MCCompose", "MCComposeDeep")
    for m in ("Shared", "Kept", "Lost", "Leak", "Stale"):
        ctx.refuted("MCCompose", "MCCompose" + m)
    rng = np.random.default_rng(ctx.seed)
    hists = r.printed("@T")
    hists = [hists[i] for i in sorted(rng.permutation(len(hists))[:ctx.n(360, 5400)])]
    kws = [dict(seed=s, kind=["model", "split", "null"][i % 3], ops=h) for i, (s, h) in enumerate(zip(ctx.seeds(len(hists), "compose"), hists))]
    ctx.replay(len(kws))
    ctx.validate("TraceCompose", pmap(play, kws), "compose.play", kws)
    kws = [dict(seed=s, kind=k) for k in ("model", "split", "null") for s in ctx.seeds(ctx.n(50, 900), "compose" + k)]
    ctx.validate("TraceCompose", pmap(play, kws), "compose.play", kws)
