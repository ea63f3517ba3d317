"""C15: the residual extensions."""
import pickle
from copy import deepcopy
from fractions import Fraction

import numpy as np
import pandas as pd
import statsmodels.api as sm
from sklearn.base import BaseEstimator, RegressorMixin, clone
from sklearn.dummy import DummyRegressor
from sklearn.linear_model import LinearRegression, Ridge
from sklearn.tree import DecisionTreeRegressor

from bartpy.extensions.baseestimator import ResidualBART
from bartpy.extensions.ols import OLS
from bartpy.samplers.oblivioustrees.treemutation import get_tree_sampler as oblivious_sampler
from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler

from suites.chain import Watcher
from suites.est import DataSet, Labelled, Player as EstPlayer, encode
from vlib.drive import describe, pmap
from vlib.num import fx

LU, LO = 10 ** 6, 10 ** 4


class RowBase(RegressorMixin, BaseEstimator):
    """remembers what it was fitted on: k times the first column plus the mean of the target"""

    def __init__(self, k=1.):
        self.k = k

    def fit(self, X, y):
        self.mean_ = float(np.mean(y))
        self.scale_ = float(np.max(y) - np.min(y))
        self.n_features_in_ = np.asarray(X).shape[1]
        return self

    def predict(self, X):
        X = np.asarray(X, dtype=float)
        return self.k * self.scale_ * X[:, 0] / 16. + self.mean_


def weighted(y, X):
    return sm.WLS(y, X, weights=1. + np.arange(len(y)) % 3)


def correlated(y, X):
    n = len(y)
    return sm.GLS(y, X, sigma=np.eye(n) * 2. + np.ones((n, n)) * 0.5)


class Middle:
    """a stat model without parameters to estimate"""

    def __init__(self, y, X):
        self.y, self.X = y, X

    def fit(self):
        return MiddleFit(np.asarray(self.y, dtype=float), np.asarray(self.X, dtype=float))


class MiddleFit:
    def __init__(self, y, X):
        self.level = np.median(y)
        self.slope = (np.max(y) - np.min(y)) / 32.
        self.fittedvalues = self.predict(X)
        self.resid = y - self.fittedvalues

    def predict(self, X):
        return self.level + self.slope * np.asarray(X, dtype=float)[:, -1]


STATS = [sm.OLS, weighted, correlated, Middle]


def base_of(rng):
    k = int(rng.integers(6))
    a = float(rng.choice([0.5, 1., 2.]))
    return [lambda: RowBase(k=a), lambda: LinearRegression(), lambda: Ridge(alpha=a), lambda: DummyRegressor(), lambda: DecisionTreeRegressor(max_depth=int(2 * a), random_state=0),
            lambda: LinearRegression(fit_intercept=False)][k]()


def base_code(b):
    t = [RowBase, LinearRegression, Ridge, DummyRegressor, DecisionTreeRegressor]
    p = b.get_params()
    return 1000 * (t.index(type(b)) + 1) + int(10 * p.get("k", 0)) + int(10 * p.get("alpha", 0)) + int(p.get("max_depth") or 0) + 100 * int(p.get("fit_intercept", 0))


class XData(DataSet):
    """moderate covariates, so that linear base models are well conditioned"""

    def __init__(self, rng, p=None):
        DataSet.__init__(self, rng, n=int(rng.integers(4, 11)), p=p or int(rng.integers(1, 4)), far=0.)
        n, p = self.A.shape
        A = rng.integers(0, 5, size=(n, p)).astype(float)
        if rng.random() < 0.2:
            A[:, 0] = 1.
        self.A = A
        self.Y = rng.integers(-20, 21, size=n)
        if len(set(self.Y)) == 1:
            self.Y[0] += 1
        y = self.Y * self.fac + self.off
        c = rng.integers(4)
        self.y = pd.Series(y, index=list(rng.permutation(n))) if c == 0 else y
        if c == 0:
            self.X = pd.DataFrame(A, index=self.y.index, columns=["c%d" % j for j in range(p)])
        else:
            self.X = pd.DataFrame(A, columns=["z%d" % j for j in rng.permutation(p)]) if c == 1 else np.array(A) if c == 2 else np.asfortranarray(A)
        self.Qs = [A, A[rng.permutation(n)], rng.integers(-2, 8, size=(int(rng.integers(1, 6)), p)).astype(float)]
        self.guard()


class Player:
    def __init__(self, rng, kind, data, spec, bart):
        self.rng, self.kind, self.data = rng, kind, data
        self.keep = {"chains": []}
        self.ev, self.est, self.at = [], [], [0]
        self.orc = [None]
        self.last, self.brk = [None], [False]
        self.held = []
        m = ResidualBART(base_estimator=spec, n_jobs=1, **bart(self.keep)) if kind == "residual" else OLS(stat_model=STATS[spec], n_jobs=1, **bart(self.keep))
        self.est.append(m)
        self.par0 = self.now(m)

    def now(self, m):
        d = encode(m, None, None)
        d["base"] = base_code(m.base_estimator) if self.kind == "residual" else next((i + 1 for i, s in enumerate(STATS) if s is m.stat_model), -1)
        return d

    def oracle(self, m, D):
        if self.kind == "residual":
            b = clone(m.base_estimator).fit(np.asarray(D.X, dtype=float), np.asarray(D.y, dtype=float))
            return b.predict
        return m.stat_model(np.asarray(D.y, dtype=float), np.asarray(D.X, dtype=float)).fit().predict

    def sp(self, e, Q):
        return [[fx(v, LU) for v in s.predict(np.asarray(Q, dtype=float))] for s in self.last[e - 1]]

    broken, answer, given, unspoilt = EstPlayer.broken, EstPlayer.answer, EstPlayer.given, EstPlayer.unspoilt

    def fit(self, e, d, how="fit"):
        m, D = self.est[e - 1], self.data[d - 1]
        self.keep["chains"].clear()
        orc = self.oracle(m, D)
        fp = None
        if how == "fit_predict":
            fp, r = m.fit_predict(D.X, D.y), m
        else:
            r = m.fit(D.X, D.y)
        self.at[e - 1], self.orc[e - 1] = d, orc
        self.last[e - 1], self.brk[e - 1] = list(m.model_samples), False
        for c in self.keep["chains"]:
            Watcher.close(c)
        self.ev.append({"op": "fit", "e": e, "d": d, "self": int(r is m), "now": self.now(m), "kept": D.kept(), "bp": D.units_of(self.orc[e - 1](D.A)),
                        "unn": D.diffs(m.data.y.unnormalized_y), "targets": [[fx(v, LU) for v in c["model"].data.y.values] for c in self.keep["chains"]],
                        "rows": int(all(np.array_equal(np.asarray(c["model"].data.X.values, dtype=float), D.A) for c in self.keep["chains"])),
                        "count": len(m.model_samples), "nt": len(m.model_samples[0].trees)})
        if fp is not None:
            self.ev.append({"op": "predict", "e": e, "kind": "fit_predict", "refused": 0, "res": D.units(fp), "sp": self.sp(e, D.A), **self.bp(e, D.A), "kept": D.kept()})

    def bp(self, e, Q):
        D = self.data[self.at[e - 1] - 1]
        return {"bp": D.units_of(self.orc[e - 1](Q)), "tbp": D.units_of(self.orc[e - 1](D.A))}

    def set(self, e, kw):
        m = self.est[e - 1]
        m2 = clone(m)          # what the parameters should become
        want = self.now(m)
        fresh = type(m)(**{**m2.get_params(deep=False), **kw})
        want = self.now(fresh)
        m.set_params(**kw)
        if "base_estimator" in kw:      # an unfitted base model cannot predict before the next fit
            self.at[e - 1] = 0
        self.ev.append({"op": "set", "e": e, "p": want, "now": self.now(m)})

    def clone(self, e):
        m = self.est[e - 1]
        c = clone(m)
        fresh = int(c.model_samples is None and (self.kind != "residual" or c.base_estimator is not m.base_estimator))
        self.est.append(c)
        self.at.append(0)
        self.orc.append(None)
        self.last.append(None)
        self.brk.append(False)
        self.ev.append({"op": "clone", "e": e, "now": self.now(c), "fresh": fresh})

    def twin(self, e):
        """another extension, built from the same objects"""
        m = self.est[e - 1]
        c = type(m)(**m.get_params(deep=False))
        self.est.append(c)
        for x, v in ((self.at, 0), (self.orc, None), (self.last, None), (self.brk, False)):
            x.append(v)
        self.ev.append({"op": "twin", "e": e, "now": self.now(c)})

    def copy(self, e):
        m = self.est[e - 1]
        c = deepcopy(m) if self.rng.random() < 0.5 else pickle.loads(pickle.dumps(m))
        self.est.append(c)
        for x in (self.at, self.orc, self.last, self.brk):
            x.append(x[e - 1])
        self.ev.append({"op": "copy", "e": e, "now": self.now(c)})

    def predict(self, e):
        m = self.est[e - 1]
        if not self.at[e - 1]:
            self.answer(e, {"op": "predict", "e": e}, lambda rec: m.predict(np.array(self.data[0].A)))
            return
        D = self.data[self.at[e - 1] - 1]
        k = self.rng.integers(3)
        Q = D.A if k == 0 else D.Qs[self.rng.integers(len(D.Qs))]

        def ask(rec):
            if k == 0:
                r = m.predict()
            else:
                r = m.predict(pd.DataFrame(Q, columns=D.X.columns) if isinstance(D.X, pd.DataFrame) and k == 1 else np.array(Q))
            rec.update({"res": D.units(self.given(np.asarray(r))), "kept": int(D.kept() and self.unspoilt())})
        self.answer(e, {"op": "predict", "e": e, "kind": "in sample" if k == 0 else "new", "sp": self.sp(e, Q), **self.bp(e, Q)}, ask)

    def scribble(self, e):
        d = self.at[e - 1]
        self.data[d - 1].scribble(self.rng)
        self.ev.append({"op": "scribble", "d": d})

    def resid(self, e):
        m = self.est[e - 1]
        D = self.data[self.at[e - 1] - 1]
        k = self.rng.integers(3)
        Q, y, truth = D.A, np.asarray(D.y, dtype=float), [int(v) * LO for v in D.Y]
        if k == 2:
            Q = D.Qs[self.rng.integers(len(D.Qs))]
            base = self.rng.integers(-20, 21, size=len(Q))
            y, truth = base * D.fac + D.off, [int(v) * LO for v in base]

        def ask(rec):
            r, l2 = (m.residuals(), m.l2_error()) if k == 0 else (m.residuals(np.array(Q), y), m.l2_error(np.array(Q), y))
            rec.update({"res": D.diffs(self.given(r)), "l2": [fx(v / D.fac ** 2, LO) for v in np.asarray(l2)], "kept": int(D.kept() and self.unspoilt())})
        self.answer(e, {"op": "resid", "e": e, "kind": ["stored", "train", "new"][k], "y": truth, "sp": self.sp(e, Q), **self.bp(e, Q)}, ask)

    def trace(self):
        return {"Y": [[int(v) for v in D.Y] for D in self.data], "par": self.par0, "ev": self.ev}


def _units_of(self, xs):
    return self.units(np.asarray(xs, dtype=float))


XData.units_of = _units_of


def bart_params(rng, keep):
    lab = int(rng.integers(2))
    return dict(n_trees=int(rng.choice([1, 2, 3, 5])), n_chains=int(rng.choice([1, 2, 3])), n_samples=int(rng.integers(1, 6)), n_burn=int(rng.integers(0, 3)),
                store_in_sample_predictions=bool(rng.integers(2)), store_acceptance_trace=bool(rng.integers(2)), thin=1.0,
                alpha=float(rng.choice([0.5, 0.8, 0.95])), beta=float(rng.choice([0.5, 1., 2.])), sigma_a=float(rng.choice([1., 2.])), sigma_b=float(rng.choice([0.1, 0.5])),
                tree_sampler=Labelled([get_tree_sampler(0.5, 0.5), oblivious_sampler(0.5, 0.5)][lab], keep, lab))


def generated(seed, hist, kind):
    """a history of MCExt on a real extension"""
    rng = np.random.default_rng(seed)
    np.random.seed(seed % (2 ** 32))
    p = int(rng.integers(1, 4)) if rng.random() < 0.6 else None       # alike in width: what one fit left could serve another
    data = [XData(rng, p), XData(rng, p)]
    bases = [RowBase(k=2.), Ridge(alpha=1.)] if seed % 2 else [LinearRegression(), RowBase(k=.5)]
    specs = bases if kind == "residual" else [int(v) for v in rng.permutation(4)[:2]]

    def bart(keep):
        return dict(n_trees=2, n_chains=1, n_samples=3, n_burn=1, thin=1.0, sigma_a=1., sigma_b=0.5, tree_sampler=Labelled(get_tree_sampler(0.5, 0.5), keep, 0))
    P = Player(rng, kind, data, clone(specs[0]) if kind == "residual" else specs[0], bart)
    try:
        for op in hist:
            if op[0] == "fit":
                P.fit(op[1], op[2])
            elif op[0] == "broken":
                P.broken(op[1], op[2])
            elif op[0] == "set":
                kw = {"n_trees": op[2]["nt"]}
                if kind == "residual":
                    kw["base_estimator"] = clone(specs[op[2]["base"] - 1])
                else:
                    kw["stat_model"] = STATS[specs[op[2]["base"] - 1]]
                P.set(op[1], kw)
            elif op[0] == "clone":
                P.clone(op[1])
            elif op[0] == "twin":
                P.twin(op[1])
            elif op[0] == "copy":
                P.copy(op[1])
            elif op[0] == "predict" and (P.at[op[1] - 1] or P.brk[op[1] - 1]):
                P.predict(op[1])
    except Exception as e:
        P.ev.append({"op": "error", "what": describe(e)})
    return P.trace()


def random_history(seed, kind, n_events):
    rng = np.random.default_rng(seed)
    np.random.seed(seed % (2 ** 32))
    p = int(rng.integers(1, 4)) if rng.random() < 0.6 else None
    data = [XData(rng, p) for _ in range(3)]
    P = Player(rng, kind, data, (None if rng.random() < 0.3 else base_of(rng)) if kind == "residual" else int(rng.integers(4)), lambda keep: bart_params(rng, keep))
    try:
        for _ in range(n_events):
            e = int(rng.integers(len(P.est))) + 1
            r = rng.random()
            if P.at[e - 1] == 0 and r < 0.7 or r < 0.2:
                P.fit(e, int(rng.integers(3)) + 1, "fit_predict" if rng.random() < 0.25 else "fit")
            elif r < 0.28:
                P.broken(e, int(rng.integers(3)) + 1)
                if P.at[e - 1] and rng.random() < 0.5:
                    [P.predict, P.resid][rng.integers(2)](e)
            elif r < 0.36:
                full = bart_params(rng, P.keep)
                full["base_estimator" if kind == "residual" else "stat_model"] = base_of(rng) if kind == "residual" else STATS[rng.integers(4)]
                ks = list(rng.choice(sorted(full), size=int(rng.integers(1, 5)), replace=False))
                P.set(e, {k: full[k] for k in ks})
            elif r < 0.5 and len(P.est) < 5:
                [P.clone, P.copy, P.twin][rng.integers(3)](e)
            elif P.at[e - 1] and r < 0.58:
                P.scribble(e)
            elif P.brk[e - 1] and not P.at[e - 1]:
                P.predict(e)
            elif P.at[e - 1]:
                [P.predict, P.resid][rng.integers(2)](e)
    except Exception as e:
        P.ev.append({"op": "error", "what": describe(e)})
    return P.trace()


def run(ctx):
    r = ctx.design("MCExt", ctx.n("MCExt", "MCExtDeep"))
    ctx.refuted("MCExt", "MCExtShared")
    hs, seen = [], set()
    for h in r.printed("@T"):
        if h[-1][0] != "set" and str(h) not in seen:
            seen.add(str(h))
            hs.append(h)
    rng = np.random.default_rng(ctx.seed)
    k = ctx.n(400, 4000)
    if len(hs) > k:
        hs = [hs[i] for i in sorted(rng.permutation(len(hs))[:k])]
    kws = [dict(seed=500 + i, hist=h, kind=kind) for kind in ("residual", "ols") for i, h in enumerate(hs)]
    ctx.validate("TraceExt", pmap(generated, kws), "ext.generated", kws)
    ctx.replay(len(kws))
    kws = [dict(seed=s, kind=kind, n_events=16) for kind in ("residual", "ols") for s in ctx.seeds(ctx.n(80, 1500), "ext" + kind)]
    ctx.validate("TraceExt", pmap(random_history, kws), "ext.random_history", kws)
