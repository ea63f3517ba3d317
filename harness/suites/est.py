"""C12 and C11: the estimator interface and its units."""
import os
import pickle
from copy import deepcopy
from fractions import Fraction

import numpy as np
import pandas as pd
from sklearn.base import clone

from bartpy.data import Data
from bartpy.initializers.initializer import Initializer
from bartpy.initializers.sklearntreeinitializer import SklearnTreeInitializer
from bartpy.model import Model
from bartpy.samplers.leafnode import LeafNodeSampler
from bartpy.samplers.modelsampler import ModelSampler
from bartpy.samplers.oblivioustrees.treemutation import get_tree_sampler as oblivious_sampler
from bartpy.samplers.schedule import SampleSchedule
from bartpy.samplers.sigma import SigmaSampler
from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
from bartpy.sigma import Sigma
from bartpy.sklearnmodel import SklearnModel
from bartpy.trace import TraceLogger

from suites.chain import Watcher
from vlib import gen
from vlib.drive import describe, pmap
from vlib.num import fx

LU, LO = 10 ** 6, 10 ** 4


class DataSet:
    """covariates in some guise, target in integer base units times factor plus offset"""

    def __init__(self, rng, n=None, p=None, simple=False, far=0.08):
        n = int(n or rng.integers(2, 10))
        p = int(p or rng.integers(1, 4))
        self.A = np.asarray(gen.matrix(rng, n=n, p=p), dtype=float)
        self.Y = rng.integers(-20, 21, size=n)
        if n > 2 and rng.random() < 0.08:
            self.Y[:] = self.Y[0]
        self.fac = 1. if simple else 2. ** float(rng.integers(-8, 9) if rng.random() < 0.75 else rng.choice([-40, -25, 25, 40]))
        self.off = 0. if simple else self.fac * float(rng.choice([0, 0, 100, -1000]))
        if not simple and rng.random() < far:       # far from zero, compared to its range
            self.Y = rng.integers(-3, 4, size=n)
            self.off = self.fac * 2. ** float(rng.choice([20, 30, 36]))
        y = self.Y * self.fac + self.off
        c = 0 if simple else rng.integers(6)
        if c == 1 and np.all(y == np.round(y)) and np.abs(y).max() < 100:
            y = y.astype(rng.choice([np.int8, np.int32, np.int64]))
        if c == 2 and np.array_equal(y.astype(np.float32), y):
            y = y.astype(np.float32)
        if c == 3:
            y = pd.Series(y, index=list(rng.permutation(n)), name="t")
        self.y = y
        k = 0 if simple else rng.integers(5)
        self.X = np.array(self.A)
        if k == 1:
            self.X = pd.DataFrame(self.A, columns=["c%d" % j for j in rng.permutation(p)], index=list(rng.permutation(n) + 5))
        elif k == 2:
            self.X = pd.DataFrame({"z%d" % j: self.A[:, j].astype(int) if np.abs(self.A[:, j]).max() < 1e6 and np.all(self.A[:, j] == np.round(self.A[:, j])) else self.A[:, j] for j in range(p)})
        elif k == 3:
            self.X = gen.layout(rng, self.A)
        self.Qs = [self.A] + [q for q in gen.queries(rng, self.A, 2) if len(q)]
        if not simple and p < 3 and rng.random() < 0.03:
            self.Qs.append(gen.many(rng, self.A))
        self.guard()

    def guard(self):
        self.copy = pickle.dumps((self.X, self.y, [np.array(q) for q in self.Qs]))

    def kept(self):
        X, y, Q = pickle.loads(self.copy)
        same = type(X) == type(self.X) and np.array_equal(np.asarray(X), np.asarray(self.X)) and np.asarray(X).dtype == np.asarray(self.X).dtype
        same = same and np.array_equal(np.asarray(y), np.asarray(self.y)) and np.asarray(y).dtype == np.asarray(self.y).dtype
        if isinstance(X, pd.DataFrame):
            same = same and X.equals(self.X) and list(X.columns) == list(self.X.columns) and list(X.index) == list(self.X.index)
        if isinstance(y, pd.Series):
            same = same and list(y.index) == list(self.y.index)
        return int(same and all(np.array_equal(a, b) for a, b in zip(Q, self.Qs)))

    def scribble(self, rng):
        """overwrite in place the very arrays handed to fit; later fits get fresh ones"""
        X, y, Q = pickle.loads(self.copy)
        for a in (self.X, self.y):
            v = a.to_numpy() if hasattr(a, "to_numpy") else a
            if isinstance(a, np.ndarray) and np.shares_memory(a, self.A):
                continue
            z = np.array(v)[rng.permutation(len(v))]
            if z.dtype != bool and rng.random() < 0.5:
                z = z // 2 + 1
            try:
                if hasattr(a, "iloc"):
                    a.iloc[:] = z
                    w = a.values
                    if w.flags.writeable and rng.random() < 0.5:
                        w[:] = z
                else:
                    a[:] = z
            except (ValueError, TypeError):
                pass
        self.X, self.y = X, y
        self.guard()

    def units(self, xs):
        return [fx((float(x) - self.off) / self.fac, LO) for x in np.asarray(xs, dtype=float)]

    def diffs(self, xs):
        return [fx(float(x) / self.fac, LO) for x in np.asarray(xs, dtype=float)]


PAR = {"nt": "n_trees", "chains": "n_chains", "samp": "n_samples", "burn": "n_burn", "wantp": "store_in_sample_predictions", "wanta": "store_acceptance_trace"}


def encode(m, samplers, inits):
    p = m.get_params(deep=False)
    f = Fraction(p["thin"]).limit_denominator(1000)
    ts, ini = p["tree_sampler"], p["initializer"]
    return {"nt": int(p["n_trees"]), "chains": int(p["n_chains"]), "samp": int(p["n_samples"]), "burn": int(p["n_burn"]),
            "wantp": int(bool(p["store_in_sample_predictions"])), "wanta": int(bool(p["store_acceptance_trace"])),
            "tn": f.numerator, "td": f.denominator, "al": fx(p["alpha"], LU), "be": fx(p["beta"], LU), "sa": fx(p["sigma_a"], LU), "sb": fx(p["sigma_b"], LU),
            "ts": getattr(ts, "label", -1), "ini": -1 if ini is None else int(ini.max_depth), "jobs": int(p["n_jobs"])}


class Labelled(Watcher):
    def __init__(self, inner, keep, label):
        Watcher.__init__(self, inner, keep)
        self.label = label

    def __deepcopy__(self, memo):
        return Labelled(deepcopy(self.inner, memo), self.keep, self.label)

    def __reduce__(self):       # the record stays in this process
        KEEPS[id(self.keep)] = self.keep
        return relabel, (self.inner, id(self.keep), self.label)


KEEPS = {}


def relabel(inner, keep, label):
    return Labelled(inner, KEEPS[keep], label)


def random_params(rng, keep):
    f = Fraction(int(rng.integers(1, 11)), 10)
    lab = int(rng.integers(2))
    return dict(n_trees=int(rng.choice([1, 2, 3, 5])), n_chains=int(rng.choice([1, 2, 3])), n_samples=int(rng.integers(1, 8)), n_burn=int(rng.integers(0, 4)),
                store_in_sample_predictions=bool(rng.integers(2)), store_acceptance_trace=bool(rng.integers(2)), thin=float(f),
                alpha=float(rng.choice([0.5, 0.8, 0.95])), beta=float(rng.choice([0.5, 1., 2.])), sigma_a=float(rng.choice([1., 2., 3.])), sigma_b=float(rng.choice([0.1, 0.5, 1.])),
                tree_sampler=Labelled([get_tree_sampler(0.5, 0.5), oblivious_sampler(0.5, 0.5)][lab], keep, lab),
                initializer=None if rng.random() < 0.7 else SklearnTreeInitializer(max_depth=int(rng.integers(1, 4))))


class Refusing(Initializer):
    """an initializer that fails at its k-th tree"""

    def __init__(self, left, fault):
        self.left, self.fault = left, fault

    def initialize_tree(self, tree):
        if self.left == 0:
            raise self.fault()
        self.left -= 1


class Player:
    def __init__(self, rng, params, data):
        self.rng, self.data = rng, data
        self.keep = {"chains": []}
        self.ev = []
        self.est = [SklearnModel(n_jobs=1, **params(self.keep))]
        self.par0 = encode(self.est[0], None, None)
        self.at = [0]
        self.last, self.brk = [None], [False]
        self.held = []          # results the caller still holds, with what they were

    def now(self, m):
        return encode(m, None, None)

    def fit(self, e, d, how="fit"):
        m, D = self.est[e - 1], self.data[d - 1]
        self.keep["chains"].clear()
        if how == "fit_predict":
            self.fp = m.fit_predict(D.X, D.y)
            r = m
        else:
            r = m.fit(D.X, D.y)
        self.at[e - 1] = d
        self.last[e - 1], self.brk[e - 1] = list(m.model_samples), False
        for c in self.keep["chains"]:
            Watcher.close(c)
        self.ev.append({"op": "fit", "e": e, "d": d, "self": int(r is m), "now": self.now(m), "kept": D.kept(),
                        "models": [[int(s.n_trees) if len(s.trees) == s.n_trees else -1, fx(s.alpha, LU), fx(s.beta, LU), fx(s.sigma.alpha, LU), fx(s.sigma.beta, LU)] for s in m.model_samples],
                        "preds": len(m.prediction_samples), "accs": len(m.acceptance_trace), "chains": [len(c["sweeps"]) for c in self.keep["chains"]],
                        "targets": [[fx(v, LU) for v in c["model"].data.y.values] for c in self.keep["chains"]]})
        if how == "fit_predict":
            self.ev.append({"op": "pq", "e": e, "kind": "fit_predict", "refused": 0, "res": D.units(self.fp), "sp": self.sp(e, D.A), "kept": D.kept()})

    def broken(self, e, d):
        """a fit in which a chain breaks off before the end"""
        m, D = self.est[e - 1], self.data[d - 1]
        self.keep["chains"].clear()
        steps = m.n_trees * m.n_chains * (m.n_burn + m.n_samples)
        self.keep["fuse"], self.keep["fault"] = int(self.rng.integers(steps)), [RuntimeError, KeyboardInterrupt, MemoryError, ValueError][self.rng.integers(4)]
        rec = {"op": "broken", "e": e, "d": d, "raised": 0}
        ini = m.initializer
        early = self.rng.random() < 0.4         # already the trees cannot be initialised
        if early:
            self.keep["fuse"] = None
            m.set_params(initializer=Refusing(int(self.rng.integers(m.n_trees * (1 + m.n_chains))), self.keep["fault"]))
        try:
            m.fit(D.X, D.y)
        except BaseException as x:
            if isinstance(x, self.keep["fault"]) and self.keep["fuse"] is None:
                rec["raised"] = 1
            else:
                raise
        self.keep["fuse"] = None
        if early:
            m.set_params(initializer=ini)
        self.brk[e - 1] = True
        self.ev.append({**rec, "now": self.now(m), "kept": D.kept()})

    def given(self, r):
        """a result: the caller keeps it to look at later, or overwrites it"""
        v = np.array(r)
        if self.rng.random() < 0.4:
            self.held.append((r, v))
        else:
            gen.use(self.rng, r)
        return v

    def unspoilt(self):
        return int(all(np.array_equal(r, v) for r, v in self.held))

    def answer(self, e, rec, fn):
        """fn fills rec with the answers of the estimator; after a broken fit it may refuse instead"""
        if not self.brk[e - 1]:
            rec["refused"] = 0
            fn(rec)
        else:
            full = dict(rec)
            rec["refused"] = 1
            try:
                fn(full)
                full["refused"] = 0
                rec = full
            except Exception:
                pass
        self.ev.append(rec)

    def sp(self, e, Q):
        return [[fx(v, LU) for v in s.predict(np.asarray(Q, dtype=float))] for s in self.last[e - 1]]

    def set(self, e, kw):
        m = self.est[e - 1]
        before = self.now(m)
        m.set_params(**kw)
        tmp = SklearnModel(**{**{k: v for k, v in m.get_params(deep=False).items()}, **kw})
        want = encode(tmp, None, None)
        self.ev.append({"op": "set", "e": e, "p": {k: v for k, v in want.items() if v != before[k]} or {"nt": want["nt"]}, "now": self.now(m)})

    def clone(self, e):
        c = clone(self.est[e - 1])
        self.est.append(c)
        self.at.append(0)
        self.last.append(None)
        self.brk.append(False)
        self.ev.append({"op": "clone", "e": e, "now": self.now(c)})

    def copy(self, e):
        m = self.est[e - 1]
        c = deepcopy(m) if self.rng.random() < 0.5 else pickle.loads(pickle.dumps(m))
        self.est.append(c)
        for x in (self.at, self.last, self.brk):
            x.append(x[e - 1])
        self.ev.append({"op": "copy", "e": e, "now": self.now(c)})

    def empty(self, e):
        m = self.est[e - 1]
        k = self.rng.integers(4)
        X = [np.zeros((0, 2)), np.zeros((3, 0)), pd.DataFrame(np.zeros((0, 1))), pd.DataFrame(index=[0, 1])][k]
        y = np.arange(float(len(X)))
        rec = {"op": "empty", "e": e, "raised": 0, "exc": ""}
        try:
            m.fit(X, y)
        except Exception as x:
            rec.update(raised=1, exc=type(x).__name__)
        self.ev.append(rec)

    def pin(self, e):
        m = self.est[e - 1]
        rec = {"op": "pin", "e": e, "raised": 0, "exc": "", "res": [], "sp": [[0]]}
        try:
            r = m.predict()
            if self.at[e - 1]:
                D = self.data[self.at[e - 1] - 1]
                rec.update(res=D.units(self.given(np.atleast_1d(r))), sp=self.sp(e, D.A))
        except Exception as x:
            rec.update(raised=1, exc=type(x).__name__)
        self.ev.append(rec)

    def pq(self, e):
        m = self.est[e - 1]
        if not self.at[e - 1]:
            self.answer(e, {"op": "pq", "e": e}, lambda rec: m.predict(np.array(self.data[0].A)))
            return
        D = self.data[self.at[e - 1] - 1]
        Q = D.Qs[self.rng.integers(len(D.Qs))]
        frame = self.rng.random() < 0.4
        if self.rng.random() < 0.5:      # the caller's own matrix object, asked for before and perhaps changed since
            i = next(i for i in range(len(D.Qs)) if D.Qs[i] is Q)
            if i > 0 and self.rng.random() < 0.5:
                Q[:] = Q[self.rng.permutation(len(Q))]
                D.guard()
            A, frame = Q, False
            Q = np.array(Q)
        else:
            A = pd.DataFrame(Q, index=range(3, 3 + len(Q))) if frame else np.array(Q)

        def ask(rec):
            rec["res"] = D.units(self.given(m.predict(A)))
            rec["kept"] = int(D.kept() and self.unspoilt() and np.array_equal(np.asarray(A), Q))
        self.answer(e, {"op": "pq", "e": e, "kind": "frame" if frame else "array", "sp": self.sp(e, Q)}, ask)

    def scribble(self, e):
        d = self.at[e - 1]
        self.data[d - 1].scribble(self.rng)
        self.ev.append({"op": "scribble", "d": d})

    def resid(self, e):
        m = self.est[e - 1]
        D = self.data[self.at[e - 1] - 1]
        c = self.rng.integers(3)
        if c == 0:              # training rows against the training target
            Q, y = D.A, None
            truth = np.asarray(D.Y * LO)
        else:
            Q = D.Qs[self.rng.integers(len(D.Qs))]
            base = self.rng.integers(-20, 21, size=len(Q))
            truth = base * LO
            y = base * D.fac + D.off
        rec = {"op": "resid", "e": e, "kind": ["train", "new", "new"][c], "y": [int(v) for v in truth], "sp": self.sp(e, Q)}

        def ask(rec):
            rec["res"] = D.diffs(self.given(m.residuals(np.array(Q), y) if y is not None else m.residuals(np.array(Q))))
            rec["l2"] = [fx(v / D.fac ** 2, LO) for v in np.asarray(m.l2_error(np.array(Q), y))]
            if y is not None and len(Q) <= 100:
                rec["rmse"] = fx(m.rmse(np.array(Q), y) / D.fac, 100)
            rec["kept"] = int(D.kept() and self.unspoilt())
        self.answer(e, rec, ask)

    def trace(self):
        return {"Y": [[int(v) for v in D.Y] for D in self.data], "par": self.par0, "ev": self.ev}


def generated(seed, hist):
    """a history of MCEst on real estimators"""
    rng = np.random.default_rng(seed)
    np.random.seed(seed % (2 ** 32))
    data = [DataSet(rng), DataSet(rng), DataSet(rng)]

    def params(keep):
        return dict(n_trees=2, n_chains=1, n_samples=3, n_burn=1, thin=1.0, sigma_a=1., sigma_b=0.5, store_in_sample_predictions=False,
                    tree_sampler=Labelled(get_tree_sampler(0.5, 0.5), keep, 0))
    P = Player(rng, params, data)
    try:
        for op in hist:
            if op[0] == "fit":
                P.fit(op[1], op[2])
            elif op[0] == "broken":
                P.broken(op[1], op[2])
            elif op[0] == "set":
                P.set(op[1], dict(n_trees=op[2]["nt"], n_chains=op[2]["chains"], store_in_sample_predictions=bool(op[2]["wantp"])))
            elif op[0] == "clone":
                P.clone(op[1])
            elif op[0] == "copy":
                P.copy(op[1])
            elif op[0] == "empty":
                P.empty(op[1])
            elif op[0] == "pin":
                P.pin(op[1])
            elif op[0] == "pq":
                P.pq(op[1])
    except Exception as e:
        P.ev.append({"op": "error", "what": describe(e)})
    return P.trace()


def random_history(seed, n_events):
    rng = np.random.default_rng(seed)
    np.random.seed(seed % (2 ** 32))
    data = [DataSet(rng) for _ in range(3)]
    P = Player(rng, lambda keep: random_params(rng, keep), data)
    try:
        for _ in range(n_events):
            e = int(rng.integers(len(P.est))) + 1
            r = rng.random()
            if P.at[e - 1] == 0 and r < 0.6 or r < 0.2:
                P.fit(e, int(rng.integers(3)) + 1, "fit_predict" if rng.random() < 0.25 else "fit")
            elif r < 0.25:
                P.broken(e, int(rng.integers(3)) + 1)
            elif r < 0.35:
                full = random_params(rng, P.keep)
                ks = list(rng.choice(sorted(full), size=int(rng.integers(1, 5)), replace=False))
                P.set(e, {k: full[k] for k in ks})
            elif r < 0.45 and len(P.est) < 5:
                [P.clone, P.copy][rng.integers(2)](e)
            elif r < 0.5:
                P.empty(e)
            elif P.at[e - 1] and r < 0.57:
                P.scribble(e)
            elif P.brk[e - 1] and not P.at[e - 1]:
                [P.pin, P.pq][rng.integers(2)](e)
            elif P.at[e - 1]:
                [P.pin, P.pq, P.pq, P.resid, P.resid][rng.integers(5)](e)
    except Exception as e:
        P.ev.append({"op": "error", "what": describe(e)})
    return P.trace()


# ------------------------------------------------------------------------------------------------ units

def units(seed):
    rng = np.random.default_rng(seed)
    np.random.seed(seed % (2 ** 32))
    ev = []
    try:
        for _ in range(4):
            D = DataSet(rng)
            y = np.asarray(D.y).astype(float) if rng.random() < 0.7 or np.asarray(D.y).dtype.itemsize < 4 else np.asarray(D.y)
            data = Data(np.array(D.A), np.array(y), normalize=True)
            v = np.asarray(data.y.values, dtype=float)
            t = data.y
            probe = [int(z) for z in rng.integers(-1500000, 1500001, size=3)]
            back = t.unnormalize_y(np.array(probe) / LU)
            yi = [int(q) for q in D.Y]
            order = all((v[i] < v[j]) == (yi[i] < yi[j]) for i in range(len(yi)) for j in range(len(yi)))
            ev.append({"op": "norm", "y": yi, "vals": [fx(q, LU) for q in v], "ends": [int(v.min() == -0.5), int(v.max() == 0.5)], "order": int(order),
                       "scale": fx(t.normalizing_scale / D.fac, LO), "back": D.units(t.unnormalized_y), "probe": [[p, q] for p, q in zip(probe, D.units(back))]})
            sigma = Sigma(1., 0.5, t.normalizing_scale)
            model = Model(data, sigma, n_trees=int(rng.integers(1, 4)), initializer=None)
            s = ModelSampler(SampleSchedule(get_tree_sampler(0.5, 0.5), LeafNodeSampler(), SigmaSampler()))
            for _ in range(3):
                s.step(model, TraceLogger())
            if sigma.current_value() < 900:
                ev.append({"op": "model", "y": yi, "p": [fx(q, LU) for q in model.predict()], "res": D.diffs(model.unnormalized_residuals()),
                           "sg": fx(model.sigma.current_value(), LU), "noise": fx(model.sigma.current_unnormalized_value() / D.fac, LO)})
    except Exception as e:
        ev.append({"op": "error", "what": describe(e)})
    return {"Y": [[0]], "par": {"wantp": 0}, "ev": ev}


def in_child(fn):
    """fn() in a forked copy of this very process, so that two calls see the same generator and buffers"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = pickle.dumps(("ok", fn()))
            except BaseException as e:
                out = pickle.dumps(("error", describe(e) if isinstance(e, Exception) else repr(e)))
            with os.fdopen(w, "wb") as f:
                f.write(out)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        out = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(out)


def equivariance(seed):
    rng = np.random.default_rng(seed)
    np.random.seed(seed % (2 ** 32))
    ev = []
    D = DataSet(rng, simple=True)
    a, b = int(rng.choice([1, 2, 4, 8])), int(rng.integers(-50, 51))
    if rng.random() < 0.1:
        D.Y[:] = D.Y[0]
    kw = dict(n_trees=int(rng.integers(1, 5)), n_chains=int(rng.integers(1, 3)), n_samples=4, n_burn=2, thin=1.0, n_jobs=1, store_in_sample_predictions=True,
              initializer=None if rng.random() < 0.6 else SklearnTreeInitializer(max_depth=2))
    big = 2. ** float(rng.choice([-30, -10, 0, 10, 30]))

    def go(scale, shift, unit):
        m = SklearnModel(**kw)
        m.fit(D.A, (D.Y * scale + shift) * unit)
        Q = D.Qs[-1]
        return [fx(v / unit, LO) for v in list(m.predict()) + list(m.predict(Q))]
    try:
        k1, p1 = in_child(lambda: go(1., 0., 1.))
        k2, p2 = in_child(lambda: go(float(a), float(b), big))
        if "error" in (k1, k2):
            ev.append({"op": "error", "what": str(p1 if k1 == "error" else p2)})
        else:
            ev.append({"op": "equiv", "a": a, "b": b, "p1": p1, "p2": p2})
    except Exception as e:
        ev.append({"op": "error", "what": describe(e)})
    return {"Y": [[0]], "par": {"wantp": 0}, "ev": ev}


def plenty(seed):
    """very many stored samples: each one counts"""
    rng = np.random.default_rng(seed)
    np.random.seed(seed % (2 ** 32))
    ev = []
    D = DataSet(rng, n=int(rng.integers(4, 7)), simple=True)
    D.Y[:2] = [-20, 20]
    nc, total = int(rng.choice([1, 2, 4])), int(rng.choice([200, 520, 1100, 2100]))
    want = bool(rng.integers(2))
    try:
        m = SklearnModel(n_trees=int(rng.choice([1, 1, 2])), n_chains=nc, n_samples=total // nc, n_burn=0, thin=1.0, n_jobs=1, store_in_sample_predictions=want)
        m.fit(D.A, D.Y.astype(float))
        for Q, got in [(D.A, m.predict(D.A)), (D.Qs[-1][:6], m.predict(D.Qs[-1][:6]))] + ([(D.A, m.predict())] if want else []):
            ev.append({"op": "plenty", "y": [int(v) for v in D.Y], "n": len(m.model_samples), "want": (total // nc) * nc,
                       "sums": [int(v) for v in np.sum([[fx(v, LU) for v in s.predict(np.asarray(Q, dtype=float))] for s in m.model_samples], axis=0)],
                       "res": [fx(v, LO) for v in got]})
    except Exception as e:
        ev.append({"op": "error", "what": describe(e)})
    return {"Y": [[0]], "par": {"wantp": 0}, "ev": ev}


def run(ctx):
    if ctx.cid == "C12":
        kws = [dict(seed=s) for s in ctx.seeds(ctx.n(16, 200), "plenty")]
        ctx.validate("TraceEst", pmap(plenty, kws), "est.plenty", kws)
        r = ctx.design("MCEst", ctx.n("MCEst", "MCEstDeep"))
        hs = [h for h in r.printed("@T") if h[-1][0] != "set"]
        rng = np.random.default_rng(ctx.seed)
        if ctx.quick:
            hs = [hs[i] for i in sorted(rng.permutation(len(hs))[:1200])]
        kws = [dict(seed=100 + i, hist=h) for i, h in enumerate(hs)]
        ctx.validate("TraceEst", pmap(generated, kws), "est.generated", kws)
        ctx.replay(len(hs))
    kws = [dict(seed=s, n_events=20) for s in ctx.seeds(ctx.n(150, 2500), "est")]
    ctx.validate("TraceEst", pmap(random_history, kws), "est.random_history", kws)
    if ctx.cid == "C11":
        ctx.design("MCUnits", ctx.n("MCUnits", "MCUnitsDeep"))
        kws = [dict(seed=s) for s in ctx.seeds(ctx.n(300, 4000), "units")]
        ctx.validate("TraceEst", pmap(units, kws), "est.units", kws)
        kws = [dict(seed=s) for s in ctx.seeds(ctx.n(150, 2000), "equiv")]
        ctx.validate("TraceEst", pmap(equivariance, kws), "est.equivariance", kws)
