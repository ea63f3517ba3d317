"""C21: the same program from the same seed in several fresh processes."""
import gc
import hashlib
import json
import os
import random
import struct
import subprocess
import sys
import time
import warnings

import joblib
import numpy as np
import pandas as pd
from sklearn.base import clone
from sklearn.linear_model import LinearRegression

from bartpy.data import Data
from bartpy.diagnostics.features import null_feature_split_proportions_distribution
from bartpy.extensions.baseestimator import ResidualBART
from bartpy.features.featureimportance import feature_importance
from bartpy.features.featureselection import SelectNullDistributionThreshold, SelectSplitProportionThreshold
from bartpy.initializers.sklearntreeinitializer import SklearnTreeInitializer
from bartpy.model import Model
from bartpy.runner import run_models
from bartpy.samplers.leafnode import LeafNodeSampler
from bartpy.samplers.modelsampler import ModelSampler
from bartpy.samplers.oblivioustrees.treemutation import get_tree_sampler as oblivious_sampler
from bartpy.samplers.schedule import SampleSchedule
from bartpy.samplers.sigma import SigmaSampler
from bartpy.samplers.treemutation import TreeMutationSampler
from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
from bartpy.sigma import Sigma
from bartpy.sklearnmodel import SklearnModel

from suites.est import in_child
from vlib import env, gen
from vlib.drive import LIMITS, describe, pmap, quiet


class Jitter(TreeMutationSampler):
    """takes its time, differently in every process and every run, which is nobody's business"""

    def __init__(self, inner):
        self.inner = inner

    def step(self, model, tree):
        if random.SystemRandom().random() < 0.05:
            time.sleep(random.SystemRandom().random() * 0.02)
        return self.inner.step(model, tree)


def feed(h, x):
    """exact content of a result"""
    if isinstance(x, dict):
        for k in sorted(x, key=str):
            h.update(str(k).encode())
            feed(h, x[k])
    elif isinstance(x, (list, tuple)):
        h.update(b"[%d" % len(x))
        for v in x:
            feed(h, v)
    elif isinstance(x, np.ndarray):
        if x.dtype == object:
            feed(h, list(x))
        else:
            h.update(str(x.shape).encode())
            h.update(np.ascontiguousarray(x, dtype=float).tobytes())
    elif isinstance(x, Model):
        feed(h, [tree_content(t) for t in x.trees])
        feed(h, float(x.sigma.current_value()))
    elif x is None:
        h.update(b"-")
    else:
        h.update(struct.pack("d", float(x)))


def tree_content(t):
    kids = {id(c) for n in t.nodes for c in (n.left_child, n.right_child) if c is not None}
    out = []

    def go(n):
        if n.left_child is None:
            out.append([0., float(n.current_value)])
        else:
            c = n.left_child.split.most_recent_split_condition()
            out.append([1., float(c.splitting_variable), float(c.splitting_value)])
            go(n.left_child)
            go(n.right_child)
    for r in t.nodes:
        if id(r) not in kids:
            go(r)
    return out


def digest(*xs):
    h = hashlib.sha256()
    feed(h, list(xs))
    return int(h.hexdigest()[:7], 16)


def fitted(m, Q):
    return digest(list(m.model_samples), list(m.prediction_samples), list(m.acceptance_trace), np.asarray(m.predict(Q)))


def problem(rng):
    X = np.asarray(gen.matrix(rng, n=rng.integers(3, 25), p=rng.integers(1, 5)), dtype=float)
    y = rng.integers(-20, 21, size=len(X)) + rng.normal(size=len(X))
    return X, y


def params(rng):
    return dict(n_trees=int(rng.choice([1, 3, 8, 20])), n_chains=int(rng.choice([1, 2, 3])), n_samples=int(rng.integers(1, 8)), n_burn=int(rng.integers(0, 5)), thin=1.0,
                store_in_sample_predictions=True, store_acceptance_trace=True, alpha=float(rng.choice([0.5, 0.95])), beta=float(rng.choice([0.5, 2.])),
                initializer=None if rng.random() < 0.7 else SklearnTreeInitializer(max_depth=int(rng.integers(1, 4))))


def samplers(rng):
    """None: the estimator's own default"""
    return [None, get_tree_sampler(0.5, 0.5), get_tree_sampler(0.7, 0.3), oblivious_sampler(0.5, 0.5)][rng.integers(4)]


def make(rng, jobs=1):
    kw = params(rng)
    ts = samplers(rng)
    if jobs != 1:
        ts = Jitter(ts or get_tree_sampler(0.5, 0.5))
    if ts is not None:
        kw["tree_sampler"] = ts
    return SklearnModel(n_jobs=jobs, **kw)


def here(rng, kept):
    """one operation in this process: what it was, and its result"""
    X, y = problem(rng)
    k = int(rng.integers(9))
    if k <= 1:
        m = make(rng).fit(X, y)
        kept.append(m)
        return "fit", fitted(m, X)
    if k == 2 and kept:
        m = kept[rng.integers(len(kept))]
        if rng.random() < 0.5:
            m = clone(m)
        return "fit again", fitted(m.fit(pd.DataFrame(X), y), X)
    if k == 3:
        sets = [problem(rng) for _ in range(int(rng.integers(1, 4)))]
        out = run_models(make(rng), [a for a, _ in sets], [b for _, b in sets])
        return "run_models", digest([fitted(m, a) for m, (a, _) in zip(out, sets)])
    if k == 4:
        return "null distribution", digest(null_feature_split_proportions_distribution(make(rng), X, y, 2))
    if k == 5 and len(X) >= 6:
        r = feature_importance(make(rng), X, y, 0, n_k_fold_splits=2, n_permutations=2)
        return "importance", digest([np.asarray(v, dtype=float) for v in r])
    if k == 6:
        s = SelectNullDistributionThreshold(make(rng), n_permutations=2) if rng.random() < 0.5 else SelectSplitProportionThreshold(make(rng), 0.3)
        s.fit(X, y)
        return "selection", digest(np.asarray(s.get_support(), dtype=float), dict(s.feature_proportions))
    if k == 7:
        m = ResidualBART(base_estimator=LinearRegression(), n_jobs=1, **params(rng)).fit(X, y)
        return "extension", fitted(m, X)
    data = Data(np.array(X), np.array(y), normalize=True)
    model = Model(data, Sigma(1., 0.5, data.y.normalizing_scale), n_trees=int(rng.integers(1, 30)), initializer=None)
    out = ModelSampler(SampleSchedule(samplers(rng) or get_tree_sampler(0.5, 0.5), LeafNodeSampler(), SigmaSampler())).samples(model, 4, 2, 1.0, True, True)
    return "chain", digest(out["model"], out["in_sample_predictions"], [a["Tree"] for a in out["acceptance"]])


def elsewhere(rng, backend):
    """one fit in worker processes"""
    with joblib.parallel_config(backend=backend):
        if rng.random() < 0.6:
            X, y = problem(rng)
            return "worker fit", fitted(make(rng, int(rng.integers(2, 5))).fit(X, y), X)
        sets = [problem(rng) for _ in range(int(rng.integers(2, 4)))]
        out = run_models(make(rng, 3), [a for a, _ in sets], [b for _, b in sets])
        return "worker run_models", digest([fitted(m, a) for m, (a, _) in zip(out, sets)])


def program(seed, prog, backend=None):
    """one execution of the program: names of what was done, and results"""
    rng = np.random.default_rng(seed)
    kept, out = [], []
    try:
        for i, op in enumerate(prog):
            if op == "seed":
                np.random.seed((seed * 31 + i) % 2 ** 32)
            elif op == "fit":
                out.append(here(rng, kept))
            else:
                out.append(elsewhere(rng, backend))
    except Exception as e:
        return out, describe(e)
    return out, ""


def alone(seed, prog):
    """in a process in which nothing has happened yet"""
    return in_child(lambda: program(seed, prog))


# ------------------------------------------------------------------------------------------------ hosts

def child_main(job):
    """a fresh interpreter, with a memory layout of its own"""
    job = json.loads(job)
    junk = [bytearray(random.SystemRandom().randrange(10, 3000)) for _ in range(random.SystemRandom().randrange(2000))]
    random.SystemRandom().shuffle(junk)
    del junk[::2]
    warnings.simplefilter("ignore")
    if job["backend"]:
        res = []
        with quiet():
            for s, p in job["programs"]:
                res.append(("ok", program(s, p, job["backend"])))
    else:
        res = pmap(alone, [dict(seed=s, prog=p) for s, p in job["programs"]], procs=3)
        res = [r if isinstance(r, (tuple, list)) else ("error", r["_error"] if r else None) for r in res]
    gc.collect()
    with open(job["out"] + ".part", "w") as f:
        json.dump(res, f)
    os.rename(job["out"] + ".part", job["out"])


def start(tag, backend, programs):
    out = os.path.join(env.SCRATCH, "seed-%s.json" % tag)
    code = "import sys; sys.path.insert(0, %r)\nfrom suites import seed\nseed.child_main(sys.argv[1])" % os.path.join(env.VERIF, "harness")
    err = open(out + ".err", "w+b")
    job = json.dumps({"backend": backend, "programs": programs, "out": out})
    return out, err, subprocess.Popen([sys.executable, "-B", "-c", code, job], stdout=subprocess.DEVNULL, stderr=err, env=dict(os.environ, PYTHONHASHSEED=str(1 + sum(map(ord, tag)))), start_new_session=True)


def collect(h, until):
    out, err, p = h
    try:
        p.wait(timeout=max(1, until - time.time()))
        err.seek(0)
        return json.load(open(out)) if os.path.exists(out) else [("error", "a process of the run died: " + err.read().decode("utf-8", "replace")[-600:])]
    except subprocess.TimeoutExpired:
        return [("error", "no result within %d s" % LIMITS[env.TIER]["long"])]
    finally:
        err.close()
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass


def traces(programs, hosts):
    """one trace per program: its executions one after the other"""
    res = []
    for i, (seed, prog) in enumerate(programs):
        ev = []
        for h in hosts:
            ev.append({"op": "host"})
            if i >= len(h):
                if i == 0 or len(h) == 1:
                    ev.append({"op": "error", "what": str(h[0][1])})
                continue
            kind, r = h[i]
            if kind != "ok":
                if r is not None:
                    ev.append({"op": "error", "what": str(r)})
                continue
            out, bad = r
            ev += [{"op": "result", "what": w, "d": d} for w, d in out]
            ev.append({"op": "error", "what": bad} if bad else {"op": "done"})
        res.append({"prog": prog, "ev": ev})
    return res


def run(ctx):
    r = ctx.design("MCSeed", ctx.n("MCSeed", "MCSeedDeep"))
    progs = sorted(set(map(tuple, r.printed("@T"))))
    for m in ("Shared", "Arrival", "Process", "Leftover"):
        ctx.refuted("MCSeed", "MCSeed" + m)
    progs = [list(p) for p in progs]
    plain, worked = [p for p in progs if "workers" not in p], [p for p in progs if "workers" in p]
    rng = np.random.default_rng(ctx.seed)
    ctx.replay(len(progs))
    many = [["seed"] + [str(rng.choice(["seed", "fit", "fit", "fit"])) for _ in range(int(rng.integers(3, 9)))] for _ in range(ctx.n(60, 1200))]
    A = [(s, p) for s, p in zip(ctx.seeds(10 ** 5, "seed-here"), plain * 3 + many)]
    reps = ctx.n(1, 6)
    groups = {b: [(s, p) for s, p in zip(ctx.seeds(10 ** 5, "seed-" + b), worked * reps)] for b in ("loky", "multiprocessing")}
    if ctx.quick:
        groups = {b: [g[i] for i in sorted(rng.permutation(len(g))[:12])] for b, g in groups.items()}
    jobs = [("here%d" % i, None, A) for i in range(3)] + [("%s%d" % (b, i), b, g) for b, g in groups.items() for i in range(2)]
    hs = []
    try:
        hs = [start(*j) for j in jobs]
        until = time.time() + LIMITS[env.TIER]["long"] + 60
        got = [collect(h, until) for h in hs]
    finally:
        for h in hs:
            try:
                os.killpg(h[2].pid, 9)
            except OSError:
                pass
    ctx.validate("TraceSeed", traces(A, got[:3]), "seed.program", [dict(seed=s, prog=p) for s, p in A])
    for i, (b, g) in enumerate(groups.items()):
        ctx.validate("TraceSeed", traces(g, got[3 + 2 * i:5 + 2 * i]), "seed.program", [dict(seed=s, prog=p, backend=b) for s, p in g])
