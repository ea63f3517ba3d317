"""C13: parallel chains and runs over several data sets."""
import glob
import json
import os
import pickle
import subprocess
import sys
import tempfile
import threading
import time
import uuid
from contextlib import nullcontext

import joblib
import numpy as np

from bartpy.initializers.initializer import Initializer
from bartpy.mutation import GrowMutation
from bartpy.runner import run_models
from bartpy.samplers.treemutation import TreeMutationProposer, TreeMutationSampler
from bartpy.samplers.unconstrainedtree.likihoodratio import UniformTreeMutationLikihoodRatio
from bartpy.samplers.unconstrainedtree.proposer import UniformMutationProposer
from bartpy.samplers.unconstrainedtree.treemutation import UnconstrainedTreeMutationSampler, get_tree_sampler
from bartpy.samplers.scalar import DiscreteSampler, NormalScalarSampler, UniformScalarSampler
from bartpy.sklearnmodel import SklearnModel

from vlib import env, gen
from vlib.drive import LIMITS, describe, pmap
from vlib.num import fx
from vlib.preempt import preempting

LU, LO = 10 ** 6, 10 ** 4


class Memory:
    """what this process has seen; worker processes write theirs to a file"""
    lock = threading.Lock()
    models = []         # (model, name): kept, so that no identity is used twice
    lines = []
    gate = None


def name_of(model):
    for m, n in Memory.models:
        if m is model:
            return n
    Memory.models.append((model, uuid.uuid4().hex))
    return Memory.models[-1][1]


def here():
    return "%d:%d" % (os.getpid(), threading.get_ident())


class Gate:
    """lets threads through in the order of a schedule, one at a time"""

    def __init__(self, schedule, main):
        self.schedule, self.main = list(schedule), main
        self.cond = threading.Condition()
        self.pos, self.active, self.free = 0, None, False
        self.labels, self.order, self.left = {}, [], {}
        for c in schedule:
            self.left[c] = self.left.get(c, 0) + 1

    def enter(self):
        me = threading.get_ident()
        if me == self.main or self.free:
            return
        with self.cond:
            if me not in self.labels:
                if len(self.labels) == len(self.left):
                    return
                # chains are labelled as they begin
                self.labels[me] = sorted(self.left)[len(self.labels)]
            lab = self.labels[me]
            if self.active == lab:
                self.active = None
                self.cond.notify_all()
            until = time.time() + 5
            while not self.free and not (self.active is None and self.pos < len(self.schedule) and self.schedule[self.pos] == lab):
                if self.pos >= len(self.schedule) or time.time() > until or not self.cond.wait(until - time.time()):
                    self.free = True        # the code cannot be held here: let it run
                    self.cond.notify_all()
                    return
            self.order.append(lab)
            self.pos += 1
            self.left[lab] -= 1
            self.active = lab if self.left[lab] else None
            self.cond.notify_all()


class GateInit(Initializer):
    """a chain passes the gate when it builds its model"""

    def __init__(self, tag=0):
        self.tag = tag

    def initialize_tree(self, tree):
        if Memory.gate is not None:
            Memory.gate.enter()


class Kinds(TreeMutationProposer):
    """the real proposer; notes what was proposed wherever both kinds were possible"""

    own = threading.local()

    def __init__(self):
        self.inner = UniformMutationProposer([0.5, 0.5])

    def propose(self, tree):
        both = len(tree.splittable_leaf_nodes) > 0 and len(tree.prunable_decision_nodes) > 0
        r = self.inner.propose(tree)
        Kinds.own.last = 0 if not both or r is None else 1 if isinstance(r, GrowMutation) else 2
        return r


class Recorder(TreeMutationSampler):
    """the real sampler; every sweep notes the state it finds"""

    def __init__(self, folder=None, home=0):
        self.kinds = Kinds()
        self.inner = UnconstrainedTreeMutationSampler(self.kinds, UniformTreeMutationLikihoodRatio([0.5, 0.5]))
        self.folder, self.home = folder, home

    def write(self, line):
        if self.folder is None or os.getpid() == self.home:
            with Memory.lock:
                Memory.lines.append(line)
        else:
            with open(os.path.join(self.folder, "%d.jsonl" % os.getpid()), "a") as f:
                f.write(json.dumps(line) + "\n")

    def step(self, model, tree):
        first = next((i for i, t in enumerate(model.trees) if t is tree), -1) == 0
        if first:
            if Memory.gate is not None:
                Memory.gate.enter()
            with Memory.lock:
                n = name_of(model)
            self.write({"m": n, "t": here(), "s": float(model.sigma.current_value()).hex(),
                        "leaf": [float(l.current_value).hex() for t in model.trees for l in t.leaf_nodes if l.current_value != 0],
                        "x": np.asarray(model.data.X.values, dtype=float).tolist(), "y": np.asarray(model.data.y.unnormalized_y, dtype=float).tolist()})
        r = self.inner.step(model, tree)
        if first:
            self.write({"m": n, "k": getattr(Kinds.own, "last", 0)})
        return r


class Sets:
    """data sets of a run; some of them alike"""

    def __init__(self, rng, k, same_rows=False):
        self.X, self.y, self.Y, self.fac, self.off = [], [], [], [], []
        for i in range(k):
            if i and rng.random() < 0.2:
                j = int(rng.integers(i))
                A, Y, fac, off = np.array(self.X[j]), np.array(self.Y[j]), self.fac[j], self.off[j]
                if rng.random() < 0.5:      # same covariates, other targets
                    Y = rng.permutation(Y)
                    Y[0] = 25
            else:
                n = int(rng.integers(3, 9))
                A = np.asarray(gen.matrix(rng, n=n, p=int(rng.integers(1, 4))), dtype=float)
                Y = rng.integers(-20, 21, size=n)
                Y[0], Y[1] = -20 + i, 19 - i
                fac = 2. ** float(rng.integers(-6, 7))
                off = fac * float(rng.choice([0, 100, -50]))
            self.X.append(A)
            self.Y.append(Y)
            self.fac.append(fac)
            self.off.append(off)
            self.y.append(Y * fac + off)
        self.copy = pickle.dumps((self.X, self.y))

    def match(self, x, y):
        """numbers of the data sets with these rows"""
        x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
        return [i + 1 for i in range(len(self.X)) if x.shape == self.X[i].shape and np.array_equal(x, self.X[i]) and y.shape == self.y[i].shape and np.abs(y - self.y[i]).max() <= 1e-6 * self.fac[i]]

    def kept(self):
        X, y = pickle.loads(self.copy)
        return int(all(np.array_equal(a, b) for a, b in zip(X, self.X)) and all(np.array_equal(a, b) for a, b in zip(y, self.y)))

    def units(self, i, xs):
        return [fx((float(v) - self.off[i]) / self.fac[i], LO) for v in np.asarray(xs, dtype=float)]


def fingerprint(m):
    p = m.get_params(deep=False)
    res = [sorted((k, v) for k, v in p.items() if k not in ("tree_sampler", "initializer")), id(m.tree_sampler), id(m.initializer), id(m.data), id(m.sigma), id(m.model), id(m.extract)]
    if m.model_samples is not None:
        res += [[id(s) for s in m.model_samples], [float(v) for v in m.predict(np.array(m.data.X.values, dtype=float))], [float(v) for v in m.data.y.unnormalized_y]]
    return res


class Session:
    """runs recorded as one trace"""

    def __init__(self, D, folder=None):
        self.D, self.folder = D, folder
        self.ev, self.names, self.nums, self.ts = [], {}, {}, {}
        self.kinds = {}
        Memory.models, Memory.lines, Memory.gate = [], [], None

    def num(self, table, x):
        return table.setdefault(x, len(table) + 1)

    def lines(self):
        res = list(Memory.lines)
        Memory.lines = []
        if self.folder is not None:
            for f in sorted(glob.glob(os.path.join(self.folder, "*.jsonl"))):
                res += [json.loads(s) for s in open(f)]
                os.unlink(f)
        return res

    def run(self, m, which, how):
        """which: data sets by index; how: fit or run_models"""
        D = self.D
        if how == "fit":
            which = which[:1]
        self.lines()
        before = fingerprint(m)
        live = len(Memory.models)
        if how == "fit":
            out = [m.fit(D.X[which[0]], D.y[which[0]])]
        else:
            out = run_models(m, [D.X[i] for i in which], [D.y[i] for i in which])
        spec = int(how == "fit" or fingerprint(m) == before)
        p = m.get_params(deep=False)
        self.ev.append({"op": "begin", "sets": [i + 1 for i in which], "same": [sorted(D.match(D.X[i], D.y[i])) for i in which], "chains": int(p["n_chains"]), "samp": int(p["n_samples"]), "burn": int(p["n_burn"]), "nt": int(p["n_trees"])})
        seen = {}
        for q in self.lines():
            n = self.num(self.nums, q["m"])
            if "k" in q:
                if q["k"]:
                    self.kinds.setdefault(n, []).append(q["k"])
                continue
            seen[n] = seen.get(n, 0) + 1
            draws = [self.num(self.names, h) for h in q["leaf"]] + ([self.num(self.names, q["s"])] if seen[n] > 1 else [])
            self.ev.append({"op": "found", "m": n, "t": self.num(self.ts, q["t"]), "data": D.match(q["x"], q["y"]), "s": self.num(self.names, q["s"]), "draws": draws if seen[n] > 1 else []})
        res, last = [], []
        for i, o in zip(which, out):
            s = [float(x.sigma.current_value()).hex() for x in o.model_samples]
            last += [self.num(self.names, h) for h in s]
            stored = int(bool(p["store_in_sample_predictions"]))
            res.append({"s": [self.num(self.names, h) for h in s], "data": D.match(o.data.X.values, o.data.y.unnormalized_y), "nt": min(len(x.trees) for x in o.model_samples),
                        "params": int(all(o.get_params(deep=False)[k] == v for k, v in p.items() if k not in ("tree_sampler", "initializer"))),
                        "pred": D.units(i, o.predict(D.X[i])), "sp": [[fx(v, LU) for v in x.predict(D.X[i])] for x in o.model_samples], "stored": stored,
                        "ins": D.units(i, o.predict()) if stored else [], "res": [fx(float(v) / D.fac[i], LO) for v in o.residuals()] if stored else []})
        mine = [x for x, _ in Memory.models[live:]]
        ids, shared = {}, 0
        for x in mine:
            own = {id(x), id(x.sigma)} | {id(t) for t in x.trees} | {id(n) for t in x.trees for n in t.nodes}
            for k in own:
                shared += k in ids
                ids[k] = 1
        self.ev.append({"op": "out", "out": res, "last": last, "shared": shared, "spec": spec, "inputs": D.kept()})
        return out

    def later(self, rng, m, out):
        """the caller goes on to use one of the returned models with a sampler of its own: nothing else notices"""
        i = int(rng.integers(len(out)))
        o, rest = out[i], [x for j, x in enumerate(out) if j != i] + [m]
        before = [fingerprint(x) for x in rest]
        o.set_params(tree_sampler=get_tree_sampler(0.5, 0.5), n_samples=int(rng.integers(1, 4)), n_jobs=1)
        if rng.random() < 0.5:
            d = int(rng.integers(len(self.D.X)))
            o.fit(self.D.X[d], self.D.y[d])
        self.ev.append({"op": "later", "kept": int([fingerprint(x) for x in rest] == before)})

    def trace(self):
        if self.kinds:
            self.ev.append({"op": "kinds", "kinds": [self.kinds[n] for n in sorted(self.kinds)]})
        return {"Y": [[int(v) for v in y] for y in self.D.Y], "ev": self.ev}


def params(rng, long=False):
    return dict(n_trees=int(rng.choice([1, 2, 3])), n_samples=70 if long else int(rng.integers(2, 6)), n_burn=int(rng.integers(0, 3)), thin=1.0, sigma_a=1., sigma_b=0.5,
                store_in_sample_predictions=bool(rng.integers(2)), store_acceptance_trace=bool(rng.integers(2)))


def gated(seed, schedule, chains, sets):
    """an interleaving of the specification, forced on threads"""
    rng = np.random.default_rng(seed)
    np.random.seed(seed % (2 ** 32))
    D = Sets(rng, sets)
    S = Session(D)
    k = len(schedule) // (chains * sets) - 1        # sweeps
    try:
        gate = Gate(schedule, threading.get_ident())
        m = SklearnModel(n_trees=1, n_chains=chains, n_samples=k, n_burn=0, thin=1.0, sigma_a=1., sigma_b=.5, n_jobs=chains * sets, store_in_sample_predictions=True,
                         tree_sampler=Recorder(), initializer=GateInit())
        Memory.gate = gate
        with joblib.parallel_config(backend="threading"):
            S.run(m, list(range(sets)), "fit" if sets == 1 and seed % 2 else "run_models")
        Memory.gate = None
        S.free = int(gate.free or gate.order != list(schedule))
    except Exception as e:
        S.ev.append({"op": "error", "what": describe(e)})
        S.free = 1
    finally:
        Memory.gate = None
    return dict(S.trace(), free=S.free)


def runs(seed, backend, folder=None, long=False, pause=0.):
    """runs one after the other with one specification model"""
    rng = np.random.default_rng(seed)
    np.random.seed(seed % (2 ** 32))
    D = Sets(rng, int(rng.integers(1, 5)))
    S = Session(D, folder)
    try:
        jobs = 1 if backend == "sequential" else int(rng.integers(2, 5))
        m = SklearnModel(n_chains=int(rng.choice([1, 2, 3])), n_jobs=jobs, tree_sampler=Recorder(folder, os.getpid()), initializer=None if rng.random() < 0.5 else GateInit(), **params(rng, long))
        for _ in range(int(rng.integers(1, 4)) if not long else 1):
            which = [int(v) for v in rng.integers(0, len(D.X), size=int(rng.integers(1, 5)))]
            if backend == "sequential":
                out = S.run(m, which, "fit" if rng.random() < 0.25 else "run_models")
            else:
                with joblib.parallel_config(backend=backend), preempting(seed, pause, BUSY) if pause else nullcontext():
                    out = S.run(m, which, "fit" if rng.random() < 0.25 else "run_models")
            r = rng.random()
            if len(out) > 1 and rng.random() < 0.3:
                S.later(rng, m, out)
                r = 1.
            if r < 0.2:
                m.set_params(n_chains=int(rng.choice([1, 2, 3])), n_samples=int(rng.integers(2, 5)))
            elif r < 0.4:
                m = out[int(rng.integers(len(out)))]      # a returned model as the next specification
    except Exception as e:
        S.ev.append({"op": "error", "what": describe(e)})
    return S.trace()


BUSY = {"sklearnmodel.py", "runner.py", "model.py", "modelsampler.py", "schedule.py", "scalar.py", "treemutation.py", "proposer.py", "sigma.py", "leafnode.py"}


def source(seed, kind, threads, size, want):
    """several threads at one random source, switched between any two lines"""
    np.random.seed(seed % (2 ** 32))
    src = {"normal": lambda: NormalScalarSampler(size), "uniform": lambda: UniformScalarSampler(size), "discrete": lambda: DiscreteSampler([1., 2., 3.], cache_size=size)}[kind]()
    got, failed = [[] for _ in range(threads)], []

    def work(i):
        try:
            for _ in range(want):
                got[i].append(float(src.sample()))
        except Exception as e:
            failed.append(describe(e))
    with preempting(seed, 0.5):
        ts = [threading.Thread(target=work, args=(i,)) for i in range(threads)]
        [t.start() for t in ts]
        [t.join() for t in ts]
    names = {}
    return {"Y": [], "ev": [{"op": "source", "want": want, "got": [[names.setdefault(v, len(names) + 1) for v in g] for g in got], "distinct": int(kind != "discrete"), "failed": failed}]}


def child_main(job):
    """runs in worker processes: from a process of its own"""
    job = json.loads(job)
    res = []
    for s in job["seeds"]:
        folder = tempfile.mkdtemp(prefix="runs.", dir=job["scratch"])
        res.append(runs(s, job["backend"], folder, job["long"]))
    with open(job["out"], "w") as f:
        json.dump(res, f)


def start_processes(backend, seeds, parts, long=False):
    procs = []
    for i in range(parts):
        mine = seeds[i::parts]
        if not mine:
            continue
        out = os.path.join(env.SCRATCH, "runs-%s-%d-%d.json" % (backend, i, long))
        job = json.dumps({"backend": backend, "seeds": mine, "scratch": env.SCRATCH, "out": out, "long": long})
        code = "import sys; sys.path.insert(0, %r)\nfrom suites import run\nrun.child_main(sys.argv[1])" % os.path.join(env.VERIF, "harness")
        err = open(out + ".err", "w+b")
        procs.append((backend, mine, out, err, subprocess.Popen([sys.executable, "-B", "-c", code, job], stdout=subprocess.DEVNULL, stderr=err, env=dict(os.environ), start_new_session=True)))
    return procs


def collect_processes(ctx, procs):
    traces, kws = [], []
    limit = LIMITS[env.TIER]["long"]
    t0 = time.time()
    for backend, mine, out, err, p in procs:
        try:
            p.wait(timeout=max(1, limit - (time.time() - t0)))
            err.seek(0)
            got = json.load(open(out)) if os.path.exists(out) else [{"_error": "worker processes: " + err.read().decode("utf-8", "replace")[-800:]}]
        except subprocess.TimeoutExpired:
            got = [{"_error": "worker processes: no result within %d s" % limit}]
        finally:
            err.close()
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
        traces += got
        kws += [dict(seed=s, backend=backend) for s in mine][:len(got)]
    ctx.validate("TraceRun", traces, "run.runs", kws)


def run(ctx):
    procs = []
    for b in ("loky", "multiprocessing"):
        procs += start_processes(b, ctx.seeds(ctx.n(8, 80), "proc" + b), ctx.n(1, 2)) + start_processes(b, ctx.seeds(ctx.n(2, 10), "proclong" + b), 1, True)
    try:
        check(ctx, procs)
    finally:
        for x in procs:
            try:
                os.killpg(x[4].pid, 9)
            except OSError:
                pass


def check(ctx, procs):
    r = ctx.design("MCRun", "MCRun")
    two = sorted(set(map(tuple, r.printed("@T"))))
    ctx.design("MCRun", ctx.n("MCRun22", "MCRunDeep"))
    r = ctx.design("MCRun", "MCRun3")
    three = sorted(set(map(tuple, r.printed("@T"))))
    rng = np.random.default_rng(ctx.seed)
    k = ctx.n(150, len(three))
    three = [three[i] for i in sorted(rng.permutation(len(three))[:k])]
    kws = [dict(seed=i, schedule=list(s), chains=2 if i % 2 else 1, sets=1 if i % 2 else 2) for i, s in enumerate(two * 2)]
    kws += [dict(seed=i, schedule=list(s), chains=3 if i % 2 else 1, sets=1 if i % 2 else 3) for i, s in enumerate(three)]
    ts = pmap(gated, kws)
    held = sum(1 for t in ts if t and not t.get("free", 1))
    ctx.replay(held)
    ctx.notes["interleavings_forced"] = held
    ctx.notes["interleavings_not_holdable"] = len(kws) - held
    ctx.validate("TraceRun", ts, "run.gated", kws)
    kws = [dict(seed=s, backend=b) for b, n in (("sequential", 100), ("threading", 80)) for s in ctx.seeds(ctx.n(n, n * 15), "run" + b)]
    kws += [dict(seed=s, backend=b, long=True) for b in ("sequential", "threading") for s in ctx.seeds(ctx.n(8, 60), "long" + b)]
    ctx.validate("TraceRun", pmap(runs, kws), "run.runs", kws)
    kws = [dict(seed=s, backend="threading", pause=q) for q in (0.05, 0.4) for s in ctx.seeds(ctx.n(40, 800), "preempt%s" % q)]
    ctx.validate("TraceRun", pmap(runs, kws), "run.runs", kws)
    ctx.design("MCBufferThreads")
    ctx.refuted("MCBufferThreads", "MCBufferThreadsChecked")
    ctx.refuted("MCRun", "MCRunSlot")
    ctx.refuted("MCRun", "MCRunForked")
    kws = [dict(seed=s, kind=k, threads=t, size=z, want=w) for k in ("normal", "uniform", "discrete") for t in (2, 3) for z in (1, 2, 3) for w in (2, 7) for s in ctx.seeds(ctx.n(3, 60), k)]
    ctx.validate("TraceRun", pmap(source, kws), "run.source", kws)
    collect_processes(ctx, procs)
