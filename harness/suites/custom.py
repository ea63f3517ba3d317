"""C23: the caller's own schedules, loggers, operations, proposers and ratios."""
import math
from fractions import Fraction

import numpy as np

from bartpy.data import Data
from bartpy.errors import NoPrunableNodeException, NoSplittableVariableException
from bartpy.model import Model
from bartpy.mutation import GrowMutation, PruneMutation
from bartpy.node import LeafNode
from bartpy.samplers.leafnode import LeafNodeSampler
from bartpy.samplers.modelsampler import ModelSampler
from bartpy.samplers.oblivioustrees.treemutation import UnconstrainedTreeMutationSampler as ObliviousSampler
from bartpy.samplers.schedule import SampleSchedule
from bartpy.samplers.sigma import SigmaSampler
from bartpy.samplers.treemutation import TreeMutationLikihoodRatio, TreeMutationProposer
from bartpy.samplers.unconstrainedtree.proposer import UniformMutationProposer, sample_split_node, uniformly_sample_grow_mutation, uniformly_sample_prune_mutation
from bartpy.samplers.unconstrainedtree.treemutation import UnconstrainedTreeMutationSampler, get_tree_sampler
from bartpy.sigma import Sigma
from bartpy.sklearnmodel import SklearnModel
from bartpy.split import Split
from bartpy.trace import TraceLogger
from bartpy.tree import Tree, mutate

from suites.chain import thin_of
from vlib import gen
from vlib.drive import describe, pmap
from vlib.num import fx

LU = 10 ** 6
KINDS = ["Tree", "Node", "Sigma", "Shake", "a kind of the caller's own"]
SAID = [None, True, False, "x", 0, [0], ""]         # odd ones are true


class Boom(Exception):
    pass


class Log:
    """events, and which step or result the next one has to be about"""

    def __init__(self, rng, X):
        self.ev, self.rng, self.X = [], rng, X
        self.at, self.ran, self.fuse, self.broke = None, [], None, None

    def add(self, **e):
        self.ev.append(e)


class Schedule(SampleSchedule):
    """decides each step only when it is asked for it, from the trees as they then are"""

    def __init__(self, log, script=None, silent=()):
        super().__init__(get_tree_sampler(0.5, 0.5), LeafNodeSampler(), SigmaSampler())
        self.log, self.script, self.silent = log, script, silent
        self.long = log.rng.random() < 0.1
        self.style = int(log.rng.integers(4))

    def work(self, model):
        """a sweep of the caller's own making"""
        rng = self.log.rng
        if self.script is not None:
            for k in (self.script.pop(0) if self.script else []):
                yield KINDS[k - 1], lambda: k
            return
        if self.style == 0:                     # noise first, trees backwards, only some leaves
            yield "Sigma", lambda: self.sigma_sampler.step(model, model.sigma)
            for t in list(model.refreshed_trees())[::-1]:
                yield "Tree", lambda: self.tree_sampler.step(model, t)
                for leaf in t.leaf_nodes[:int(rng.integers(4))]:
                    yield "Node", lambda: self.leaf_sampler.step(model, leaf)
        elif self.style == 1:                   # several structure steps per tree, further steps
            for t in model.refreshed_trees():
                for _ in range(int(rng.integers(1, 4)) if not self.long else 70):
                    yield "Tree", lambda: self.tree_sampler.step(model, t)
                for leaf in t.leaf_nodes:
                    yield "Node", lambda: self.leaf_sampler.step(model, leaf)
                yield "Shake", lambda: [leaf.set_value(leaf.current_value + 0.125) for leaf in t.leaf_nodes]
            yield KINDS[4], lambda: None
        elif self.style == 2:                   # as the package does it
            yield from super().steps(model)
        else:                                   # sometimes nothing at all
            for _ in range(int(rng.integers(0, 4))):
                t = model.trees[int(rng.integers(len(model.trees)))]
                yield ["Tree", "Shake"][int(rng.integers(2))], lambda: t.leaf_nodes[0].set_value(float(rng.normal()))

    def steps(self, model):
        g = self.log
        g.add(op="begin")
        for kind, fn in self.work(model):
            quiet = kind in self.silent
            me = object()
            g.at = me
            if not quiet:
                g.add(op="offer", k=KINDS.index(kind) + 1)

            def go(me=me, fn=fn, quiet=quiet):
                if not quiet:
                    g.add(op="run", same=int(g.at is me))
                if g.fuse is not None:
                    g.fuse -= 1
                    if g.fuse < 0:
                        g.broke = (Boom("this step fails"), len(g.ev))
                        raise g.broke[0]
                r = fn()
                if not quiet:
                    g.ran.append(r)
                return r
            yield kind, go
        g.add(op="over")


class Says:
    """what the caller's logger answers"""

    def __init__(self, log, msgs=None, plain=False):
        self.log, self.msgs, self.plain = log, msgs, plain
        self.style = int(log.rng.integers(3))

    def code(self, what, kind):
        if self.msgs is not None:
            return self.msgs[what].pop(0) if self.msgs[what] else 0
        if what != "log":
            return int(self.log.rng.integers(4)) if self.style else int(self.log.rng.integers(1, 4))
        return int(self.log.rng.integers(7)) if self.style != 1 else int(self.log.rng.choice([0, 1, 1, 2]))

    def step(self, kind, r):
        g = self.log
        m = self.code("log", kind)
        g.add(op="log", k=KINDS.index(kind) + 1, m=m, same=int(bool(g.ran) and g.ran.pop(0) is r))
        return SAID[m]

    def record(self, what, x):
        g = self.log
        m = self.code(what, 0)
        same = x is g.model if what == "model" else np.shape(x) == (len(g.X),) and np.allclose(x, g.model.predict(g.X), atol=1e-9)
        g.add(op=what, k=0, m=m, same=int(same))
        return (m or None) if self.plain else SAID[m]


class Own:
    """a logger class of the caller's own"""
    says = None

    def __init__(self):
        self.says.log.add(op="new")

    def __getitem__(self, kind):
        if kind == "Model":
            return lambda x: self.says.record("model", x)
        if kind == "In Sample Prediction":
            return lambda x: self.says.record("pred", x)
        if kind not in KINDS:
            raise KeyError(kind)
        return lambda r: self.says.step(kind, r)


def logger(rng, says, functions):
    if not functions:
        return type("OwnLogger", (Own,), {"says": says}) if rng.random() < 0.5 else type("OwnTraceLogger", (Own, TraceLogger), {"says": says})

    def make():
        says.log.add(op="new")
        return TraceLogger(f_tree_mutation_log=lambda r: says.step("Tree", r), f_model_log=lambda x: says.record("model", x),
                           f_in_sample_prediction_log=lambda x: says.record("pred", x))
    return make


def decode(v, plain):
    if plain:
        return int(v)
    for i, s in enumerate(SAID):
        if v is s or (type(v) == type(s) and v == s and not isinstance(s, bool)):
            return i
    return -1


def shares(accs):
    return [[[KINDS.index(k) + 1 if k in KINDS else 99, fx(v, LU)] for k, v in a.items()] for a in accs]


def rows(seed):
    rng = np.random.default_rng(seed)
    np.random.seed(seed % (2 ** 32))
    X = np.asarray(gen.matrix(rng, n=rng.integers(2, 9), p=rng.integers(1, 3)), dtype=float)
    y = rng.integers(-20, 21, size=len(X)) + rng.random(len(X))
    return rng, X, y


def low(seed, item=None):
    """ModelSampler with the caller's schedule and logger; item: a behaviour of the specification to play"""
    rng, X, y = rows(seed)
    g = Log(rng, X)
    if item:
        c, h = item["c"], item["h"]
        sweeps, msgs = [], {"log": [], "pred": [], "model": []}
        for e in h:
            if e[0] == "begin":
                sweeps.append([])
            elif e[0] == "offer":
                sweeps[-1].append(e[1])
            elif e[0] in msgs:
                msgs[e[0]].append(e[2])
        burn, samp, f, wantp, wanta = c["burn"], c["samp"], Fraction(c["tn"], c["td"]), c["wantp"], c["wanta"]
        sched, says, functions = Schedule(g, sweeps), Says(g, msgs), False
    else:
        burn, samp, f = int(rng.choice([0, 0, 1, 2, 5])), int(rng.choice([0, 1, 2, 3, 6, 13])), thin_of(rng, 1)
        wantp, wanta = bool(rng.integers(2)), bool(rng.random() < 0.7)
        functions = rng.random() < 0.3
        sched, says = Schedule(g, silent=("Node", "Sigma") if functions else ()), Says(g)
        if functions:
            sched.style = [0, 2, 2][int(rng.integers(3))]
        if rng.random() < 0.12:
            g.fuse = int(rng.integers(1 + 3 * (burn + samp)))
    head = {"cfg": {"burn": burn, "samp": samp, "tn": f.numerator, "td": f.denominator, "wantp": int(wantp), "wanta": int(wanta)}, "ev": g.ev}
    try:
        data = Data(X, np.array(y), normalize=True)
        g.model = Model(data, Sigma(1., 0.5, data.y.normalizing_scale), n_trees=int(rng.integers(1, 4)), initializer=None)
        out = ModelSampler(sched, logger(rng, says, functions)).samples(g.model, samp, burn, float(f), wantp, wanta)
        g.add(op="out", models=[decode(v, False) for v in out["model"]], preds=[decode(v, False) for v in out["in_sample_predictions"]], accs=shares(out["acceptance"]))
    except Exception as e:
        if g.broke and e is g.broke[0]:
            g.add(op="broken", raised=1, after=len(g.ev) - g.broke[1])
            return head
        g.add(op="error", what=describe(e))
    if g.broke:
        g.add(op="broken", raised=0, after=len(g.ev) - g.broke[1])
    return head


def high(seed):
    """an estimator whose sampler is the caller's own"""
    rng, X, y = rows(seed)
    g = Log(rng, X)
    burn, samp, f, nc = int(rng.choice([0, 1, 3])), int(rng.choice([1, 2, 5])), thin_of(rng, 1), int(rng.choice([1, 2, 3]))
    wantp, wanta = bool(rng.integers(2)), bool(rng.random() < 0.7)
    head = {"cfg": {"burn": burn, "samp": samp, "tn": f.numerator, "td": f.denominator, "wantp": int(wantp), "wanta": int(wanta)}, "ev": g.ev}
    m = SklearnModel(n_trees=int(rng.integers(1, 4)), n_chains=nc, n_samples=samp, n_burn=burn, thin=float(f), sigma_a=1., sigma_b=0.5,
                     store_in_sample_predictions=wantp, store_acceptance_trace=wanta, n_jobs=1)
    says = Says(g, plain=True)

    class Counted(ModelSampler):
        """the chains one after the other; a model belongs to the chain that it came with"""

        def samples(self, model, *a, **k):
            g.model = model
            out = super().samples(model, *a, **k)
            g.add(op="out")
            return out
    try:
        m.sampler = Counted(Schedule(g), logger(rng, says, False))
        m.fit(X, np.array(y))
        g.add(op="all", chains=nc, models=[decode(v, True) for v in m.model_samples], preds=[decode(v, True) for v in m.prediction_samples], accs=shares(m.acceptance_trace))
    except Exception as e:
        g.add(op="error", what=describe(e))
    return head


# ---------------------------------------------------------------------------------------------- proposers and ratios

def some_tree(rng, X, y, k):
    t = Tree([LeafNode(Split(Data(X, np.array(y))))])
    for _ in range(k):
        leaves = t.splittable_leaf_nodes
        if not leaves:
            break
        leaf = leaves[rng.integers(len(leaves))]
        mutate(t, GrowMutation(leaf, sample_split_node(leaf)))
    return t


def operations(seed, draws):
    """a proposer with a table of the caller's operations"""
    rng, _, _ = rows(seed)
    ev, calls = [], []
    X, y = rng.permutation(9).reshape(-1, 1).astype(float), rng.normal(size=9)
    tree = some_tree(rng, X, y, int(rng.integers(0, 4)))
    k = int(rng.integers(1, 5))
    w = [int(v) for v in rng.integers(0, 6, size=k)]
    w[int(rng.integers(k))] += 1
    seen = {"tree": 1}
    mood = {}

    def op(i):
        def apply(t):
            seen["tree"] = int(seen["tree"] and t is tree)
            o = mood["next"](i)
            calls.append([i + 1, 0 if o in (0, 3) else o])
            if o == 0:
                raise NoSplittableVariableException()
            if o == 3:
                raise NoPrunableNodeException()
            if o == 2:
                mood["boom"] = Boom("an operation fails")
                raise mood["boom"]
            mood["token"] = (uniformly_sample_grow_mutation if t.splittable_leaf_nodes else uniformly_sample_prune_mutation)(t) if rng.random() < 0.3 else object()
            return mood["token"]
        return apply
    try:
        ops = [op(i) for i in range(k)]
        total = sum(w)
        P = UniformMutationProposer(prob_method_lookup={ops[i]: w[i] / total for i in rng.permutation(k)})
        mood["next"] = lambda i: int(rng.choice([0, 3, 1, 1, 1, 2]))
        for _ in range(25):
            calls.clear()
            seen["tree"] = 1
            mood.update(token=None, boom=None)
            try:
                r = P.propose(tree)
                ret = 1 if r is mood["token"] else 0
            except Boom as e:
                ret = 2 if e is mood["boom"] else 0
            ev.append({"op": "propose", "calls": [list(c) for c in calls], "ret": ret, "tree": seen["tree"]})
        # how often each is drawn; one may never be applicable
        dead = int(rng.integers(k)) if rng.random() < 0.4 else -1
        if dead >= 0 and w[dead] == total:
            dead = -1
        mood["next"] = lambda i: int(rng.choice([0, 3])) if i == dead else 1
        c = [0] * k
        for _ in range(draws):
            calls.clear()
            P.propose(tree)
            c[calls[-1][0] - 1] += 1
        ev.append({"op": "freq", "n": draws, "w": [0 if i == dead else w[i] for i in range(k)], "c": c})
        # the package's own two, in the order the caller gives the probabilities
        a, b = int(rng.integers(1, 6)), int(rng.integers(1, 6))
        tree = some_tree(rng, X, y, 2)
        P = UniformMutationProposer([a / (a + b), b / (a + b)]) if rng.random() < 0.5 else UniformMutationProposer(prob_method=[a / (a + b), b / (a + b)])
        kinds = [P.propose(tree).kind for _ in range(draws)]
        ev.append({"op": "freq", "n": draws, "w": [a, b], "c": [kinds.count("grow"), kinds.count("prune")]})
    except Exception as e:
        ev.append({"op": "error", "what": describe(e)})
    return {"cfg": {"burn": 0, "samp": 0, "tn": 1, "td": 1, "wantp": 0, "wanta": 0}, "ev": ev}


class Uniform:
    def __init__(self, u):
        self.u = u

    def sample(self):
        return self.u


class Proposes(TreeMutationProposer):
    def __init__(self, given):
        self.given, self.result, self.saw = given, None, []

    def propose(self, tree):
        self.saw.append(tree)
        return self.result


class Parts(TreeMutationLikihoodRatio):
    """the three parts of a log ratio, as the caller computes them"""

    def __init__(self):
        self.table, self.saw = {}, []

    def part(self, i, tree, mutation):
        self.saw.append((tree, mutation))
        return self.table[id(mutation)][i]

    def log_transition_ratio(self, tree, mutation):
        return self.part(0, tree, mutation)

    def log_tree_ratio(self, model, tree, mutation):
        self.saw.append((model, mutation))
        return self.part(1, tree, mutation)

    def log_likihood_ratio(self, model, tree, mutation):
        self.saw.append((model, mutation))
        return self.part(2, tree, mutation)


def decisions(seed):
    """tree samplers with the caller's proposer, ratio and uniform draws"""
    rng, _, _ = rows(seed)
    ev = []
    try:
        for _ in range(25):
            obl = rng.random() < 0.5
            X, y = rng.permutation(9).reshape(-1, 1).astype(float), rng.normal(size=9)
            tree = some_tree(rng, X, y, int(rng.integers(0, 4)))
            model = Model(Data(X, np.array(y)), Sigma(1., 0.5, 1.), trees=[tree], initializer=None)
            if rng.random() < 0.3 and tree.prunable_decision_nodes:
                d = tree.prunable_decision_nodes[0]
                muts = [PruneMutation(d, LeafNode(d.split, depth=d.depth))]
            else:
                leaves = tree.splittable_leaf_nodes
                leaves = [leaves[i] for i in rng.permutation(len(leaves))]
                muts = [GrowMutation(n, sample_split_node(n)) for n in leaves[:int(rng.integers(0, 4)) if obl else int(rng.integers(0, 2))]]
            k = int(rng.choice([1, 2, 5, 9, 30]))
            prop, ratio = Proposes(None), Parts()
            prop.result = muts if obl else (muts[0] if muts else None)
            target = -k * math.log(2) * 8
            parts = [[int(v) for v in rng.integers(-24, 25, size=3)] for _ in muts]
            if parts and rng.random() < 0.7:        # near the threshold
                parts[-1][int(rng.integers(3))] += int(round(target + rng.choice([-3, -1, 0, 1, 3]) - sum(map(sum, parts))))
            inf = int(rng.choice([-1, 1])) if parts and rng.random() < 0.15 else 0
            for m, ps in zip(muts, parts):
                ratio.table[id(m)] = [v / 8 for v in ps]
            if inf:
                ratio.table[id(muts[0])][int(rng.integers(3))] = inf * math.inf
            s = (ObliviousSampler if obl else UnconstrainedTreeMutationSampler)(prop, ratio, scalar_sampler=Uniform(2. ** -k))
            r = s.step(model, tree)
            given = all(t is tree for t in prop.saw) and all(a is tree or a is model for a, _ in ratio.saw) and all(any(m is x for x in muts) for _, m in ratio.saw)
            right = len(r) == len(muts) and all(a is b for a, b in zip(r, muts)) if obl and r is not None else (bool(muts) and r is muts[0])
            ev.append({"op": "mh", "obl": int(obl), "k": k, "parts": parts, "inf": inf, "given": int(given), "ret": 0 if r is None else 1 if right else 2,
                       "applied": sum(any(n is m.updated_node for n in tree.nodes) for m in muts)})
    except Exception as e:
        ev.append({"op": "error", "what": describe(e)})
    return {"cfg": {"burn": 0, "samp": 0, "tn": 1, "td": 1, "wantp": 0, "wanta": 0}, "ev": ev}


def run(ctx):
    ctx.design("MCCustom", ctx.n("MCCustom", "MCCustomDeep"))
    for m in ("Eager", "Nones", "Quietburn", "Carried", "Holes"):
        ctx.refuted("MCCustom", "MCCustom" + m)
    items = ctx.design("MCCustom", "MCCustomEmit").printed("@T")
    rng = np.random.default_rng(ctx.seed)
    items = [items[i] for i in sorted(rng.permutation(len(items))[:ctx.n(1500, 20000)])]
    kws = [dict(seed=s, item=it) for s, it in zip(ctx.seeds(len(items), "customplay"), items)]
    ctx.validate("TraceCustom", pmap(low, kws), "custom.low", kws)
    ctx.replay(len(items))
    kws = [dict(seed=s) for s in ctx.seeds(ctx.n(400, 6000), "customlow")]
    ctx.validate("TraceCustom", pmap(low, kws), "custom.low", kws)
    kws = [dict(seed=s) for s in ctx.seeds(ctx.n(120, 2000), "customhigh")]
    ctx.validate("TraceCustom", pmap(high, kws), "custom.high", kws)
    kws = [dict(seed=s, draws=2000) for s in ctx.seeds(ctx.n(60, 1000), "customops")]
    ctx.validate("TraceCustom", pmap(operations, kws), "custom.operations", kws)
    kws = [dict(seed=s) for s in ctx.seeds(ctx.n(60, 1000), "customratio")]
    ctx.validate("TraceCustom", pmap(decisions, kws), "custom.decisions", kws)
