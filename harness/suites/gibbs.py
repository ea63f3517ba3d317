"""C06 and the model level of C01, C02, C05, C10: recorded Gibbs sampling."""
from operator import gt, le

import numpy as np

from bartpy.data import Data
from bartpy.initializers.sklearntreeinitializer import SklearnTreeInitializer
from bartpy.model import Model, deep_copy_model
from bartpy.mutation import GrowMutation
from bartpy.node import LeafNode
from bartpy.samplers.leafnode import LeafNodeSampler
from bartpy.samplers.modelsampler import ModelSampler
from bartpy.samplers.oblivioustrees.treemutation import get_tree_sampler as oblivious_sampler
from bartpy.samplers.schedule import SampleSchedule
from bartpy.samplers.sigma import SigmaSampler
from bartpy.samplers.unconstrainedtree.proposer import UniformMutationProposer
from bartpy.samplers.unconstrainedtree.treemutation import UnconstrainedTreeMutationSampler, get_tree_sampler
from bartpy.sigma import Sigma
from bartpy.split import Split
from bartpy.trace import TraceLogger
from bartpy.tree import Tree, mutate

from suites import tree as treesuite
from vlib import gen, obs
from vlib.drive import describe, pmap
from vlib.gen import G
from vlib.num import fx


FINE = 2 ** 28      # exact arithmetic with more digits than single precision holds


class KnownNormal:
    """stands in for the standard normal source: multiples of 0.1, on record"""

    def __init__(self, rng):
        self.rng, self.last = rng, None

    def sample(self):
        self.last = int(self.rng.integers(-25, 26))
        return self.last / 10.


class GivenUp(Exception):
    pass


class Recorder:
    def __init__(self, model, X, Q, ranker, rng, scale, exact, tree_sampler, watch, known=False):
        self.model, self.X, self.Q, self.ranker, self.rng = model, X, Q, ranker, rng
        self.scale, self.exact, self.watch = scale, exact, watch
        self.ev = []
        self.ask = gen.Asker(rng)
        self.fuse = None        # raise after that many more sampler calls, before or after the sampler did its work
        self.inner_tree, self.inner_leaf, self.inner_sigma = tree_sampler, LeafNodeSampler(), SigmaSampler()
        self.known = KnownNormal(rng) if known else None
        if known:
            self.inner_leaf = LeafNodeSampler(scalar_sampler=self.known)
        outer = self

        class T:
            def step(self, model, tree):
                return outer.fused(outer.tree, model, tree)

        class L:
            def step(self, model, node):
                return outer.fused(outer.leaf, model, node)

        class S:
            def step(self, model, sigma):
                return outer.fused(outer.sigma, model, sigma)

        self.schedule = SampleSchedule(T(), L(), S())

    def fused(self, fn, *a):
        if self.fuse is not None:
            self.fuse -= 1
            if self.fuse <= 0:
                self.fuse = None
                if self.rng.random() < 0.5:
                    fn(*a)
                raise GivenUp()
        return fn(*a)

    def give_up(self, sampler):
        """start a sweep that is not finished"""
        k = self.rng.integers(3)
        if k == 0:
            self.fuse = int(self.rng.integers(1, 3 * len(self.model.trees) + 2))
            try:
                sampler.step(self.model, TraceLogger())
                self.ev.append({"op": "sweep"})
                self.fuse = None
                return
            except GivenUp:
                pass
        else:
            g = self.model.refreshed_trees() if k == 1 else self.schedule.steps(self.model)
            for i, s in enumerate(g):
                if k == 2 and self.rng.random() < 0.7:
                    s[1]()
                elif k == 2:
                    break
                if i >= self.rng.integers(0, 2 * len(self.model.trees)):
                    break
            del g
        e = {"op": "abandon"}
        if self.known:
            e["sg"] = fx(self.model.sigma.current_value(), self.scale)
        if self.rng.random() < 0.4:
            e = self.pred("abandon", e)
        self.ev.append(e)

    def edit(self):
        """the caller changes a leaf value between sweeps"""
        k = int(self.rng.integers(len(self.model.trees)))
        t = self.model.trees[k]
        leaf = t.leaf_nodes[self.rng.integers(len(t.leaf_nodes))]
        leaf.set_value(float(self.rng.integers(-500, 501)) / G)
        self.ev.append({"op": "edit", "k": k + 1, "h": obs.heap_index(t)[id(leaf)], "x": fx(leaf.current_value, self.scale)})

    def retarget(self):
        """the caller points a tree at targets of his own between sweeps: the next sweep aims it at its residuals again"""
        t = self.model.trees[int(self.rng.integers(len(self.model.trees)))]
        t.update_y(self.rng.integers(-500, 501, size=len(self.X)) / G)

    def f(self, xs):
        return [fx(x, self.scale) for x in xs]

    def result(self, xs):
        r = self.f(xs)
        gen.use(self.rng, xs)
        return r

    def maybe_pred(self, p=0.15):
        if self.rng.random() < p * self.watch:
            self.ev.append(self.pred())

    def pred(self, op="pred", extra=None):
        e = {"op": op}
        e.update(extra or {})
        ks = ["pin", "pq", "rs"]
        self.rng.shuffle(ks)
        for k in ks:
            if self.rng.random() < 0.6:
                if k == "pin":
                    e["pin"] = self.result(self.model.predict())
                elif k == "rs":
                    e["rs"] = self.result(self.model.residuals())
                else:
                    i = int(self.rng.integers(len(self.Q)))
                    e["pq"] = [i + 1, self.result(self.model.predict(self.ask(self.Q[i], frames=True)))]
        return e

    def where(self, node):
        for k, t in enumerate(self.model.trees):
            for n in t.nodes:
                if n is node:
                    return k + 1, obs.heap_index(t).get(id(node), -1)
        return 0, 0

    def tree(self, model, tree):
        k = next((i + 1 for i, t in enumerate(model.trees) if t is tree), 0)
        self.maybe_pred()
        seen = []
        for n in tree.nodes:
            s = self.f(n.data.y.values)
            if s not in seen:
                seen.append(s)
        e = {"op": "tree", "k": k, "seen": seen}
        heap = obs.heap_index(tree)
        if self.rng.random() < 0.4 and self.scale != FINE:
            e["sums"] = [[heap.get(id(n), -1), fx(n.data.y.summed_y(), self.scale)] for n in tree.nodes]
        if max(heap.values()) > 2 ** 26:
            ms = []
        else:
            m = self.inner_tree.step(model, tree)
            ms = treesuite.mutations_list(m)
        e["ms"] = [obs.mutation_of(x, heap, self.ranker, self.scale) for x in ms]
        if self.rng.random() < 0.3 * self.watch:
            parts = ["lists", "split", "rows", "rows2", "n", "sv"] + (["yv"] if self.exact else []) + (["s"] if self.exact and self.scale == G else [])
            parts = list(self.rng.choice(parts, size=self.rng.integers(0, len(parts) + 1), replace=False))
            e["obs"] = obs.observe_tree(tree, self.ranker, self.rng, self.X, parts, scale=self.scale)
        self.ev.append(e)
        return ms if ms else None

    def leaf(self, model, node):
        k, h = self.where(node)
        e = {"op": "leaf", "k": k, "h": h}
        if self.rng.random() < 0.3 and self.scale != FINE:
            e["sum"] = fx(node.data.y.summed_y(), self.scale)
        if self.exact:
            v = self.inner_leaf.sample(model, node)
            top = 4000 if self.scale == G else FINE // 4
            node.set_value(float(np.clip(np.round(v * self.scale), -top, top)) / self.scale)
        else:
            self.inner_leaf.step(model, node)
            if self.known:
                e["z"] = self.known.last
        e["x"] = fx(node.current_value, self.scale)
        self.ev.append(e)
        self.maybe_pred(0.1)
        return node.current_value

    def sigma(self, model, sigma):
        e = {"op": "sigma", "res": self.f(model.residuals())}
        if self.rng.random() < 0.3 * self.watch:
            e = self.pred("sigma", e)
        self.ev.append(e)
        r = self.inner_sigma.step(model, sigma)
        if self.known:
            e["sg"] = fx(r, self.scale)
        return r


def hand_trees(rng, X, data_of, n_trees):
    """trees the caller built: random legal structure, dyadic leaf values"""
    trees = []
    for _ in range(n_trees):
        t = Tree([LeafNode(Split(data_of()))])
        for _ in range(int(rng.integers(0, 4))):
            leaf = t.leaf_nodes[rng.integers(len(t.leaf_nodes))]
            rows = np.nonzero(~np.asarray(leaf.data.mask))[0]
            Xf = np.asarray(X, dtype=float)
            ok = [j for j in range(X.shape[1]) if len(np.unique(Xf[rows, j])) > 1]
            if not ok:
                continue
            v = int(rng.choice(ok))
            mutate(t, GrowMutation(leaf, treesuite.grow_by_hand(rng, X, leaf, v, float(rng.choice(np.unique(Xf[rows, v])[:-1])))))
        for leaf in t.leaf_nodes:
            leaf.set_value(float(rng.integers(-200, 200)) / G)
        trees.append(t)
    return trees


def exact_target(rng, n, top=1024):
    """a target whose normalised values are multiples of 1/top"""
    y = rng.integers(0, top + 1, size=n).astype(float)
    y[rng.integers(n)] = 0.
    if n > 1:
        i, j = rng.choice(n, size=2, replace=False)
        y[i], y[j] = 0., float(top)
    return y * 2.0 ** rng.integers(-4, 5) + float(rng.integers(-8, 8)) * 16


def sweeps(seed, mode="exact", n_sweeps=4, big=0, faults=False):
    rng = np.random.default_rng(seed)
    np.random.seed(seed % (2 ** 32))
    exact, known = mode in ("exact", "fine"), mode == "known"
    X = gen.matrix(rng, n=rng.integers(1, 12) if big == 0 else rng.integers(20, 50) if big == 1 else rng.integers(2, 8),
                   p=rng.integers(1, 4))
    n, p = X.shape
    n_trees = int(rng.choice([1, 1, 2, 3, 5, 8])) if big == 0 else int(rng.choice([1, 2, 4])) if big == 1 else int(rng.choice([20, 51, 100]))
    if mode == "fine":
        n_trees = min(n_trees, 5)
    y = exact_target(rng, n, FINE if mode == "fine" else G) if exact else rng.normal(size=n) * 10 ** float(rng.integers(-3, 4))
    Q = [np.asarray(X, dtype=float)] + gen.queries(rng, X, 1)
    if p < 3 and n_trees < 6 and rng.random() < 0.05:
        Q.append(gen.many(rng, X))
    ranker = obs.Ranker(p)
    for q in Q:
        ranker.add_matrix(q)
    scale = FINE if mode == "fine" else G if exact else 10 ** 6
    data = Data(X, np.array(y), normalize=True)
    k = rng.integers(5)
    tol = 0 if exact else n_trees + 8
    head = {}
    ev = []
    try:
        kwargs = dict(alpha=float(rng.choice([0.5, 0.95, 0.99])), beta=float(rng.choice([0., 1., 2.])), k=float(rng.choice([1., 2., 3.])))
        sigma = Sigma(0.001 if rng.random() < .5 else 2.0, 0.001, data.y.normalizing_scale)
        if known:
            sigma = Sigma(float(rng.choice([1., 2., 4.])), float(rng.choice([0.05, 0.3, 1.])), data.y.normalizing_scale)
        if k == 0:
            yn = np.array(data.y.values)
            model = Model(data, sigma, trees=hand_trees(rng, X, lambda: Data(X, np.array(yn)), n_trees), initializer=None, **kwargs)
        elif k == 1 and not exact:
            model = Model(data, sigma, n_trees=n_trees, initializer=SklearnTreeInitializer(max_depth=int(rng.integers(1, 4))), **kwargs)
        else:
            model = Model(data, sigma, n_trees=n_trees, initializer=None, **kwargs)
        ts = [get_tree_sampler(0.5, 0.5), get_tree_sampler(0.7, 0.3), oblivious_sampler(0.5, 0.5),
              UnconstrainedTreeMutationSampler(UniformMutationProposer([0.6, 0.4]), treesuite.FixedRatio(np.inf)),
              UnconstrainedTreeMutationSampler(UniformMutationProposer([0.5, 0.5]), treesuite.FixedRatio(np.inf))][rng.integers(5)]
        rec = Recorder(model, X, Q, ranker, rng, scale, exact, ts, watch=float(rng.choice([0., 0.5, 1.])), known=known)
        ev = rec.ev
        head = {"Y": rec.f(model.data.y.values), "gs": [obs.graph(t, ranker, scale) for t in model.trees]}
        if known:
            head.update(kk=int(kwargs["k"]), sg0=fx(sigma.current_value(), scale))
        ev.append(rec.pred("init") if rec.watch else {"op": "init"})
        sampler = ModelSampler(rec.schedule)
        stored = []
        if faults or rng.random() < 0.5:          # through the step interface
            tl = TraceLogger()
            for s in range(n_sweeps):
                if faults and rng.random() < 0.4:
                    rec.give_up(sampler)
                if faults and rng.random() < 0.3:
                    rec.edit()
                if faults and rng.random() < 0.3:
                    rec.retarget()
                sampler.step(model, tl)
                ev.append(rec.pred("sweep") if rng.random() < rec.watch else {"op": "sweep"})
                if rng.random() < 0.3:
                    stored.append((sum(e["op"] == "sweep" for e in ev), deep_copy_model(model)))
        else:                           # through whole chains: the sweep ends with the noise draw
            nb = int(rng.integers(0, n_sweeps))
            real = rec.sigma

            def with_end(model, sigma):
                r = real(model, sigma)
                ev.append({"op": "sweep"})
                return r
            rec.sigma = with_end
            out = sampler.samples(model, n_sweeps - nb, nb, 1.0, bool(rng.random() < .5), bool(rng.random() < .5))
            stored = [(nb + i + 1, m) for i, m in enumerate(out["model"])]
        ev.append({"op": "pred", "pin": rec.f(model.predict()), "pq": [1, rec.f(model.predict(Q[0]))]})
        for s, m in stored:
            i = int(rng.integers(len(Q)))
            ev.append({"op": "stored", "k": s, "pq": [i + 1, rec.f(m.predict(rec.ask(Q[i], frames=True)))], "gs": [obs.graph(t, ranker, scale) for t in m.trees]})
    except Exception as e:
        ev.append({"op": "error", "what": describe(e)})
        if not head:
            head = {"Y": [0] * n, "gs": [[[0, 0, 0, 0, 0, 0, 0, 0, 0, -1]]]}
    ranker.freeze()
    tr = {"X": ranker.matrix(X), "Q": [ranker.matrix(q) for q in Q], "tol": tol, "ev": ev}
    tr.update(head)
    return obs.resolve(tr, ranker)


def run(ctx):
    ctx.design("MCGibbs", ctx.n("MCGibbs", "MCGibbsDeep"))
    ctx.design("MCGibbs", "MCGibbsFaults")
    ctx.refuted("MCGibbs", "MCGibbsKept")
    kws = [dict(seed=s, mode=["exact", "raw", "exact", "raw", "fine"][i % 5], n_sweeps=[3, 6, 3, 6, 3, 6, 25][i % 7] if i % 6 < 5 else 3, big=[0, 0, 0, 1, 0, 2][i % 6])
           for i, s in enumerate(ctx.seeds(ctx.n(300, 4000), "gibbs"))]
    if ctx.cid in ("C08",):
        kws = []
    kws += [dict(seed=s, mode="known", n_sweeps=[3, 6, 12][i % 3], big=[0, 0, 1][i % 3]) for i, s in enumerate(ctx.seeds(ctx.n(120, 1500), "gibbs-known"))]
    kws += [dict(seed=s, mode=["exact", "raw", "fine", "known"][i % 4], n_sweeps=[3, 6][i % 2], big=[0, 0, 0, 1, 0, 2][i % 6], faults=True) for i, s in enumerate(ctx.seeds(ctx.n(150, 2000), "gibbs-faults"))]
    ctx.validate("TraceGibbs", pmap(sweeps, kws), "gibbs.sweeps", kws)
