"""C09: what chains run and record; C10: stored samples."""
import pickle
from copy import deepcopy
from fractions import Fraction
from math import ceil

import numpy as np

from bartpy.data import Data
from bartpy.model import Model, deep_copy_model
from bartpy.mutation import GrowMutation, PruneMutation
from bartpy.node import LeafNode
from bartpy.samplers.leafnode import LeafNodeSampler
from bartpy.samplers.modelsampler import ModelSampler
from bartpy.samplers.oblivioustrees.treemutation import get_tree_sampler as oblivious_sampler
from bartpy.samplers.schedule import SampleSchedule
from bartpy.samplers.sigma import SigmaSampler
from bartpy.samplers.treemutation import TreeMutationSampler
from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
from bartpy.sigma import Sigma
from bartpy.sklearnmodel import SklearnModel
from bartpy.split import Split
from bartpy.trace import TraceLogger
from bartpy.tree import Tree, mutate

from suites import tree as treesuite
from suites.gibbs import hand_trees
from vlib import gen, obs
from vlib.drive import describe, pmap
from vlib.num import fx

LU = 10 ** 6


class Names:
    """exact identity of floats as small integers"""

    def __init__(self):
        self.d = {}

    def __getitem__(self, x):
        return self.d.setdefault(float(x), len(self.d) + 1)


class Watcher(TreeMutationSampler):
    """tree sampler that recognises sweeps: the state a sweep leaves is what the next sweep, or the end, finds"""

    def __init__(self, inner, keep=None):
        self.inner = inner
        self.keep = keep if keep is not None else {"chains": []}

    def __deepcopy__(self, memo):
        return Watcher(deepcopy(self.inner, memo), self.keep)

    def step(self, model, tree):
        chains = self.keep["chains"]
        if self.keep.get("fuse") is not None:       # a chain that breaks off in the middle of its work
            self.keep["fuse"] -= 1
            if self.keep["fuse"] < 0:
                self.keep["fuse"] = None
                raise self.keep["fault"]("the chain breaks off")
        if not chains or chains[-1]["model"] is not model:
            chains.append({"model": model, "sweeps": [], "cur": None})
        c = chains[-1]
        if c["cur"] is None or id(tree) in c["ids"]:
            self.close(c)
            c["cur"], c["ids"] = [], set()
        c["ids"].add(id(tree))
        r = self.inner.step(model, tree)
        c["cur"].append(0 if r is None or r == [] else 1)
        return r

    @staticmethod
    def close(c):
        if c["cur"] is not None:
            c["sweeps"].append((c["model"].sigma.current_value(), np.array(c["model"].predict()), c["cur"]))
        c["cur"] = None


def thin_of(rng, n):
    if rng.random() < 0.3:
        f = Fraction(1)
    elif rng.random() < 0.2:        # an unusual fraction
        d = int(rng.choice([333, 997, 1000, 10000]))
        f = Fraction(int(rng.integers(1, d + 1)), d)
    else:
        f = Fraction(int(rng.integers(1, 11)), int(rng.choice([10, 10, 11, 12, 20, 25, 100])))
        f = min(f, Fraction(1))
    return f


def events(keep, ev, names):
    for c in keep["chains"]:
        Watcher.close(c)
        ev.append({"op": "chain"})
        for (s, p, acc) in c["sweeps"]:
            ev.append({"op": "sweep", "s": names[s], "p": [fx(v, LU) for v in p], "n": len(acc),
                       "a": fx(sum(acc) / max(1, len(acc)), LU)})


def group(models, preds, accs, names, X, per, n_chains):
    res = []
    for c in range(n_chains):
        sl = slice(c * per, (c + 1) * per)
        ms, ps, acs = models[sl], preds[sl], accs[sl]
        res.append({"m": [names[m.sigma.current_value()] for m in ms], "mp": [[fx(v, LU) for v in m.predict(X)] for m in ms],
                    "p": [[fx(v, LU) for v in p] for p in ps], "a": [fx(a["Tree"], LU) for a in acs]})
    return res


def chains(seed, how, long=False):
    rng = np.random.default_rng(seed)
    np.random.seed(seed % (2 ** 32))
    X = gen.matrix(rng, n=rng.integers(2, 9), p=rng.integers(1, 3))
    n, p = X.shape
    y = rng.integers(-20, 21, size=n).astype(float) + rng.normal(size=n)
    nt = int(rng.choice([1, 2, 3, 5]))
    burn, samp = int(rng.choice([0, 0, 1, 2, 7])), int(rng.choice([1, 2, 3, 5, 10, 17, 30, 60]))
    f = thin_of(rng, samp)
    if long:
        X, y, nt = X[:3, :1], y[:3], 1
        burn, samp = int(rng.choice([0, 250, 600, 1100])), int(rng.choice([1, 300, 700, 1300]))
    if not long and rng.random() < 0.04:       # as many trees as is usual
        nt, burn, samp = int(rng.choice([60, 110, 200])), int(rng.choice([0, 1])), int(rng.choice([1, 2, 5]))
    n_chains = 1 if long or how == "sampler" else int(rng.choice([1, 2, 3, 4]))
    wantp, wanta = bool(rng.integers(2)), bool(rng.integers(2))
    names, ev = Names(), []
    head = {"cfg": {"burn": burn, "samp": samp, "tn": f.numerator, "td": f.denominator, "wantp": int(wantp), "wanta": int(wanta), "nt": nt, "chains": n_chains},
            "tol": 20, "ev": ev}
    inner = get_tree_sampler(0.5, 0.5) if rng.random() < 0.8 else oblivious_sampler(0.5, 0.5)
    w = Watcher(inner)
    per = ceil(f * samp)
    try:
        if how == "sampler":
            data = Data(X, np.array(y), normalize=True)
            model = Model(data, Sigma(1., 0.5, data.y.normalizing_scale), n_trees=nt, initializer=None)
            out = ModelSampler(SampleSchedule(w, LeafNodeSampler(), SigmaSampler())).samples(model, samp, burn, float(f), wantp, wanta)
            models, preds, accs = out["model"], out["in_sample_predictions"], out["acceptance"]
        else:
            m = SklearnModel(n_trees=nt, n_chains=n_chains, n_samples=samp, n_burn=burn, thin=float(f), sigma_a=1., sigma_b=0.5,
                             store_in_sample_predictions=wantp, store_acceptance_trace=wanta, tree_sampler=w, n_jobs=1)
            if how == "refit":
                m.fit(X[::-1], y * 3)
                w.keep["chains"].clear()
            m.fit(X, y)
            models, preds, accs = m.model_samples, m.prediction_samples, m.acceptance_trace
        events(w.keep, ev, names)
        total = len(models)
        ev.append({"op": "out", "total": total, "chains": group(list(models), list(preds), list(accs), names, np.asarray(X, dtype=float), per, n_chains)})
    except Exception as e:
        ev.append({"op": "error", "what": describe(e)})
    return head


# ---------------------------------------------------------------------------------------------- stored samples

def canon(tree):
    """reachable part of the tree by heap number, and the number of links that leave the tree's own nodes"""
    nodes = list(tree.nodes)
    own = {id(n) for n in nodes}
    heap = obs.heap_index(tree)
    seen, out, todo = [], 0, [(n, heap.get(id(n), 0)) for n in nodes]
    for n, h in todo:
        for ch in (n.left_child, n.right_child):
            if ch is not None and id(ch) not in own:
                out += 1
        k = obs.kind_of(n)
        conds = [[int(c.splitting_variable), fx(c.splitting_value, 1000), 0 if c.operator.__name__ == "le" else 1] for c in [n.split.most_recent_split_condition()] if c is not None]
        rule = []
        if k == 1:
            c = n.most_recent_split_condition()
            rule = [int(c.splitting_variable), fx(c.splitting_value, 1000)]
        seen.append([h, k, int(n.depth), fx(n.current_value, LU) if k == 0 else 0, rule, conds])
    return sorted(seen, key=lambda x: x[0]), out


def all_nodes(model):
    ids = {}
    for t in model.trees:
        todo = list(t.nodes)
        while todo:
            n = todo.pop()
            if n is None or id(n) in ids:
                continue
            ids[id(n)] = n
            todo += [n.left_child, n.right_child]
    return ids


def state(model, Q):
    trees, out = [], 0
    for t in model.trees:
        c, o = canon(t)
        trees.append(c)
        out += o
    return {"trees": trees, "sg": fx(model.sigma.current_value(), LU),
            "prior": [fx(model.alpha, LU), fx(model.beta, LU), fx(model.k, LU), int(model.n_trees), fx(model.sigma_m, LU),
                      fx(model.sigma.alpha, LU), fx(model.sigma.beta, LU), fx(model.sigma.scaling_factor, 1000), fx(model.sigma.current_unnormalized_value(), 1000)],
            "pred": [fx(v, LU) for v in model.predict(Q)]}, out


def snapshots(seed, n_events):
    rng = np.random.default_rng(seed)
    np.random.seed(seed % (2 ** 32))
    X = np.asarray(gen.matrix(rng, n=rng.integers(2, 10), p=rng.integers(1, 4)), dtype=float)
    X = np.where(np.abs(X) > 1e5, np.sign(X) * 1e5, X)
    n, p = X.shape
    y = rng.normal(size=n)
    Q = gen.queries(rng, X, 1)[-1]
    Q = np.clip(Q, -1e6, 1e6)
    nt = int(rng.choice([1, 2, 3]))
    ev = []
    try:
        data = Data(X, np.array(y), normalize=True)
        prior = dict(alpha=float(rng.choice([0.5, 0.95, 0.8])), beta=float(rng.choice([0.5, 1., 2.])), k=float(rng.choice([1., 2., 3., 2.5])))
        sigma = Sigma(float(rng.choice([1., 2.])), 0.3, data.y.normalizing_scale)
        if rng.random() < 0.3:
            yn = np.array(data.y.values)
            model = Model(data, sigma, trees=hand_trees(rng, X, lambda: Data(X, np.array(yn)), nt), initializer=None, **prior)
        else:
            model = Model(data, sigma, n_trees=nt, initializer=None, **prior)
        sampler = ModelSampler(SampleSchedule(treesuite_sampler(rng), LeafNodeSampler(), SigmaSampler()))
        tl = TraceLogger()
        snaps = []

        def look(m, op, extra=None):
            st, out = state(m, Q)
            e = {"op": op, "st": st}
            if op in ("store", "look"):
                mine = set(all_nodes(m))
                e["outside"] = out
                e["shared"] = sum(len(mine & set(all_nodes(o))) for o in [model] + snaps if o is not m)
            e.update(extra or {})
            ev.append(e)

        look(model, "live")
        for _ in range(n_events):
            r = rng.random()
            if r < 0.3:
                for _ in range(int(rng.integers(1, 4))):
                    sampler.step(model, tl)
                look(model, "live")
            elif r < 0.5:
                if len(snaps) < 5:
                    c = rng.integers(3)
                    s = deep_copy_model(model) if c == 0 else tl["Model"](model) if c == 1 else pickle.loads(pickle.dumps(deep_copy_model(model)))
                    snaps.append(s)
                    look(s, "store")
            elif r < 0.56:
                model.sigma.set_value(float(rng.random()) + 0.1)
                if rng.random() < 0.5:
                    model.alpha, model.beta, model.k = float(rng.choice([.3, .6])), 1.5, 4.
                look(model, "live")
            elif r < 0.62:
                t = model.trees[rng.integers(nt)]
                leaf = t.leaf_nodes[rng.integers(len(t.leaf_nodes))]
                leaf.set_value(float(rng.normal()))
                look(model, "live")
            elif snaps and r < 0.8:
                i = int(rng.integers(len(snaps)))
                s = snaps[i]
                t = s.trees[rng.integers(len(s.trees))]
                c = rng.integers(4)
                if c == 0:
                    t.leaf_nodes[rng.integers(len(t.leaf_nodes))].set_value(float(rng.normal()))
                elif c == 1:
                    s.sigma.set_value(float(rng.random()) + 0.1)
                elif c == 2:
                    s.alpha, s.k = float(rng.random()), 1.
                else:
                    pr = t.prunable_decision_nodes
                    if pr:
                        d = pr[rng.integers(len(pr))]
                        mutate(t, PruneMutation(d, LeafNode(d.split, depth=d.depth)))
                st, _ = state(s, Q)
                ev.append({"op": "edit", "i": i + 1, "st": st})
                if rng.random() < 0.5:
                    look(model, "looklive")
            if snaps and rng.random() < 0.6:
                i = int(rng.integers(len(snaps)))
                if rng.random() < 0.3:
                    snaps[i].predict(Q)
                look(snaps[i], "look", {"i": i + 1})
        for i, s in enumerate(snaps):
            look(s, "look", {"i": i + 1})
    except Exception as e:
        ev.append({"op": "error", "what": describe(e)})
    return {"ev": ev}


def survivors(seed):
    """the samples of a fit, while the estimator is used, refitted, cloned, copied and edited"""
    from sklearn.base import clone
    rng = np.random.default_rng(seed)
    np.random.seed(seed % (2 ** 32))
    X = np.clip(np.asarray(gen.matrix(rng, n=rng.integers(4, 10), p=rng.integers(1, 4)), dtype=float), -1e5, 1e5)
    n, p = X.shape
    y = rng.normal(size=n) * 3
    Q = np.clip(gen.queries(rng, X, 1)[-1], -1e6, 1e6)
    ev = []
    try:
        m = SklearnModel(n_trees=int(rng.integers(1, 4)), n_chains=int(rng.integers(1, 4)), n_samples=int(rng.integers(1, 5)), n_burn=int(rng.integers(0, 9)), thin=1.,
                         n_jobs=int(rng.choice([1, 1, 1, 2])), tree_sampler=treesuite_sampler(rng) if rng.random() < 0.5 else get_tree_sampler(0.5, 0.5),
                         store_acceptance_trace=bool(rng.integers(2)), store_in_sample_predictions=True)
        m.fit(X, y)
        mine, others = list(m.model_samples)[:6], []

        def shared(s):
            a = set(all_nodes(s))
            return sum(len(a & set(all_nodes(o))) for o in mine + others if o is not s)
        for s in mine:
            st, out = state(s, Q)
            ev.append({"op": "adopt", "st": st, "outside": out, "shared": shared(s)})
        for _ in range(6):
            c = rng.integers(9)
            if c == 0:
                m.predict(Q)
                m.predict()
            elif c == 1:
                m.residuals(X, y)
                m.rmse(X, y)
            elif c == 2:
                m.fit(X, y)
                others = list(m.model_samples)[:4]
            elif c == 3:
                m.fit(X[:, :1], -5 * y)
                others = list(m.model_samples)[:4]
            elif c == 4:
                other = clone(m).fit(X, y)
                others = list(other.model_samples)[:4]
            elif c == 5:
                other = deepcopy(m)
                for s in other.model_samples:
                    for leaf in s.trees[0].leaf_nodes:
                        leaf.set_value(9.)
                    s.sigma.set_value(7.)
                others = list(other.model_samples)[:4]
            elif c == 6:
                m.set_params(n_trees=2, alpha=0.7, sigma_a=2., thin=1.)
            elif c == 7:
                chain = m.f_delayed_chains(X, y)[0] if hasattr(m, "f_delayed_chains") else None
                if chain is not None:
                    fn, a, k = chain
                    fn(*a, **k)
            else:
                from bartpy.diagnostics.features import feature_split_proportions
                feature_split_proportions(m)
                m.f_chains() if hasattr(m, "f_chains") else None
            for i in set(int(v) for v in rng.integers(len(mine), size=2)):
                st, out = state(mine[i], Q)
                ev.append({"op": "look", "i": i + 1, "st": st, "outside": out, "shared": shared(mine[i])})
        for i, s in enumerate(mine):
            st, out = state(s, Q)
            ev.append({"op": "look", "i": i + 1, "st": st, "outside": out, "shared": shared(s)})
    except Exception as e:
        ev.append({"op": "error", "what": describe(e)})
    return {"ev": ev}


def treesuite_sampler(rng):
    from bartpy.samplers.unconstrainedtree.proposer import UniformMutationProposer
    from bartpy.samplers.unconstrainedtree.treemutation import UnconstrainedTreeMutationSampler
    return [get_tree_sampler(0.5, 0.5), oblivious_sampler(0.5, 0.5),
            UnconstrainedTreeMutationSampler(UniformMutationProposer([0.6, 0.4]), treesuite.FixedRatio(np.inf))][rng.integers(3)]


# ------------------------------------------------------------------------------- behaviours of MCSnap, replayed

def at(tree, path):
    kids = {id(c) for n in tree.nodes for c in (n.left_child, n.right_child) if c is not None}
    node = next(n for n in tree.nodes if id(n) not in kids)
    for ch in path[:-1]:
        node = node.left_child if ch == "L" else node.right_child
    return node


def abs_of(node):
    if isinstance(node, LeafNode):
        return ["L", int(node.current_value)]
    return ["D", int(node.most_recent_split_condition().splitting_value), abs_of(node.left_child), abs_of(node.right_child)]


def replay_snaps(items):
    X = np.array([[1.], [2.], [3.]])
    fails = []
    for it in items:
        try:
            tree = Tree([LeafNode(Split(Data(X, np.zeros(3))))])
            model = Model(Data(X, np.zeros(3)), Sigma(1., 1., 1.), trees=[tree], initializer=None)
            model.sigma.set_value(0)
            snaps = []
            for op in it["h"]:
                if op[0] == "grow":
                    leaf = at(tree, op[1])
                    mutate(tree, GrowMutation(leaf, treesuite.grow_by_hand(None, X, leaf, 0, float(op[2]))))
                elif op[0] == "prune":
                    d = at(tree, op[1])
                    mutate(tree, PruneMutation(d, LeafNode(d.split, depth=d.depth)))
                elif op[0] == "value":
                    at(tree, op[1]).set_value(op[2])
                elif op[0] == "noise":
                    model.sigma.set_value(op[1])
                elif op[0] == "store":
                    snaps.append(deep_copy_model(model))
                elif op[0] == "editvalue":
                    at(snaps[op[1] - 1].trees[0], op[2]).set_value(op[3])
                elif op[0] == "editprune":
                    t = snaps[op[1] - 1].trees[0]
                    d = at(t, op[2])
                    mutate(t, PruneMutation(d, LeafNode(d.split, depth=d.depth)))
            got = [[abs_of(at(m.trees[0], ".")), int(m.sigma.current_value())] for m in snaps]
            if got != it["snaps"]:
                fails.append(("C10.replay", "after %s: expected %s got %s" % (it["h"], it["snaps"], got), it))
            live = [abs_of(at(tree, ".")), int(model.sigma.current_value())]
            if live != it["live"]:
                fails.append(("C10.replaylive", "after %s: expected %s got %s" % (it["h"], it["live"], live), it))
        except Exception as e:
            fails.append(("ANY.raise", "%s in %s" % (describe(e), it["h"]), it))
    return {"n": len(items), "fails": fails}


def run(ctx):
    if ctx.cid != "C10":
        ctx.design("MCChain", ctx.n("MCChain", "MCChainDeep"))
        kws = [dict(seed=s, how=["sampler", "fit", "sampler", "refit"][i % 4]) for i, s in enumerate(ctx.seeds(ctx.n(240, 3000), "chain"))]
        kws += [dict(seed=s, how=["sampler", "fit"][i % 2], long=True) for i, s in enumerate(ctx.seeds(ctx.n(16, 120), "longchain"))]
        ctx.validate("TraceChain", pmap(chains, kws), "chain.chains", kws)
    if ctx.cid != "C09":
        ctx.refuted("MCSnap", "MCSnapShared")
        r = ctx.design("MCSnap", ctx.n("MCSnap", "MCSnapDeep"))
        items = r.printed("@T")
        for res in pmap(replay_snaps, [{"items": items[i::32]} for i in range(32)], limit="long"):
            if res is None:
                continue
            if "_error" in res:
                ctx.fail("ANY.raise", res["_error"], {"tb": res.get("_tb")})
                continue
            ctx.replay(res["n"])
            for c, d, it in res["fails"]:
                ctx.fail(c, d, {"module": "MCSnap", "behaviour": it})
        kws = [dict(seed=s, n_events=25) for s in ctx.seeds(ctx.n(200, 3000), "snap")]
        ctx.validate("TraceSnap", pmap(snapshots, kws), "chain.snapshots", kws)
        kws = [dict(seed=s) for s in ctx.seeds(ctx.n(120, 1500), "survive")]
        ctx.validate("TraceSnap", pmap(survivors, kws), "chain.survivors", kws)
