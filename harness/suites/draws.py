"""C08: leaf and noise draws against their full conditional distributions."""
import numpy as np

from bartpy.data import Data
from bartpy.model import Model
from bartpy.mutation import GrowMutation
from bartpy.node import LeafNode
from bartpy.samplers.leafnode import LeafNodeSampler
from bartpy.samplers.sigma import SigmaSampler
from bartpy.sigma import Sigma
from bartpy.split import Split
from bartpy.tree import Tree, mutate

from suites import gibbs
from suites import tree as treesuite
from suites.mh import legal_moves, lcm
from vlib import gen, obs
from vlib.drive import describe, pmap
from vlib.num import fx

LU = 10 ** 6
GR = 4


class Fixed:
    def __init__(self, z):
        self.z = z

    def sample(self):
        return self.z


def build(rng, unit=1.):
    """a model with known trees, leaf values, targets and noise, and the events that build it in the specification;
    unit: the size of one in the target, a power of two, so that the same history is of a large or a small target"""
    X = gen.matrix(rng, n=rng.integers(1, 13), p=rng.integers(1, 3))
    n, p = X.shape
    nt, k = int(rng.choice([1, 1, 2, 3, 5])), int(rng.integers(1, 4))
    many = rng.random() < 0.06
    if many:                        # as many trees as is usual
        nt, k = int(rng.choice([51, 60, 100, 200])), int(rng.choice([1, 2]))
    d = lcm(16, 4 * k * k * nt)
    Y = rng.integers(-6, 7, size=n).astype(float) / GR
    ranker = obs.Ranker(p)
    ranker.add_matrix(X)
    ev, trees = [], []
    for t in range(nt):
        tree = Tree([LeafNode(Split(Data(X, np.array(Y) * unit)))])
        for _ in range(int(rng.integers(0, 4)) if t < 5 else 0):
            ms = [m for m in legal_moves(tree, X) if m[0] == "grow"]
            if not ms:
                break
            m = ms[rng.integers(len(ms))]
            ev.append({"op": "grow", "k": t + 1, "h": int(m[1]), "v": int(m[2]), "c": obs.Cut(ranker, m[2] - 1, m[3])})
            node = next(q for q in tree.leaf_nodes if obs.heap_index(tree)[id(q)] == m[1])
            mutate(tree, GrowMutation(node, treesuite.grow_by_hand(rng, X, node, m[2] - 1, m[3])))
        heap = obs.heap_index(tree)
        for leaf in tree.leaf_nodes:
            x = int(rng.integers(-3, 4)) if t < 5 else 0
            leaf.set_value(x / GR * unit)
            ev.append({"op": "value", "k": t + 1, "h": heap[id(leaf)], "x": x})
        trees.append(tree)
    a2 = n % 2 + 2 * int(rng.integers(0 if n > 1 else 1, 3))
    a2 = a2 or 2
    b = int(rng.choice([1, 2, 5]))
    sigma = Sigma(a2 / 2., b * unit ** 2, 1.0)
    data = Data(X, np.array(Y) * unit)
    model = Model(data, sigma, trees=trees, alpha=0.9, beta=1., k=float(k), initializer=None)
    head = {"X": None, "y": [fx(v, GR) for v in Y], "Y": [fx(v, GR) for v in Y], "nt": nt,
            "p": {"k": k, "nt": nt, "d": d, "m": d // (4 * k * k * nt), "g": GR}, "ev": ev}
    return X, ranker, model, head, a2, b


def finish(X, ranker, head):
    ranker.freeze()
    head["X"] = ranker.matrix(X)
    return obs.resolve(head, ranker)


def noise_to(rng, model, ev):
    sg = int(rng.choice([1, 2, 3, 4, 6, 8, 13, 20, 40]))
    model.sigma.set_value(sg / 4.)
    ev.append({"op": "noise", "q": [sg * sg, 16]})


def target_to(rng, model, n, ev):
    y = rng.integers(-6, 7, size=n).astype(float) / GR
    for t in model.trees:
        t.update_y(y)
    ev.append({"op": "target", "y": [fx(v, GR) for v in y]})


def used(rng, leaf_sampler, noise_sampler):
    """samplers that have served a model with other settings before"""
    if rng.random() < 0.7:
        _, _, model, _, _, _ = build(rng)
        target_to(rng, model, model.data.X.n_obsv, [])
        leaf_sampler.sample(model, model.trees[0].leaf_nodes[0])
        noise_sampler.step(model, model.sigma)


def leaves(seed):
    """the value of each leaf as a function of the standard normal"""
    rng = np.random.default_rng(seed)
    np.random.seed(seed % (2 ** 32))
    f = Fixed(0.)
    s = LeafNodeSampler(scalar_sampler=f)
    used(rng, s, SigmaSampler())
    X, ranker, model, head, _, _ = build(rng)
    ev = head["ev"]
    try:
        noise_to(rng, model, ev)
        target_to(rng, model, len(X), ev)
        for _ in range(3):
            for t, tree in enumerate(model.trees):
                heap = obs.heap_index(tree)
                for leaf in tree.leaf_nodes:
                    z = int(rng.integers(-30, 31))
                    f.z = z / 10.
                    if rng.random() < 0.5:
                        x = s.sample(model, leaf)
                    else:
                        s.step(model, leaf)
                        x = leaf.current_value
                    ev.append({"op": "leaf", "k": t + 1, "h": heap[id(leaf)], "z": z, "x": fx(x, LU)})
            c = rng.integers(3)
            if c == 0:
                noise_to(rng, model, ev)
            elif c == 1:
                target_to(rng, model, len(X), ev)
    except Exception as e:
        ev.append({"op": "error", "what": describe(e)})
    return finish(X, ranker, head)


def distributions(seed, n_draws):
    """binned counts of real draws"""
    rng = np.random.default_rng(seed)
    np.random.seed(seed % (2 ** 32))
    ls, ss = LeafNodeSampler(), SigmaSampler()
    used(rng, ls, ss)
    unit = 2. ** int(rng.choice([-20, -12, -6, -2, 0, 0, 2, 6, 12, 20]))
    X, ranker, model, head, a2, b = build(rng, unit)
    ev = head["ev"]
    try:
        # the noise first: it depends on the trees and the data only
        same, pos = 1, 1
        draws = np.empty(n_draws)
        for i in range(n_draws):
            draws[i] = ss.step(model, model.sigma)
            if model.sigma.current_value() != draws[i]:
                same = 0
            if not (draws[i] > 0 and np.isfinite(draws[i])):
                pos = 0
        prec = (draws / unit) ** -2.
        edges = [fx(q, LU) for q in np.quantile(prec, [.02, .1, .25, .4, .6, .75, .9, .98])]
        ev.append({"op": "noisedist", "n": n_draws, "a2": a2, "b": b, "same": same, "positive": pos, "edges": edges,
                   "above": [int(np.sum(prec > q / LU)) for q in edges]})
        noise_to(rng, model, ev)
        target_to(rng, model, len(X), ev)
        t = int(rng.integers(len(model.trees)))
        tree = model.trees[t]
        heap = obs.heap_index(tree)
        leaf = tree.leaf_nodes[rng.integers(len(tree.leaf_nodes))]
        draws = np.array([ls.sample(model, leaf) for _ in range(n_draws)])
        edges = [fx(q, LU) for q in np.quantile(draws, [.02, .1, .25, .4, .6, .75, .9, .98])]
        ev.append({"op": "leafdist", "k": t + 1, "h": heap[id(leaf)], "n": n_draws, "edges": edges,
                   "below": [int(np.sum(draws < q / LU)) for q in edges]})
    except Exception as e:
        ev.append({"op": "error", "what": describe(e)})
    return finish(X, ranker, head)


def run(ctx):
    ctx.design("MCDraws", ctx.n("MCDraws", "MCDrawsDeep"))
    kws = [dict(seed=s) for s in ctx.seeds(ctx.n(300, 4000), "draws-leaf")]
    ctx.validate("TraceDraws", pmap(leaves, kws), "draws.leaves", kws)
    kws = [dict(seed=s, n_draws=ctx.n(12000, 40000)) for s in ctx.seeds(ctx.n(48, 300), "draws-dist")]
    ctx.validate("TraceDraws", pmap(distributions, kws, limit="long"), "draws.distributions", kws)
