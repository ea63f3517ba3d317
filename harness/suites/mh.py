"""C07: acceptance ratios, decisions and transition frequencies of the default tree sampler."""
import math
from collections import Counter
from copy import deepcopy

import numpy as np

from bartpy.data import Data
from bartpy.model import Model
from bartpy.mutation import GrowMutation, PruneMutation
from bartpy.node import LeafNode
from bartpy.samplers.treemutation import TreeMutationProposer
from bartpy.samplers.unconstrainedtree.treemutation import UnconstrainedTreeMutationSampler, get_tree_sampler
from bartpy.sigma import Sigma
from bartpy.split import Split
from bartpy.tree import Tree, mutate

from suites import tree as treesuite
from vlib import gen, obs
from vlib.drive import describe, pmap
from vlib.num import fx

LU = 10 ** 6


def lcm(a, b):
    return a * b // math.gcd(a, b)


def params(rng):
    an, ad = [(95, 100), (1, 2), (3, 4), (1, 10), (99, 100)][rng.integers(5)]
    b10 = int(rng.choice([0, 10, 20, 20, 15, 5, 25]))
    pg, pp = [(50, 50), (30, 70), (90, 10), (60, 40), (20, 80)][rng.integers(5)]
    k, nt = int(rng.integers(1, 4)), int(rng.choice([1, 2, 3, 4, 5]))
    sg = int(rng.choice([1, 2, 3, 4, 8]))
    if rng.random() < 0.08:         # as many trees as is usual
        nt, k, sg = int(rng.choice([51, 60, 100, 200])), int(rng.choice([1, 2])), int(rng.choice([1, 2]))
    d = lcm(16, 4 * k * k * nt)
    return dict(an=an, ad=ad, b10=b10, pg=pg, pp=pp, v=sg * sg * d // 16, m=d // (4 * k * k * nt), d=d, g=4, k=k, nt=nt, sg=sg)


def make_model(p, X, y, tree):
    data = Data(X, np.array(y))
    sigma = Sigma(0.001, 0.001, 1.0)
    sigma.set_value(p["sg"] / 4.)
    others = [Tree([LeafNode(Split(Data(X, np.array(y))))]) for _ in range(p["nt"] - 1)]
    return Model(data, sigma, trees=[tree] + others, alpha=p["an"] / p["ad"], beta=p["b10"] / 10., k=float(p["k"]), initializer=None)


def make_move(tree, X, m):
    """the mutation <<kind, heap, col, cut>> of the specification, built by hand"""
    byheap = {h: i for i, h in obs.heap_index(tree).items()}
    nodes = {id(n): n for n in tree.nodes}
    node = nodes[byheap[m[1]]]
    if m[0] == "grow":
        return GrowMutation(node, treesuite.grow_by_hand(None, X, node, m[2] - 1, float(m[3])))
    return PruneMutation(node, LeafNode(node.split, depth=node.depth))


def legal_moves(tree, X):
    Xf = np.asarray(X, dtype=float)
    heap = obs.heap_index(tree)
    res = []
    for leaf in tree.leaf_nodes:
        rows = np.nonzero(~np.asarray(leaf.data.mask))[0]
        for j in range(X.shape[1]):
            for c in np.unique(Xf[rows, j])[:-1]:
                res.append(("grow", heap[id(leaf)], j + 1, float(c)))
    for d in tree.decision_nodes:
        if isinstance(d.left_child, LeafNode) and isinstance(d.right_child, LeafNode):
            res.append(("prune", heap[id(d)], 0, 0))
    return res


def enc(m, ranker):
    return [m[0], int(m[1]), int(m[2]), obs.Cut(ranker, m[2] - 1, m[3]) if m[0] == "grow" else 0]


class FixedProposer(TreeMutationProposer):
    def __init__(self, m):
        self.m = m

    def propose(self, tree):
        return self.m


class Const:
    def __init__(self, u):
        self.u = u

    def sample(self):
        return self.u


def grow_some(rng, tree, X, ranker, ev, k):
    for _ in range(k):
        ms = legal_moves(tree, X)
        if not ms or len(tree.nodes) > 25:
            break
        ms = [m for m in ms if m[0] == "grow"] or ms if rng.random() < 0.75 else ms
        m = ms[rng.integers(len(ms))]
        if m[1] > 2 ** 20:
            break
        ev.append({"op": m[0], "m": enc(m, ranker)})
        mutate(tree, make_move(tree, X, m))


def shape_of(tree, ranker):
    return obs.graph(tree, ranker, 1000)


def start(seed, big=False, deep=False):
    rng = np.random.default_rng(seed)
    np.random.seed(seed % (2 ** 32))
    X = gen.matrix(rng, n=rng.integers(2, 9) if not big else rng.integers(12, 25), p=rng.integers(1, 4))
    if deep:
        X = np.column_stack([rng.permutation(18).astype(float) for _ in range(int(rng.integers(1, 3)))])
    n, p = X.shape
    y = rng.integers(-4, 5, size=n).astype(float) / 4
    ranker = obs.Ranker(p)
    ranker.add_matrix(X)
    tree = Tree([LeafNode(Split(Data(X, np.array(y))))])
    return rng, X, y, ranker, tree


def done(P, X, y, ranker, ev):
    ranker.freeze()
    return obs.resolve({"X": ranker.matrix(X), "y": [fx(v, 4) for v in y], "p": P, "ev": ev}, ranker)


def grow_deep(rng, tree, X, ranker, ev, k):
    """a spine: always the deepest leaf, cut so that nearly all its rows stay together"""
    for _ in range(k):
        heap = obs.heap_index(tree)
        ms = [m for m in legal_moves(tree, X) if m[0] == "grow"]
        if not ms:
            break
        top = max(m[1].bit_length() for m in ms)
        ms = [m for m in ms if m[1].bit_length() == top]

        def larger(m):
            leaf = next(n for n in tree.leaf_nodes if heap[id(n)] == m[1])
            c = np.asarray(X, dtype=float)[~np.asarray(leaf.data.mask), m[2] - 1]
            return max((c <= m[3]).sum(), (c > m[3]).sum())
        best = max(larger(m) for m in ms)
        ms = [m for m in ms if larger(m) == best]
        m = ms[rng.integers(len(ms))]
        ev.append({"op": m[0], "m": enc(m, ranker)})
        mutate(tree, make_move(tree, X, m))


def ratios(seed, big=False, deep=False):
    """log ratio of every legal move of a random tree, of its reverse, and decisions around it"""
    rng, X, y, ranker, tree = start(seed, big, deep)
    P = params(rng)
    ev = []
    try:
        if deep:
            grow_deep(rng, tree, X, ranker, ev, int(rng.integers(5, 17)))
        else:
            grow_some(rng, tree, X, ranker, ev, int(rng.integers(0, 8)))
        model = make_model(P, X, y, tree)
        sampler = get_tree_sampler(P["pg"] / 100., P["pp"] / 100.)
        lr = sampler.likihood_ratio
        if rng.random() < 0.3:        # a new residual arrives
            y1 = rng.integers(-4, 5, size=len(y)).astype(float) / 4
            tree.update_y(y1)
            ev.append({"op": "update", "y": [fx(v, 4) for v in y1]})
        ms = legal_moves(tree, X)
        rng.shuffle(ms)
        if deep:
            ms.sort(key=lambda m: -int(m[1]))
        for m in [tuple(q) for q in ms][:14]:
            m = (m[0], int(m[1]), int(m[2]), float(m[3]))
            mut = make_move(tree, X, m)
            r = float(lr.log_probability_ratio(model, tree, mut))
            e = {"op": "ratio", "m": enc(m, ranker), "r": fx(r, LU)}
            if rng.random() < 0.5:
                t2 = deepcopy(tree)
                mutate(t2, make_move(t2, X, m))
                if m[0] == "grow":
                    back = ("prune", m[1], 0, 0)
                else:
                    c = mut.existing_node.most_recent_split_condition()
                    back = ("grow", m[1], int(c.splitting_variable) + 1, float(c.splitting_value))
                e["back"] = fx(lr.log_probability_ratio(model, t2, make_move(t2, X, back)), LU)
            ev.append(e)
            if rng.random() < 0.5:    # the whole sampler around its threshold
                lnu = min(r + float(rng.choice([-2., -0.3, -0.02, 0.02, 0.3, 2.])), -1e-4)
                t2 = deepcopy(tree)
                s = UnconstrainedTreeMutationSampler(FixedProposer(make_move(t2, X, m)), lr, scalar_sampler=Const(math.exp(lnu)))
                before = len(t2.nodes)
                s.step(model, t2)
                ev.append({"op": "whole", "m": enc(m, ranker), "lnu": fx(lnu, LU), "applied": int(len(t2.nodes) != before)})
        # acceptance rule in isolation
        specials = [(math.inf, 0.999999, "applies"), (-math.inf, 1e-300, "stays"), (math.nan, 0.5, "stays"), (0.0, 0.999, "num"),
                    (5.0, 0.999, "num"), (-1.0, 0.9, "num"), (-1.0, 0.5, "num"), (-1.0, 0.3, "num"), (-1.0, 0.01, "num"), (-20., 1e-8, "num"), (-20., 1e-9, "num"),
                    (-0.001, 0.9995, "num"), (-0.001, 0.9985, "num"), (1e-3, 0.9999, "num"), (-700., 1e-300, "num"), (800., 0.7, "num"), (0.5, 0.6, "num"), (0.5, 0.4, "num")]
        for _ in range(6):
            if not ms:
                break
            r, u, kind = specials[rng.integers(len(specials))]
            m = ms[rng.integers(len(ms))]
            t2 = deepcopy(tree)
            mut = make_move(t2, X, (m[0], int(m[1]), int(m[2]), float(m[3])))
            s = UnconstrainedTreeMutationSampler(FixedProposer(mut), treesuite.FixedRatio(r), scalar_sampler=Const(u))
            before = shape_of(t2, ranker)
            ret = s.step(model, t2)
            after = shape_of(t2, ranker)
            ev.append({"op": "accept", "kind": kind, "r": fx(r, LU), "lnu": fx(math.log(u), LU), "returned": int(ret is not None),
                       "applied": int(len(after) != len(before)), "before": before, "after": after})
        # arbitrary parameters: reversal only
        model2 = make_model(P, X, y, tree)
        model2.alpha, model2.beta = float(rng.uniform(0.05, 0.99)), float(rng.uniform(0.1, 3))
        model2.sigma.set_value(float(rng.uniform(0.05, 3)))
        for m in ms[:6]:
            m = (m[0], int(m[1]), int(m[2]), float(m[3]))
            mut = make_move(tree, X, m)
            r = float(lr.log_probability_ratio(model2, tree, mut))
            t2 = deepcopy(tree)
            mutate(t2, make_move(t2, X, m))
            if m[0] == "grow":
                back = ("prune", m[1], 0, 0)
            else:
                c = mut.existing_node.most_recent_split_condition()
                back = ("grow", m[1], int(c.splitting_variable) + 1, float(c.splitting_value))
            ev.append({"op": "back", "m": [m[0], m[1]], "r": fx(r, LU), "back": fx(lr.log_probability_ratio(model2, t2, make_move(t2, X, back)), LU)})
    except Exception as e:
        ev.append({"op": "error", "what": describe(e)})
    return done(P, X, y, ranker, ev)


def kernel(seed, n_draws):
    """frequencies of the moves one step of the real sampler makes from a fixed tree"""
    rng, X, y, ranker, tree = start(seed)
    P = params(rng)
    ev = []
    try:
        grow_some(rng, tree, X, ranker, ev, int(rng.integers(0, 5)))
        model = make_model(P, X, y, tree)
        sampler = get_tree_sampler(P["pg"] / 100., P["pp"] / 100.)
        heap = obs.heap_index(tree)
        cnt, stay = Counter(), 0
        for _ in range(n_draws):
            m = sampler.sample(model, tree)
            if m is None:
                stay += 1
                continue
            h = heap.get(id(m.existing_node), -1)
            if m.kind == "grow":
                c = m.updated_node.left_child.split.most_recent_split_condition()
                cnt[("grow", h, int(c.splitting_variable), float(c.splitting_value))] += 1
            else:
                cnt[("prune", h, -1, 0.)] += 1
        ev.append({"op": "kernel", "n": n_draws, "stay": stay,
                   "counts": [[k, h, v + 1, obs.Cut(ranker, v, c) if v >= 0 else 0, q] for (k, h, v, c), q in sorted(cnt.items())]})
    except Exception as e:
        ev.append({"op": "error", "what": describe(e)})
    return done(P, X, y, ranker, ev)


SMALL = [[[1.], [2.], [3.]], [[1., 1.], [2., 1.], [2., 2.]], [[2., 1.], [1., 1.], [1., 1.], [1., 2.]], [[1.], [2.], [2.], [3.]]]


def all_trees(X):
    """move sequences that build every tree with non-empty leaves of a small data set"""
    X = np.asarray(X, dtype=float)

    def key(t):
        return tuple(sorted(t.items()))

    def rows_at(t, h):
        rows = np.arange(len(X))
        path = []
        while h > 1:
            path.append(h)
            h //= 2
        for k in reversed(path):
            v, c = t[k // 2]
            rows = rows[X[rows, v] <= c] if k % 2 == 0 else rows[X[rows, v] > c]
        return rows
    start_t = {}
    seen = {key(start_t): []}
    todo = [start_t]
    while todo:
        t = todo.pop()
        leaves = [h for h in ([1] + [2 * k for k in t] + [2 * k + 1 for k in t]) if h not in t]
        for h in leaves:
            rows = rows_at(t, h)
            for v in range(X.shape[1]):
                for c in np.unique(X[rows, v])[:-1]:
                    t2 = dict(t)
                    t2[h] = (v, float(c))
                    if key(t2) not in seen:
                        seen[key(t2)] = seen[key(t)] + [("grow", h, v + 1, float(c))]
                        todo.append(t2)
    return seen


def longrun(seed, n_steps):
    rng = np.random.default_rng(seed)
    np.random.seed(seed % (2 ** 32))
    X = np.array(SMALL[seed % len(SMALL)])
    y = rng.integers(-4, 5, size=len(X)).astype(float) / 4
    P = params(rng)
    P.update(an=95, ad=100, b10=10, pg=50, pp=50, k=1, sg=4)     # a regime that mixes fast
    d = lcm(16, 4 * P["nt"])
    P.update(d=d, v=d, m=d // (4 * P["nt"]))
    ranker = obs.Ranker(X.shape[1])
    ranker.add_matrix(X)
    tree = Tree([LeafNode(Split(Data(X, np.array(y))))])
    ev = []
    try:
        model = make_model(P, X, y, tree)
        sampler = get_tree_sampler(0.5, 0.5)
        trees = all_trees(X)
        visits = Counter()
        cur = None
        for i in range(n_steps):
            if sampler.step(model, tree) is not None or cur is None:
                heap = obs.heap_index(tree)
                cur = tuple(sorted((heap[id(d)], (int(d.most_recent_split_condition().splitting_variable), float(d.most_recent_split_condition().splitting_value)))
                                   for d in tree.decision_nodes))
            visits[cur] += 1
        if any(k not in trees for k in visits):
            ev.append({"op": "error", "what": "a tree with an empty leaf was visited: %s" % [k for k in visits if k not in trees][:2]})
        else:
            ev.append({"op": "long", "n": n_steps, "tol": 600 if n_steps < 50000 else 300, "visits": [[[enc(m, ranker) for m in ms], visits[k]] for k, ms in trees.items()]})
    except Exception as e:
        ev.append({"op": "error", "what": describe(e)})
    return done(P, X, y, ranker, ev)


def replay_chunk(items):
    fails = []
    for it in items:
        try:
            X, y, p = np.array(it["x"], dtype=float), np.array(it["y"], dtype=float) / 4, it["p"]
            tree = Tree([LeafNode(Split(Data(X, np.array(y))))])
            model = make_model(p, X, y, tree)
            for m in it["h"][:-1]:
                mutate(tree, make_move(tree, X, m))
            lr = get_tree_sampler(p["pg"] / 100., p["pp"] / 100.).likihood_ratio
            r = lr.log_probability_ratio(model, tree, make_move(tree, X, it["h"][-1]))
            if abs(fx(r, LU) - it["r"]) > 400 + abs(it["r"]) / 10000:
                fails.append(("C07.replay_ratio", "after %s move %s: expected %.6f got %s" % (it["h"][:-1], it["h"][-1], it["r"] / LU, r), it))
        except Exception as e:
            fails.append(("ANY.raise", describe(e), it))
    return {"n": len(items), "fails": fails}


def run(ctx):
    r = ctx.design("MCMH", ctx.n("MCMH", "MCMHDeep"))
    items = r.printed("@T")
    for res in pmap(replay_chunk, [{"items": items[i::32]} for i in range(32)], limit="long"):
        if res is None:
            continue
        if "_error" in res:
            ctx.fail("ANY.raise", res["_error"], {"tb": res.get("_tb")})
            continue
        ctx.replay(res["n"])
        for c, d, it in res["fails"]:
            ctx.fail(c, d, {"module": "MCMH", "behaviour": it})
    kws = [dict(seed=s, big=i % 8 == 3, deep=i % 8 == 7) for i, s in enumerate(ctx.seeds(ctx.n(400, 4000), "mh-ratio"))]
    ctx.validate("TraceMH", pmap(ratios, kws), "mh.ratios", kws)
    kws = [dict(seed=s, n_draws=ctx.n(6000, 20000)) for s in ctx.seeds(ctx.n(64, 300), "mh-kernel")]
    ctx.validate("TraceMH", pmap(kernel, kws, limit="long"), "mh.kernel", kws)
    kws = [dict(seed=s, n_steps=ctx.n(15000, 80000)) for s in ctx.seeds(ctx.n(16, 32), "mh-long")]
    ctx.validate("TraceMH", pmap(longrun, kws, limit="long"), "mh.longrun", kws)
