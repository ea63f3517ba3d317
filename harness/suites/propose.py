"""C03: what the default proposer proposes, how often, and that proposing is harmless."""
from collections import Counter

import numpy as np

from bartpy.data import Data
from bartpy.mutation import GrowMutation
from bartpy.node import LeafNode
from bartpy.samplers.unconstrainedtree.proposer import UniformMutationProposer
from bartpy.samplers.unconstrainedtree.treemutation import get_tree_sampler
from bartpy.split import Split
from bartpy.tree import Tree, mutate

from suites import tree as treesuite
from vlib import gen, obs
from vlib.drive import describe, pmap
from vlib.gen import G
from vlib.num import fx


def project(tree, ranker):
    return {"g": obs.graph(tree, ranker), "rows": [obs.rows_of(~n.data.mask) for n in tree.nodes],
            "y": [[fx(v, G) for v in n.data.y.values] for n in tree.nodes],
            "n": [int(n.data.X.n_obsv) for n in tree.nodes], "s": [fx(n.data.y.summed_y(), G) for n in tree.nodes]}


def frequencies(seed, n_draws, shape="small", rare=False):
    rng = np.random.default_rng(seed)
    np.random.seed(seed % (2 ** 32))
    if shape == "small":
        X = gen.matrix(rng, n=rng.integers(1, 9), p=rng.integers(1, 4))
    elif shape == "broad":
        X = gen.matrix(rng, n=rng.integers(3, 7), p=rng.integers(11, 19))
    elif shape == "bushy":
        X = gen.layout(rng, rng.permutation(40)[:int(rng.integers(24, 34))].astype(float).reshape(-1, 1))
    elif shape == "line":
        X = gen.matrix(rng, n=rng.integers(6, 14), p=1)
    else:
        X = gen.matrix(rng, n=rng.integers(15, 30), p=rng.integers(2, 6))
    n, p = X.shape
    y = gen.target(rng, n)
    ranker = obs.Ranker(p)
    ranker.add_matrix(X)
    tree = Tree([LeafNode(Split(Data(X, np.array(y))))])
    ev = []
    try:
        # rare: the only possible kind of move is the improbable one, so nearly every attempt has to be repeated
        full = rare and n > 1 and rng.random() < 0.5
        for _ in range(int(rng.integers(10, 24)) if shape == "bushy" else int(rng.integers(0, 6)) if not rare else 40 if full else 0):
            leaves = tree.leaf_nodes
            leaf = leaves[rng.integers(len(leaves))]
            if shape == "bushy":
                leaf = max(leaves, key=lambda x: (int(np.sum(~np.asarray(x.data.mask))), -x.depth, rng.random()))
            rows = np.nonzero(~np.asarray(leaf.data.mask))[0]
            Xf = np.asarray(X, dtype=float)
            ok = [j for j in range(p) if len(np.unique(Xf[rows, j])) > 1]
            if not ok:
                continue
            v = int(rng.choice(ok))
            vals = np.unique(Xf[rows, v])[:-1]
            c = float(vals[len(vals) // 2] if shape == "bushy" and rng.random() < 0.8 else rng.choice(vals))
            m = GrowMutation(leaf, treesuite.grow_by_hand(rng, X, leaf, v, c))
            ev.append({"op": "grow", "m": obs.mutation_of(m, obs.heap_index(tree), ranker)})
            mutate(tree, m)
        pg, pp = [(50, 50), (30, 70), (90, 10), (25, 75), (60, 40)][rng.integers(5)]
        if rare:
            pg, pp = (2000, 1) if full else (1, 2000)
        k = rng.integers(3)
        proposer = get_tree_sampler(pg / (pg + pp), pp / (pg + pp)).proposer if k < 2 else UniformMutationProposer([pg / (pg + pp), pp / (pg + pp)])
        before = project(tree, ranker)
        heap = obs.heap_index(tree)
        cnt, none = Counter(), 0
        for _ in range(n_draws):
            m = proposer.propose(tree)
            if m is None:
                none += 1
                continue
            h = heap.get(id(m.existing_node), -1)
            if m.kind == "grow":
                c = m.updated_node.left_child.split.most_recent_split_condition()
                cnt[("grow", h, int(c.splitting_variable), float(c.splitting_value))] += 1
            else:
                cnt[(str(m.kind), h, -1, 0.)] += 1
        after = project(tree, ranker)
        ev.append({"op": "freq", "n": n_draws, "none": none, "pg": pg, "pp": pp,
                   "counts": [[k, h, v + 1, obs.Cut(ranker, v, c) if v >= 0 else 0, q] for (k, h, v, c), q in sorted(cnt.items())]})
        ev.append({"op": "same", "a": before, "b": after})
    except Exception as e:
        ev.append({"op": "error", "what": describe(e)})
    ranker.freeze()
    return obs.resolve({"X": ranker.matrix(X), "y": [fx(v, G) for v in y], "ev": ev}, ranker)


def run(ctx):
    ctx.design("MCPropose", ctx.n("MCPropose", "MCProposeDeep"))
    shapes = ["small", "line", "small", "big", "broad", "small", "line", "bushy"]
    kws = [dict(seed=s, n_draws=ctx.n(4000, 20000), shape=shapes[i % 8]) for i, s in enumerate(ctx.seeds(ctx.n(184, 640), "propose"))]
    kws += [dict(seed=s, n_draws=20, rare=True) for s in ctx.seeds(ctx.n(24, 120), "propose-rare")]
    ctx.validate("TracePropose", pmap(frequencies, kws, limit="long"), "propose.frequencies", kws)
    shapes = ["small", "small", "wide", "tall"]
    kws = [dict(seed=s, shape=shapes[i % 4], n_events=[30, 60][i % 2]) for i, s in enumerate(ctx.seeds(ctx.n(300, 3000), "propose-hist"))]
    ctx.validate("TraceTree", pmap(treesuite.history, kws), "tree.history", kws)
