"""C01, C02, C04, C05 (and C03, C10 on single trees): histories of one tree."""
import json
from operator import gt, le

import numpy as np

from bartpy.data import Data
from bartpy.mutation import GrowMutation, PruneMutation
from bartpy.node import DecisionNode, LeafNode, split_node
from bartpy.samplers.oblivioustrees.proposer import UniformMutationProposer as ObliviousProposer
from bartpy.samplers.oblivioustrees.treemutation import UnconstrainedTreeMutationSampler as ObliviousSampler
from bartpy.samplers.unconstrainedtree.proposer import UniformMutationProposer
from bartpy.samplers.unconstrainedtree.treemutation import UnconstrainedTreeMutationSampler
from bartpy.samplers.treemutation import TreeMutationLikihoodRatio
from bartpy.split import Split
from bartpy.splitcondition import SplitCondition
from bartpy.tree import Tree, deep_copy_tree, mutate

from vlib import gen, obs, tlc
from vlib.drive import describe, expecting_error
from vlib.gen import G
from vlib.num import fx
from vlib.obs import Cut


class FixedRatio(TreeMutationLikihoodRatio):
    """accepts (inf) or rejects (-inf) every proposal"""

    def __init__(self, r):
        self.r = r

    def log_probability_ratio(self, model, tree, mutation):
        return self.r

    def log_transition_ratio(self, tree, mutation):
        return self.r

    def log_tree_ratio(self, model, tree, mutation):
        return self.r

    def log_likihood_ratio(self, model, tree, mutation):
        return self.r


def mutations_list(m):
    return [] if m is None else list(m) if isinstance(m, (list, tuple)) else [m]


def grow_by_hand(rng, X, leaf, v, c, conds_at_once=True, pool=None):
    """pool: conditions used before, to be applied again"""
    a, b = SplitCondition(v, c, le), SplitCondition(v, c, gt)
    if pool and rng.random() < 0.3:
        a, b = pool[rng.integers(len(pool))]
    elif pool is not None:
        pool.append((a, b))
    if conds_at_once:
        return split_node(leaf, (a, b))
    return DecisionNode(leaf.split,
                        LeafNode(leaf.split + a, depth=leaf.depth + 1),
                        LeafNode(leaf.split + b, depth=leaf.depth + 1),
                        depth=leaf.depth)


def history(seed, shape="small", n_events=30):
    rng = np.random.default_rng(seed)
    np.random.seed(seed % (2 ** 32))
    if shape == "small":
        X = gen.matrix(rng, nmax=12, pmax=4)
    elif shape == "wide":
        X = gen.matrix(rng, n=rng.integers(5, 15), p=rng.integers(8, 14))
    else:
        X = gen.matrix(rng, n=rng.integers(30, 90), p=rng.integers(1, 4))
    n, p = X.shape
    y = gen.target(rng, n)
    Q = [np.asarray(X, dtype=float)] + gen.queries(rng, X)
    if p < 3 and rng.random() < 0.05:
        Q.append(gen.many(rng, X))
    ranker = obs.Ranker(p)
    for q in Q:
        ranker.add_matrix(q)
    tree = Tree([LeafNode(Split(Data(X, np.array(y))))])
    props = [(UniformMutationProposer([0.5, 0.5]), 0), (ObliviousProposer(0.5, 0.5), 1)]
    samplers = [(UnconstrainedTreeMutationSampler(props[0][0], FixedRatio(np.inf)), UnconstrainedTreeMutationSampler(props[0][0], FixedRatio(-np.inf))),
                (ObliviousSampler(props[1][0], FixedRatio(np.inf)), ObliviousSampler(props[1][0], FixedRatio(-np.inf)))]
    style = rng.integers(4)          # 0 by hand, 1 sampler, 2/3 both
    watch = rng.choice([0.15, 0.5, 0.9])
    removed = []                     # nodes that left the tree
    copies = []
    pool = []
    ask = gen.Asker(rng)
    held = []                        # mutations built but not applied
    handed = None                    # the target array last passed to update_y
    ev = []
    X0, y0 = np.array(X), None

    def maybe_obs(e, force=False):
        if force or rng.random() < watch:
            k = rng.integers(4)
            parts = [] if k == 0 else list(obs.PARTS) if k == 1 else \
                list(rng.choice(obs.PARTS, size=rng.integers(1, 6), replace=False))
            if n > 20:
                parts = [q for q in parts if q not in ("yv", "col")]
            q = None
            if rng.random() < 0.5:
                i = int(rng.integers(len(Q)))
                q = (i, Q[i])
            e["obs"] = obs.observe_tree(tree, ranker, rng, X, parts, query=q, pin=rng.random() < 0.5, ask=ask)
        ev.append(e)

    try:
        maybe_obs({"op": "init"})
        for step in range(n_events):
            leaves = [x for x in tree.leaf_nodes]
            decs = [x for x in tree.decision_nodes]
            prunable = [d for d in decs if isinstance(d.left_child, LeafNode) and isinstance(d.right_child, LeafNode)]
            r = rng.random()
            heap = obs.heap_index(tree)
            if r < 0.30 and style != 1:
                cand = [x for x in leaves if heap.get(id(x), 2 ** 31) < 2 ** 27 and len(tree.nodes) < 60]
                if not cand:
                    continue
                leaf = cand[rng.integers(len(cand))]
                v = int(rng.integers(p))
                rows = np.nonzero(~np.asarray(leaf.data.mask))[0]
                node = grow_by_hand(rng, X, leaf, v, gen.cut(rng, X, rows, v), rng.random() < 0.75, pool)
                if rng.random() < 0.4:
                    node.left_child.set_value(float(rng.integers(-500, 500)) / G)
                    node.right_child.set_value(float(rng.integers(-500, 500)) / G)
                m = GrowMutation(leaf, node)
                e = {"op": "mutate", "m": obs.mutation_of(m, heap, ranker)}
                mutate(tree, m)
                removed.append(leaf)
                maybe_obs(e)
            elif r < 0.42 and style != 1:
                if not prunable:
                    continue
                d = prunable[rng.integers(len(prunable))]
                m = PruneMutation(d, LeafNode(d.split, depth=d.depth))
                if rng.random() < 0.4:
                    m.updated_node.set_value(float(rng.integers(-500, 500)) / G)
                e = {"op": "mutate", "m": obs.mutation_of(m, heap, ranker)}
                mutate(tree, m)
                removed += [d, d.left_child, d.right_child]
                maybe_obs(e)
            elif r < 0.60 and style != 0:
                if max(heap.values()) > 2 ** 27 or len(tree.nodes) > 60:
                    continue
                w = int(rng.random() < 0.3)
                s = samplers[w][0] if rng.random() < 0.8 else samplers[w][1]
                ms = mutations_list(s.step(None, tree))
                e = {"op": "step", "ms": [obs.mutation_of(m, heap, ranker) for m in ms]}
                for m in ms:
                    removed.append(m.existing_node)
                maybe_obs(e)
            elif r < 0.68:
                w = int(rng.random() < 0.3)
                ms = mutations_list(props[w][0].propose(tree))
                e = {"op": "propose", "ms": [], "empty": props[w][1]}
                for m in ms:
                    q = obs.mutation_of(m, heap, ranker)
                    if m.kind == "grow":
                        a, b = m.updated_node.left_child.data, m.updated_node.right_child.data
                        q += [int(a.X.n_obsv), fx(a.y.summed_y(), G), int(b.X.n_obsv), fx(b.y.summed_y(), G)]
                    e["ms"].append(q)
                maybe_obs(e)
            elif r < 0.78:
                if handed is not None and rng.random() < 0.35:      # the same array object with other values
                    y1 = handed
                    y1[:] = gen.target(rng, n)
                else:
                    y1 = gen.target(rng, n)
                tree.update_y(y1)
                handed = y1
                held.clear()         # built on the old target
                maybe_obs({"op": "update", "y": [fx(v, G) for v in y1]})
            elif r < 0.88:
                leaf = leaves[rng.integers(len(leaves))]
                x = float(rng.integers(-2000, 2001)) / G
                leaf.set_value(x)
                maybe_obs({"op": "value", "i": heap.get(id(leaf), -1), "x": fx(x, G)})
            elif r < 0.95:
                e = {"op": "illegal", "what": "?"}
                k = rng.integers(7)
                nonpr = [d for d in decs if not any(d is q for q in prunable)]
                with_stale = [x for x in removed if not any(x is q for q in tree.nodes)]
                if k >= 5:                # a mutation is built now and applied later, if the tree still allows it
                    if not held or rng.random() < 0.4:
                        cand = [x for x in leaves if heap.get(id(x), 2 ** 31) < 2 ** 27 and len(tree.nodes) < 60]
                        if prunable and rng.random() < 0.7:
                            x = prunable[rng.integers(len(prunable))]
                            held.append(PruneMutation(x, LeafNode(x.split, depth=x.depth)))
                        elif cand:
                            x, v = cand[rng.integers(len(cand))], int(rng.integers(p))
                            rows = np.nonzero(~np.asarray(x.data.mask))[0]
                            held.append(GrowMutation(x, grow_by_hand(rng, X, x, v, gen.cut(rng, X, rows, v))))
                        if not held:
                            continue
                        x = held[-1].existing_node
                        if held[-1].kind == "grow" or rng.random() < 0.3 or not cand:
                            continue
                        # the usual way for a prune to become stale: one of the two leaves is grown
                        c = [x.left_child, x.right_child][rng.integers(2)]
                        if not any(c is q for q in cand):
                            continue
                        v = int(rng.integers(p))
                        m = GrowMutation(c, grow_by_hand(rng, X, c, v, gen.cut(rng, X, np.nonzero(~np.asarray(c.data.mask))[0], v)))
                        e = {"op": "mutate", "m": obs.mutation_of(m, heap, ranker)}
                        mutate(tree, m)
                        removed.append(c)
                        maybe_obs(e)
                        continue
                    m = held.pop(int(rng.integers(len(held)))) if rng.random() < 0.7 else held[rng.integers(len(held))]
                    x = m.existing_node
                    if any(x is q for q in (leaves if m.kind == "grow" else prunable)):
                        e = {"op": "mutate", "m": obs.mutation_of(m, heap, ranker)}
                        mutate(tree, m)
                        removed += [x] if m.kind == "grow" else [x, x.left_child, x.right_child]
                        maybe_obs(e)
                        continue
                    e["what"] = "a mutation the tree no longer allows"
                    with expecting_error(e):
                        mutate(tree, m)
                elif k == 0:
                    leaf = leaves[rng.integers(len(leaves))]
                    e["what"] = "prune a leaf"
                    with expecting_error(e):
                        mutate(tree, PruneMutation(leaf, LeafNode(leaf.split, depth=leaf.depth)))
                elif k == 1 and nonpr:
                    d = nonpr[rng.integers(len(nonpr))]
                    e["what"] = "prune a decision node above a decision node"
                    with expecting_error(e):
                        mutate(tree, PruneMutation(d, LeafNode(d.split, depth=d.depth)))
                elif k == 2 and decs:
                    d = decs[rng.integers(len(decs))]
                    v = int(rng.integers(p))
                    node = grow_by_hand(rng, X, d, v, gen.cut(rng, X, [0], v))
                    e["what"] = "grow a decision node"
                    with expecting_error(e):
                        mutate(tree, GrowMutation(d, node))
                elif k >= 3 and with_stale:
                    x = with_stale[rng.integers(len(with_stale))]
                    e["what"] = "mutate a node that left the tree"
                    if isinstance(x, LeafNode):
                        v = int(rng.integers(p))
                        with expecting_error(e):
                            mutate(tree, GrowMutation(x, grow_by_hand(rng, X, x, v, gen.cut(rng, X, [0], v))))
                    else:
                        with expecting_error(e):
                            mutate(tree, PruneMutation(x, LeafNode(x.split, depth=x.depth)))
                else:
                    continue
                maybe_obs(e, force=True)
            elif r < 0.97 or not copies:
                copies.append(deep_copy_tree(tree))
                maybe_obs({"op": "copy"})
            else:
                k = int(rng.integers(len(copies)))
                i = int(rng.integers(len(Q)))
                ev.append({"op": "copycheck", "k": k + 1, "copy": {"g": obs.graph(copies[k], ranker)},
                           "pq": [i + 1, [fx(v, G) for v in copies[k].predict(ask(Q[i]))]]})
        maybe_obs({"op": "end"}, force=True)
        for k, c in enumerate(copies):
            ev.append({"op": "copycheck", "k": k + 1, "copy": {"g": obs.graph(c, ranker)},
                       "pq": [1, [fx(v, G) for v in c.predict(ask(Q[0]))]]})
    except Exception as e:
        ev.append({"op": "error", "what": describe(e)})
    if not np.array_equal(np.asarray(X), X0):
        ev.append({"op": "error", "what": "the covariate matrix was changed"})
    ranker.freeze()
    tr = {"X": ranker.matrix(X), "y": [fx(v, G) for v in y], "Q": [ranker.matrix(q) for q in Q], "ev": ev}
    return obs.resolve(tr, ranker)


# ------------------------------------------------------------------------------------------------
# specification -> code: every transition of the exhaustive model, replayed
def replay_chunk(items):
    fails = []
    for it in items:
        X = np.array(it["x"], dtype=float)
        h = it["h"]
        y0 = np.array(h[0][1], dtype=float)
        tree = Tree([LeafNode(Split(Data(X, y0)))])
        try:
            for op in h[1:]:
                byheap = {v: k for k, v in obs.heap_index(tree).items()}
                nodes = {id(n): n for n in tree.nodes}
                if op[0] == "grow":
                    leaf = nodes[byheap[op[1]]]
                    mutate(tree, GrowMutation(leaf, grow_by_hand(None, X, leaf, op[2] - 1, float(op[3]))))
                elif op[0] == "prune":
                    d = nodes[byheap[op[1]]]
                    mutate(tree, PruneMutation(d, LeafNode(d.split, depth=d.depth)))
                elif op[0] == "update":
                    tree.update_y(np.array(op[1], dtype=float))
                elif op[0] == "value":
                    nodes[byheap[op[1]]].set_value(float(op[2]))
            heap = obs.heap_index(tree)
            exp = {v["i"]: v for v in it["nodes"]}
            got = {}
            for n in tree.nodes:
                got[heap.get(id(n), -1)] = n

            def bad(c, d):
                fails.append((c, d, it))
            if set(got) != set(exp) or len(tree.nodes) != len(exp):
                bad("C02.replay_nodes", "expected %s got %s" % (sorted(exp), sorted(got)))
                continue
            pr = set(id(n) for n in tree.prunable_decision_nodes)
            sp = set(id(n) for n in tree.splittable_leaf_nodes)
            for i, v in exp.items():
                n = got[i]
                if (obs.kind_of(n) == 0) != v["leaf"] or (id(n) in pr) != v["pr"] or n.depth != i.bit_length() - 1:
                    bad("C02.replay_kind", "node %d" % i)
                if v["leaf"] and (id(n) in sp) != (len(v["sv"]) > 0):
                    bad("C02+C04.replay_splittable", "node %d" % i)
                if obs.rows_of(~n.data.mask) != sorted(v["rows"]):
                    bad("C01.replay_rows", "node %d: expected %s got %s" % (i, sorted(v["rows"]), obs.rows_of(~n.data.mask)))
                if not v["leaf"]:
                    c = n.most_recent_split_condition()
                    if [int(c.splitting_variable) + 1, float(c.splitting_value)] != [v["r"][0], float(v["r"][1])]:
                        bad("C01+C02.replay_rule", "node %d" % i)
                if int(n.data.X.n_obsv) != v["n"]:
                    bad("C04.replay_count", "node %d: expected %d got %s" % (i, v["n"], n.data.X.n_obsv))
                if float(n.data.y.summed_y()) != float(v["s"]):
                    bad("C04.replay_sum", "node %d: expected %d got %s" % (i, v["s"], n.data.y.summed_y()))
                if sorted(int(a) + 1 for a in n.data.X.splittable_variables()) != sorted(v["sv"]):
                    bad("C04.replay_splittable_variables", "node %d" % i)
            exp_p = [float(a) for a in it["pred"]]
            if [float(a) for a in tree.predict()] != exp_p or [float(a) for a in tree.predict(X)] != exp_p:
                bad("C05.replay_predict", "expected %s got %s / %s" % (exp_p, list(tree.predict()), list(tree.predict(X))))
        except Exception as e:
            fails.append(("ANY.raise", describe(e), it))
    return {"n": len(items), "fails": fails}


def run(ctx):
    from vlib.drive import pmap
    ctx.design("MCTree")
    r = ctx.design("MCTree", ctx.n("MCTreeEmit", "MCTreeEmitDeep"))
    items = r.printed("@T")
    chunks = [items[i::64] for i in range(64)]
    for res in pmap(replay_chunk, [{"items": c} for c in chunks if c], limit="long"):
        if res is None:
            continue
        if "_error" in res:
            ctx.fail("ANY.raise", res["_error"], {"tb": res.get("_tb")})
            continue
        ctx.replay(res["n"])
        for c, d, it in res["fails"]:
            ctx.fail(c, d, {"module": "MCTree", "behaviour": it})
    ctx.sample({"replayed": items[len(items) // 2]["h"], "data": items[len(items) // 2]["x"]})
    shapes = ["small", "small", "small", "wide", "tall"]
    kws = [dict(seed=s, shape=shapes[i % 5], n_events=[12, 30, 60][i % 3]) for i, s in enumerate(ctx.seeds(ctx.n(900, 9000), "tree"))]
    ctx.validate("TraceTree", pmap(history, kws), "tree.history", kws)
