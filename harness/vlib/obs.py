"""Projection of real bartpy objects to the states of the specification, through their public interface only."""
import numpy as np
from operator import gt, le

from bartpy.node import DecisionNode, LeafNode

from vlib import gen
from vlib.gen import G
from vlib.num import Ranks, fx, NAN


class Ranker:
    """Rank codes per column; values are registered first, coded after freeze()."""

    def __init__(self, p):
        self.cols = [Ranks() for _ in range(p)]

    def add_matrix(self, X):
        X = np.asarray(X, dtype=float)
        for j in range(X.shape[1]):
            for x in X[:, j]:
                self.cols[j].add(x)

    def add(self, j, x):
        try:
            if 0 <= int(j) < len(self.cols):
                self.cols[int(j)].add(x)
        except (TypeError, ValueError):
            pass

    def freeze(self):
        for c in self.cols:
            c.freeze()

    def matrix(self, X):
        X = np.asarray(X, dtype=float)
        return [[self.cols[j][x] for j, x in enumerate(row)] for row in X]

    def code(self, j, x):
        try:
            j = int(j)
            return self.cols[j][x] if 0 <= j < len(self.cols) else -1
        except (TypeError, ValueError):
            return -1


class Cut:
    """a split value that is coded only when all values of the trace are known"""
    __slots__ = ("j", "x")

    def __init__(self, ranker, j, x):
        self.j, self.x = j, x
        ranker.add(j, x)


def resolve(o, ranker):
    """replace Cut placeholders by rank codes"""
    if isinstance(o, Cut):
        return ranker.code(o.j, o.x)
    if isinstance(o, dict):
        return {k: resolve(v, ranker) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [resolve(v, ranker) for v in o]
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.bool_,)):
        return int(o)
    return o


def kind_of(node):
    return 0 if isinstance(node, LeafNode) else 1 if isinstance(node, DecisionNode) else 2


def rule(ranker, cond):
    if cond is None:
        return [0, 0, -1]
    op = 0 if cond.operator == le else 1 if cond.operator == gt else 2
    return [int(cond.splitting_variable) + 1, Cut(ranker, cond.splitting_variable, cond.splitting_value), op]


def index_of(nodes):
    return {id(n): i + 1 for i, n in enumerate(nodes)}


def graph(tree, ranker, scale=G):
    nodes = list(tree.nodes)
    idx = index_of(nodes)

    def ix(n):
        return 0 if n is None else idx.get(id(n), -1)

    g = []
    for n in nodes:
        k = kind_of(n)
        v, c = 0, 0
        if k == 1:
            r = rule(ranker, n.most_recent_split_condition())
            v, c = r[0], r[1]
        val = fx(n.current_value, scale) if k == 0 else 0
        pr = rule(ranker, n.split.most_recent_split_condition())
        g.append([k, ix(n.left_child), ix(n.right_child), int(n.depth), v, c, val] + pr)
    return g


def heap_index(tree):
    """id(node) -> heap number, walking child links from the node nobody links to"""
    nodes = list(tree.nodes)
    kids = set()
    for n in nodes:
        kids.add(id(n.left_child))
        kids.add(id(n.right_child))
    res = {}
    for r in [n for n in nodes if id(n) not in kids]:
        stack = [(r, 1)]
        while stack:
            n, h = stack.pop()
            if id(n) in res or h > 2 ** 30:
                continue
            res[id(n)] = h
            for ch, k in ((n.left_child, 2 * h), (n.right_child, 2 * h + 1)):
                if ch is not None:
                    stack.append((ch, k))
    return res


def rows_of(mask):
    return [int(i) + 1 for i in np.nonzero(np.asarray(mask))[0]]


PARTS = ["lists", "split", "rows", "rows2", "n", "s", "sv", "mx", "uq", "pp", "yv", "col"]


def observe_tree(tree, ranker, rng, X, parts, query=None, pin=False, scale=G, ask=lambda Q: Q):
    """Ask the tree for a chosen set of facts, in random order."""
    o = {"g": graph(tree, ranker, scale)}
    nodes = list(tree.nodes)
    idx = index_of(nodes)
    p = X.shape[1]
    Xf = np.asarray(X, dtype=float)
    parts = list(parts)
    rng.shuffle(parts)
    empty = [not np.any(~n.data.mask) for n in nodes]
    order = list(range(len(nodes)))

    def each(f):
        rng.shuffle(order)
        res = [None] * len(nodes)
        for i in order:
            res[i] = f(nodes[i], i)
        return res

    def col_each(f):
        def g(n, i):
            if empty[i]:
                return [0] * p
            js = list(range(p))
            rng.shuffle(js)
            r = [0] * p
            for j in js:
                r[j] = f(n, j)
            return r
        return each(g)

    for part in parts:
        if part == "lists":
            o["lf"] = [idx.get(id(n), -1) for n in tree.leaf_nodes]
            o["dn"] = [idx.get(id(n), -1) for n in tree.decision_nodes]
            o["pr"] = [idx.get(id(n), -1) for n in tree.prunable_decision_nodes]
        elif part == "split":
            o["sp"] = [idx.get(id(n), -1) for n in tree.splittable_leaf_nodes]
        elif part == "rows":
            o["rows"] = [rows_of(~n.data.mask) for n in nodes]
        elif part == "rows2":
            o["rows2"] = [rows_of(n.split.condition() if rng.random() < 0.5 else n.split.condition(X)) for n in nodes]
        elif part == "n":
            o["n"] = each(lambda n, i: int(n.data.X.n_obsv))
        elif part == "s":
            o["s"] = each(lambda n, i: fx(n.data.y.summed_y(), scale))
        elif part == "sv":
            o["sv"] = each(lambda n, i: [int(v) + 1 for v in n.data.X.splittable_variables()])
        elif part == "mx":
            o["mx"] = col_each(lambda n, j: Cut(ranker, j, n.data.X.max_value_of_column(j)))
        elif part == "uq":
            o["uq"] = col_each(lambda n, j: 1 if n.data.X.is_column_unique(j) else 0)
        elif part == "pp":
            o["pp"] = []
            for i in order:
                if empty[i]:
                    continue
                n = nodes[i]
                for _ in range(2):
                    j = int(rng.integers(p))
                    vals = Xf[~np.asarray(n.data.mask), j]
                    x = float(vals[rng.integers(len(vals))])
                    o["pp"].append([i + 1, j + 1, Cut(ranker, j, x), fx(n.data.X.proportion_of_value_in_variable(j, x), 10 ** 6)])
        elif part == "yv":
            o["yv"] = [[fx(v, scale) for v in n.data.y.values] for n in nodes]
        elif part == "col":
            i, j = int(rng.integers(len(nodes))), int(rng.integers(p))
            o["col"] = [[i + 1, j + 1, [Cut(ranker, j, v) for v in nodes[i].data.X.get_column(j)]]]
    preds = []
    if pin:
        preds.append("pin")
    if query is not None:
        preds.append("pq")
    rng.shuffle(preds)
    for k in preds:
        if k == "pin":
            p = tree.predict()
            o["pin"] = [fx(v, scale) for v in p]
            gen.use(rng, p)
        else:
            qi, Q = query
            p = tree.predict(ask(Q))
            o["pq"] = [qi + 1, [fx(v, scale) for v in p]]
            gen.use(rng, p)
    return o


def mutation_of(m, heap, ranker, scale=G):
    """<<kind, node, column, cut, v1, v2>> of a TreeMutation, relative to the tree before it is applied"""
    h = heap.get(id(m.existing_node), -1)
    if m.kind == "grow":
        c = m.updated_node.left_child.split.most_recent_split_condition()
        return ["grow", h, int(c.splitting_variable) + 1, Cut(ranker, c.splitting_variable, c.splitting_value),
                fx(m.updated_node.left_child.current_value, scale), fx(m.updated_node.right_child.current_value, scale)]
    return ["prune", h, 0, 0, fx(m.updated_node.current_value, scale), 0]
