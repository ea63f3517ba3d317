"""C19: what the diagnostic plots show."""
import pickle

import numpy as np
from matplotlib import pyplot as plt
from matplotlib.collections import PathCollection

from bartpy import plotting
from bartpy.diagnostics.diagnostics import plot_diagnostics
from bartpy.diagnostics.features import plot_feature_proportions_against_thresholds, plot_feature_split_proportions
from bartpy.diagnostics.residuals import plot_homoskedasity_diagnostics, plot_qq
from bartpy.diagnostics.sampling import plot_tree_mutation_acceptance_rate
from bartpy.diagnostics.sigma import plot_sigma_convergence
from bartpy.diagnostics.trees import plot_tree_depth
from bartpy.initializers.sklearntreeinitializer import SklearnTreeInitializer
from bartpy.sklearnmodel import SklearnModel

from suites.est import DataSet
from suites.features import variables
from vlib.drive import describe, pmap
from vlib.num import Ranks, fx

LU = 10 ** 6


def depths(tree):
    """depth of every node, counted along the links"""
    kids = set()
    for n in tree.nodes:
        kids.add(id(n.left_child))
        kids.add(id(n.right_child))
    res, stack, seen = [], [(n, 0) for n in tree.nodes if id(n) not in kids], set()
    while stack:
        n, d = stack.pop()
        if id(n) in seen:
            continue
        seen.add(id(n))
        res.append(d)
        if n.left_child is not None:
            stack += [(n.left_child, d + 1), (n.right_child, d + 1)]
    return res


def digest(m, D):
    """what an estimator is, for comparison before and after"""
    par = {k: v for k, v in m.get_params(deep=False).items() if isinstance(v, (int, float, str, bool))}
    return pickle.dumps((sorted(par.items()), [[(depths(t), variables(t), [l.current_value for l in t.leaf_nodes]) for t in s.trees] for s in m.model_samples],
                         [s.sigma.current_value() for s in m.model_samples], [s.predict(D.A).tolist() for s in m.model_samples],
                         [np.asarray(p).tolist() for p in m.prediction_samples], [dict(a) for a in m.acceptance_trace],
                         np.asarray(m.data.y.values).tolist(), np.asarray(m.data.y.unnormalized_y).tolist(), np.asarray(m.data.X.values).tolist(), m.predict(D.Qs[-1]).tolist()))


def fit_event(m, D):
    return {"op": "fit", "y": [int(v) for v in D.Y], "sp": [[fx(v, LU) for v in s.predict(D.A)] for s in m.model_samples],
            "records": [{"depths": [depths(t) for t in s.trees], "vars": [variables(t) for t in s.trees], "sg": fx(s.sigma.current_value(), LU), "acc": fx(a["Tree"], LU)}
                        for s, a in zip(m.model_samples, m.acceptance_trace)]}


def lines(ax):
    return [np.asarray(l.get_ydata(), dtype=float) for l in ax.lines]


def read(kind, ax, D):
    """the data of the artists on ax"""
    if kind == "depth":
        by = {}
        for l in ax.lines:
            for k in ("min", "mean", "max"):
                if k in str(l.get_label()).lower():
                    by[k] = np.asarray(l.get_ydata(), dtype=float)
        ls = [by[k] for k in ("min", "mean", "max")] if len(by) == 3 else lines(ax)
        return {"got": [[fx(v, LU if i == 1 else 1) for v in l] for i, l in enumerate(ls)]}
    if kind in ("noise", "acceptance"):
        return {"got": [fx(v, LU) for v in lines(ax)[0]]}
    if kind == "shares":
        names = {round(float(t), 6): l.get_text() for t, l in zip(ax.get_yticks(), ax.get_yticklabels())}
        bars = sorted((round(p.get_y() + p.get_height() / 2, 6), p.get_width()) for p in ax.patches)
        return {"got": [[int(float(names.get(y, -9))) + 1, fx(w, LU)] for y, w in bars]}
    if kind == "fitted":
        off = [c for c in ax.collections if isinstance(c, PathCollection)][0].get_offsets()
        return {"got": [D.units(off[:, 0]), D.diffs(off[:, 1])]}
    if kind == "quantiles":
        pts = max(ax.lines, key=lambda l: len(l.get_ydata()) if l.get_linestyle() in ("None", "none", " ", "") else -1)
        return {"got": [fx(v, 1000) for v in np.asarray(pts.get_ydata(), dtype=float)], "xs": [fx(v, 1000) for v in np.asarray(pts.get_xdata(), dtype=float)]}
    if kind == "residuals":
        return {"got": D.diffs(lines(ax)[0])}
    if kind == "actual":
        return {"got": [D.units(l) for l in lines(ax)]}


def content(ax):
    return len(ax.lines) + len(ax.patches) + len(ax.collections)


FN = {"depth": plot_tree_depth, "noise": plot_sigma_convergence, "acceptance": plot_tree_mutation_acceptance_rate, "shares": plot_feature_split_proportions,
      "fitted": plot_homoskedasity_diagnostics, "quantiles": plot_qq}
TITLES = {"quantiles": "qq", "depth": "depth", "noise": "sigma", "fitted": "fitted", "acceptance": "acceptance"}


def draw(rng, m, D, kind, ev):
    before = digest(m, D)
    plt.close("all")
    base = {"op": "draw", "only": 1}
    if kind == "all":
        plot_diagnostics(m)
        axes = plt.gcf().axes
        got = []
        for k, t in TITLES.items():
            ax = next((a for a in axes if t in a.get_title().lower()), None)
            got.append({**base, "kind": k, "only": int(ax is not None), **(read(k, ax, D) if ax is not None else {"got": []})})
    elif kind in ("residuals", "actual"):
        plt.figure()
        (plotting.plot_residuals if kind == "residuals" else plotting.plot_modelled_against_actual)(m)
        got = [{**base, "kind": kind, **read(kind, plt.gcf().axes[0], D)}]
    else:
        if rng.random() < 0.5:
            ax = FN[kind](m)
            got = [{**base, "kind": kind, **read(kind, ax, D)}]
        else:
            _, axs = plt.subplots(1, 3)
            k = int(rng.integers(3))
            r = FN[kind](m, ax=axs[k]) if rng.random() < 0.5 else FN[kind](m, axs[k])
            only = int(r is axs[k] and content(axs[k]) > 0 and all(content(a) == 0 for i, a in enumerate(axs) if i != k)) if kind != "shares" or content(axs[k]) else int(r is axs[k])
            only = only if all(content(a) == 0 for i, a in enumerate(axs) if i != k) else 0
            got = [{**base, "kind": kind, "only": only, **read(kind, axs[k], D)}]
    kept = int(digest(m, D) == before and D.kept())
    plt.close("all")
    for e in got:
        e["kept"] = kept
        ev.append(e)


def play(seed, hist, size=None):
    """size: "long" for very many stored samples, "wide" for many rows"""
    rng = np.random.default_rng(seed)
    np.random.seed(seed % (2 ** 32))
    ev = []
    m, D = None, None
    try:
        for op in hist:
            if op[0] == "fit":
                # plots of a single row have no quantiles to speak of
                D = DataSet(rng, n=int(rng.integers(3, 10)) if size != "wide" else int(rng.integers(60, 130)))
                kw = dict(n_trees=int(rng.choice([1, 2, 3, 5])), n_chains=int(rng.choice([1, 2])), n_samples=int(rng.integers(1, 8)), n_burn=int(rng.integers(0, 3)), thin=1.0 if rng.random() < 0.7 else 0.5,
                          alpha=0.95, beta=float(rng.choice([0.5, 2.])), sigma_a=1., sigma_b=0.5, store_in_sample_predictions=True, store_acceptance_trace=True, n_jobs=1,
                          initializer=None if rng.random() < 0.5 else SklearnTreeInitializer(max_depth=int(rng.integers(1, 4))))
                if size == "long":
                    kw.update(n_trees=1, n_chains=1, n_samples=int(rng.choice([130, 300, 640])), thin=1.0)
                if m is None:
                    m = SklearnModel(**kw)
                else:
                    m.set_params(**kw)
                m.fit(D.X, D.y)
                ev.append(fit_event(m, D))
            elif m is not None:
                draw(rng, m, D, op[1], ev)
    except Exception as e:
        ev.append({"op": "error", "what": describe(e)})
    plt.close("all")
    return {"ev": ev}


def random_play(seed, n, size=None):
    rng = np.random.default_rng(seed + 77)
    kinds = list(FN) + ["all", "residuals", "actual"]
    return play(seed, [["fit"]] + [["draw", kinds[rng.integers(len(kinds))]] if rng.random() < 0.8 else ["fit"] for _ in range(n)], size)


def thresholds(seed):
    """shares against thresholds"""
    rng = np.random.default_rng(seed)
    ev = []
    try:
        p = int(rng.integers(1, 7))
        thr = {v: float(rng.choice([0, .25, .5, rng.random()])) for v in range(p)}
        sh = {v: thr[v] if rng.random() < 0.3 else float(rng.random()) for v in range(p)}
        ks = Ranks()
        for v in list(sh.values()) + list(thr.values()):
            ks.add(v)
        ks.freeze()
        plt.close("all")
        fig, axs = plt.subplots(1, 2)
        k = int(rng.integers(2))
        ax = plot_feature_proportions_against_thresholds(sh, thr, axs[k]) if rng.random() < 0.7 else plot_feature_proportions_against_thresholds(sh, thr)
        bars = {int(round(b.get_x() + b.get_width() / 2)): b.get_height() for b in ax.patches}
        pts = {}
        for c in ax.collections:
            if isinstance(c, PathCollection):
                col = "red" if c.get_facecolor()[0][0] > 0.5 else "green"
                for x, y in c.get_offsets():
                    pts.setdefault(col, {})[int(round(float(x)))] = float(y)
        every = {**pts.get("green", {}), **pts.get("red", {})}
        ev.append({"op": "keep", "p": p, "rsh": [ks[sh[v]] for v in range(p)], "rthr": [ks[thr[v]] for v in range(p)],
                   "mask": [int(sh[v] > thr[v]) for v in range(p)],
                   "bars": [[fx(bars.get(v, -1), 1000), fx(every.get(v, -1), 1000)] for v in range(p)], "wantbars": [[fx(100 * thr[v], 1000), fx(100 * sh[v], 1000)] for v in range(p)],
                   "green": [v + 1 for v in pts.get("green", {})], "red": [v + 1 for v in pts.get("red", {})]})
    except Exception as e:
        ev.append({"op": "error", "what": describe(e)})
    plt.close("all")
    return {"ev": ev}


def run(ctx):
    r = ctx.design("MCDiag", ctx.n("MCDiag", "MCDiagDeep"))
    hs = [h for h in r.printed("@T") if h[-1][0] == "draw" and any(o[0] == "fit" for o in h)]
    rng = np.random.default_rng(ctx.seed)
    if ctx.quick:
        hs = [hs[i] for i in sorted(rng.permutation(len(hs))[:260])]
    kws = [dict(seed=300 + i, hist=h) for i, h in enumerate(hs)]
    ctx.validate("TraceDiag", pmap(play, kws), "diag.play", kws)
    ctx.replay(len(hs))
    kws = [dict(seed=s, n=7) for s in ctx.seeds(ctx.n(60, 1500), "diag")]
    ctx.validate("TraceDiag", pmap(random_play, kws), "diag.random_play", kws)
    kws = [dict(seed=s, n=5, size=["long", "wide"][i % 2]) for i, s in enumerate(ctx.seeds(ctx.n(16, 200), "bigdiag"))]
    ctx.validate("TraceDiag", pmap(random_play, kws), "diag.random_play", kws)
    kws = [dict(seed=s) for s in ctx.seeds(ctx.n(60, 600), "thrplot")]
    ctx.validate("TraceFeatures", pmap(thresholds, kws), "diag.thresholds", kws)
