"""Random data sets with the shapes that matter: ties, constants, single differing rows, types, layouts."""
import numpy as np
import pandas as pd

G = 1024          # targets and leaf values lie on multiples of 1/G, so sums of them are exact


def column(rng, n, kind=None):
    kinds = ["int", "int", "norm", "const", "first", "last", "bin", "huge", "tiny", "adj", "neg", "seq", "one", "desc", "frac"]
    if kind is None:
        kind = kinds[rng.integers(len(kinds))]
    if kind == "int":
        return rng.integers(0, rng.integers(2, 7), size=n).astype(float)
    if kind == "norm":
        return rng.normal(size=n)
    if kind == "const":
        return np.full(n, float(rng.integers(-2, 3)))
    if kind in ("first", "last", "one"):
        c = np.full(n, float(rng.integers(-1, 2)))
        i = 0 if kind == "first" else n - 1 if kind == "last" else int(rng.integers(n))
        c[i] = c[i] + float(rng.choice([-1, 1]))
        return c
    if kind == "bin":
        return rng.integers(0, 2, size=n).astype(float)
    if kind == "huge":
        return rng.integers(-3, 4, size=n) * 1e12 + rng.integers(0, 2, size=n)
    if kind == "tiny":
        return rng.integers(-3, 4, size=n) * 1e-12
    if kind == "adj":
        v = [1.0]
        for _ in range(4):
            v.append(np.nextafter(v[-1], 2.0))
        return rng.choice(v, size=n)
    if kind == "neg":
        return -np.abs(rng.integers(0, 50, size=n)).astype(float)
    if kind == "seq":
        return rng.permutation(n).astype(float)
    if kind == "desc":
        return -np.arange(n).astype(float)
    if kind == "frac":
        return np.round(rng.random(n), 1)
    raise ValueError(kind)


def layout(rng, X):
    """the same matrix in another memory layout or type"""
    k = rng.integers(8)
    if k == 0:
        return np.asfortranarray(X)
    if k == 1:
        big = np.zeros((X.shape[0] * 2, X.shape[1] + 1))
        big[::2, 1:] = X
        return big[::2, 1:]
    if k == 2 and np.all(X == np.round(X)) and np.abs(X).max() < 1e6:
        return X.astype(int)
    if k == 3 and np.all((X == 0) | (X == 1)):
        return X.astype(bool)
    return np.array(X)


def matrix(rng, n=None, p=None, nmax=14, pmax=4):
    n = int(n or rng.integers(1, nmax + 1))
    p = int(p or rng.integers(1, pmax + 1))
    X = np.column_stack([column(rng, n) for _ in range(p)])
    if n > 2 and rng.random() < 0.25:       # duplicated rows
        for _ in range(int(rng.integers(1, n))):
            X[rng.integers(n)] = X[rng.integers(n)]
    if p > 1 and rng.random() < 0.15:       # duplicated column
        X[:, rng.integers(p)] = X[:, rng.integers(p)]
    return layout(rng, X)


def target(rng, n, span=2048):
    return rng.integers(-span, span + 1, size=n).astype(float) / G


def queries(rng, X, k=3):
    """matrices of new rows: values at, between, just beside and far outside the training values"""
    X = np.asarray(X, dtype=float)
    n, p = X.shape
    res = [np.zeros((0, p)), X[rng.permutation(n)]]
    for _ in range(k):
        m = int(rng.integers(1, 9))
        Q = np.empty((m, p))
        for i in range(m):
            for j in range(p):
                b = X[rng.integers(n), j]
                c = rng.integers(6)
                Q[i, j] = b if c < 2 else np.nextafter(b, np.inf) if c == 2 else np.nextafter(b, -np.inf) if c == 3 \
                    else (b + X[rng.integers(n), j]) / 2 if c == 4 else b + rng.choice([-1e15, 1e15, -0.5, 0.5])
        if _ == 0 and rng.random() < 0.7:
            Q = np.clip(np.round(Q), -10 ** 6, 10 ** 6).astype(rng.choice([np.int64, np.int32]))
        res.append(layout(rng, Q) if Q.dtype == float else Q)
    return res


def many(rng, X):
    """more rows than one would expect at a time"""
    X = np.asarray(X, dtype=float)
    return X[rng.integers(len(X), size=int(rng.choice([257, 1001, 1025, 2100])))]


def use(rng, r):
    """the caller does what it likes with a result it was given"""
    if isinstance(r, np.ndarray) and r.ndim and r.flags.writeable and rng.random() < 0.4:
        r[...] = r * 3 + 1
    return r


class Asker:
    """how a caller may hold the rows it asks about: its own array, one array filled anew each time, a data frame"""

    def __init__(self, rng):
        self.rng, self.kept = rng, {}

    def __call__(self, Q, frames=False):
        k = self.rng.random()
        if k < 0.45:
            return Q
        if frames and k < 0.65:
            names = ["c%d" % j for j in self.rng.permutation(Q.shape[1])]
            return pd.DataFrame(np.array(Q), columns=names, index=self.rng.permutation(len(Q)) + 3)
        b = self.kept.setdefault((Q.shape, Q.dtype), np.empty_like(Q))
        b[...] = Q
        return b


def cut(rng, X, rows, v):
    """a cut for column v: mostly legal for the rows, sometimes degenerate or between values"""
    vals = np.unique(np.asarray(X, dtype=float)[rows, v]) if len(rows) else np.array([0.0])
    c = rng.integers(10)
    if c < 7 and len(vals) > 1:
        return float(rng.choice(vals[:-1]))
    if c == 7 and len(vals) > 1:
        i = int(rng.integers(len(vals) - 1))
        return float((vals[i] + vals[i + 1]) / 2)
    if c == 8:
        return float(vals[0] - 1)
    return float(rng.choice(vals))
