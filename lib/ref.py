"""Independent reference model: brute force over all states, straight from the definitions in the
documentation (energy E(s) = -theta . f(s), p(s) = exp(-E(s)) / Z).  Nothing here uses the package."""
from itertools import combinations, product

import numpy as np


def pairs(n):
    return list(combinations(range(n), 2))


def states(n, values=(0, 1)):
    """All states in lexicographic order, rows."""
    return np.array(list(product(values, repeat=n)), dtype=int).reshape(-1, n)


def ising_obs(X, order=2, lowest=1):
    X = np.asarray(X, dtype=float)
    cols = []
    for k in range(lowest, order + 1):
        for c in combinations(range(X.shape[1]), k):
            p = np.ones(len(X))
            for i in c:
                p = p * X[:, i]
            cols.append(p)
    return np.array(cols).T.reshape(len(X), -1)


def potts_obs(X, k):
    X = np.asarray(X)
    n = X.shape[1]
    cols = [(X[:, j] == i) for i in range(k) for j in range(n)]
    cols += [(X[:, i] == X[:, j]) for i, j in pairs(n)]
    return np.array(cols).T.astype(float)


def boltzmann(obs, theta):
    """(probabilities, log Z, expectation of obs)"""
    le = obs.dot(np.asarray(theta, dtype=float))
    m = le.max()
    w = np.exp(le - m)
    z = w.sum()
    p = w / z
    return p, m + np.log(z), p.dot(obs)


def ising_model(theta, n, values=(-1, 1), order=2, lowest=1):
    S = states(n, values)
    obs = ising_obs(S, order, lowest)
    p, lz, m = boltzmann(obs, theta)
    return S, p, lz, m


def potts_model(theta, n, k):
    S = states(n, tuple(range(k)))
    obs = potts_obs(S, k)
    p, lz, m = boltzmann(obs, theta)
    return S, p, lz, m


def state_ix(X, values):
    """index of each row in states(n, values)"""
    X = np.asarray(X)
    lut = {v: i for i, v in enumerate(values)}
    k = len(values)
    ix = np.zeros(len(X), dtype=np.int64)
    for j in range(X.shape[1]):
        d = np.full(len(X), -1)
        for v, i in lut.items():
            d[X[:, j] == v] = i
        if (d < 0).any():
            raise ValueError('symbol outside the alphabet: %r' % np.unique(X[:, j]))
        ix = ix * k + d
    return ix


def theta_scales(rng, size, sparse=True):
    """Parameter vectors of very different character."""
    kind = rng.integers(5)
    sc = [0.1, 0.5, 1., 2., 4.][kind]
    t = rng.normal(size=size) * sc
    if sparse and rng.random() < .25:
        t[rng.random(size) < .5] = 0
    return t
