"""Statistical oracles with rigorous, extremely small false-alarm probabilities.

Every test is a martingale (Freedman/Bernstein) tail bound, valid for dependent draws along a chain:
P(|S| >= t, V <= v) <= 2 exp(-t^2 / (2 (v + t/3))) for sums of centred increments bounded by 1."""
from itertools import combinations, product

import numpy as np

ALPHA = 1e-11


def bernstein_p(S, V):
    """Upper bound on the probability of a deviation |S| with conditional variance V."""
    S = np.abs(np.asarray(S, dtype=float))
    V = np.asarray(V, dtype=float)
    with np.errstate(all='ignore'):
        e = -S * S / (2 * (V + S / 3))
    e = np.where(S <= 1e-9, 0., e)
    return np.minimum(1., 2 * np.exp(e))


def worst(S, V):
    """(smallest p-value, index)"""
    p = np.atleast_1d(bernstein_p(S, V)).ravel()
    k = int(np.argmin(p))
    return float(p[k]), k


def transitions(ix, K):
    """Observed chain of state indices against the one-step kernel K: (p, from, to, seen, expected)."""
    m = len(K)
    C = np.zeros((m, m))
    np.add.at(C, (ix[:-1], ix[1:]), 1)
    n = C.sum(1, keepdims=True)
    # the number of visits of a state is random, but each visit contributes one centred increment
    p, k = worst(C - n * K, n * K * (1 - K))
    i, j = divmod(k, m)
    return p, i, j, C[i, j], float(n[i, 0] * K[i, j]), C


def histogram(counts, probs):
    """Independent draws against probabilities, cell by cell and over a set of linear statistics."""
    counts, probs = np.asarray(counts, float), np.asarray(probs, float)
    n = counts.sum()
    return worst(counts - n * probs, n * probs * (1 - probs))


def ising_kernel(theta_e, n, site=None, alphabet=2):
    """Exact Metropolis transition matrix given the energies of all states (lexicographic order of
    digits); a proposal changes one spin to one of the other symbols, uniformly."""
    E = np.asarray(theta_e, float)
    m = len(E)
    K = np.zeros((m, m))
    sites = range(n) if site is None else [site]
    w = 1. / len(list(sites)) / (alphabet - 1)
    ix = np.arange(m)
    for i in sites:
        f = alphabet ** (n - 1 - i)
        d = (ix // f) % alphabet
        for r in range(1, alphabet):
            to = ix + ((d + r) % alphabet - d) * f
            with np.errstate(over='ignore'):
                a = np.minimum(1., np.exp(np.minimum(0, -(E[to] - E))))
            K[ix, to] += w * a
    K[ix, ix] += 1 - K.sum(1)
    return K


def mixing(K, tol=1e-3, cap=4000):
    """Smallest power k with all rows of K^k within tol (total variation) of each other; None if > cap."""
    P = K.copy()
    k = 1
    tv = lambda A: .5 * np.abs(A - A[0]).sum(1).max()
    while tv(P) > tol:
        if k > cap:
            return None
        P = P @ P
        k *= 2
    return k


def wolff_row(x, h, J, site):
    """Exact distribution of the state after one cluster update started at `site`."""
    n = len(x)
    prs = list(combinations(range(n), 2))
    pb = [max(0., 1 - np.exp(-2 * J[i, j] * x[i] * x[j])) for i, j in prs]
    out = {}
    for bonds in product((0, 1), repeat=len(prs)):
        w = 1.
        for b, p in zip(bonds, pb):
            w *= p if b else 1 - p
        if w == 0:
            continue
        cl, new = {site}, [site]
        while new:
            a = new.pop()
            for b, (i, j) in zip(bonds, prs):
                if b and a in (i, j):
                    c = j if a == i else i
                    if c not in cl:
                        cl.add(c)
                        new.append(c)
        c = sorted(cl)
        acc = min(1., np.exp(-2 * (h[c] * x[c]).sum()))
        y = x.copy()
        y[c] *= -1
        out[tuple(y)] = out.get(tuple(y), 0) + w * acc
        out[tuple(x)] = out.get(tuple(x), 0) + w * (1 - acc)
    return out


def wolff_kernel(X, h, J, site=None):
    """Exact transition matrix between the rows of X (all +-1 states)."""
    n = X.shape[1]
    lut = {tuple(x): i for i, x in enumerate(X)}
    K = np.zeros((len(X), len(X)))
    for a, x in enumerate(X):
        for i in (range(n) if site is None else [site]):
            for y, p in wolff_row(x, h, J, i).items():
                K[a, lut[y]] += p / (n if site is None else 1)
    return K


def sweep_kernel(E, n, alphabet=2):
    """One systematic sweep 0..n-1."""
    P = np.eye(len(E))
    for i in range(n):
        P = P @ ising_kernel(E, n, i, alphabet)
    return P
