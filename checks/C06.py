"""C06: summary statistics of a data set equal their definitions."""
import warnings
from itertools import combinations
from math import comb

import numpy as np
import coniii.utils as cu
from core import Skip, monitor, settings

NEED = ()
settings('Random data sets (both spin conventions and with missing entries, integer and floating types down to 8 bits, '
         'contiguous and not, 1 to several hundred rows, weighted in every documented way); the oracle recomputes each '
         'average from its definition in exact or double arithmetic.', scale=10)

DT = [np.int64, np.int64, np.int8, np.int32, np.float64, np.int16, np.float32, np.uint8, bool]


def data(ctx, missing=False, big=True, wide=False):
    rng = ctx.rng
    n = int(rng.integers(2, 12))
    S = int(rng.choice([1, 2, 3, 10, 50, 127, 128, 129, 255, 257, 300, 700] if big else [1, 2, 5, 20, 60]))
    if big and wide and rng.random() < .12:
        n, S = (int(rng.integers(12, 70)), int(rng.choice([1, 40, 300]))) if rng.random() < .5 else (3, 70000)
    if wide and rng.random() < .05:
        n = 1
    kind = ['01', '11'][int(rng.integers(2))]
    X = (rng.random((S, n)) < rng.random(n) * .9 + .05).astype(int)
    if rng.random() < .15:
        X[:, 0] = 1                              # a constant column
    if rng.random() < .1:
        X[:] = 1
    if missing or kind == '11':
        X = 2 * X - 1
    if missing:
        X[rng.random(X.shape) < rng.random() * .5] = 0
    dt = DT[int(rng.integers(len(DT)))]
    if dt in (np.uint8, bool) and X.min() < 0:
        dt = np.int8
    A = X.astype(dt)
    if rng.random() < .2:
        A = np.asfortranarray(A)
    if rng.random() < .2:
        A = np.repeat(A, 2, axis=0)[::2]
    ctx.note(n=n, S=S, kind=kind, dtype=np.dtype(dt).name)
    return X, A


def pairs(X):
    return list(combinations(range(X.shape[1]), 2))


@monitor(200, 2000, shards=2)
def plain_average(ctx):
    X, A = data(ctx, wide=True)
    A0 = A.copy()
    m = X.mean(0)
    c = np.array([(X[:, i] * X[:, j]).mean() for i, j in pairs(X)])
    si, sisj = ctx.call(cu.pair_corr, A)
    ctx.close(si, m, 'plain_average:mean')
    ctx.close(sisj, c, 'plain_average:pair')
    ctx.close(ctx.call(cu.pair_corr, A, concat=True), np.concatenate([m, c]), 'plain_average:concat')
    a, b = ctx.call(cu.pair_corr, A, subtract_mean=True)
    ctx.close(a, m, 'plain_average:mean_sub')
    ctx.close(b, c - np.array([m[i] * m[j] for i, j in pairs(X)]), 'plain_average:connected')
    ctx.check((A == A0).all(), 'plain_average:inputs_untouched')
    ctx.seen(X)


@monitor(200, 2000, shards=2)
def weighted_average(ctx):
    rng = ctx.rng
    X, A = data(ctx, wide=True)
    S, n = X.shape
    w = rng.random(S)
    if ctx.i % 3 == 0:
        w /= w.sum()
    w[rng.random(S) < .2] = 0
    sub = bool(rng.integers(2))
    m = w.dot(X)
    c = np.array([(w * X[:, i] * X[:, j]).sum() for i, j in pairs(X)])
    cc = c - np.array([m[i] * m[j] for i, j in pairs(X)]) if sub else c
    w0 = w.copy()
    got = ctx.call(cu.pair_corr, A, weights=w, concat=True, subtract_mean=sub)
    ctx.close(got, np.concatenate([m, cc]), 'weighted_average:array', rtol=1e-6 if A.dtype == np.float32 else 1e-8)
    ctx.check((w == w0).all(), 'weighted_average:inputs_untouched')
    f = float(rng.random())
    ctx.close(ctx.call(cu.pair_corr, A, weights=f, concat=True), f * np.concatenate(
        [X.sum(0), [(X[:, i] * X[:, j]).sum() for i, j in pairs(X)]]), 'weighted_average:scalar',
        rtol=1e-6 if A.dtype == np.float32 else 1e-8)
    wt = rng.random(n), rng.random(comb(n, 2))
    ctx.close(ctx.call(cu.pair_corr, A, weights=wt, concat=True), np.concatenate(
        [X.sum(0) * wt[0], np.array([(X[:, i] * X[:, j]).sum() for i, j in pairs(X)]) * wt[1]]),
        'weighted_average:tuple')
    ctx.seen(X, w)
    ctx.raises(cu.pair_corr, 'weighted_average:wrong_length', A, weights=np.ones(S + 1))
    ctx.raises(cu.pair_corr, 'weighted_average:alphabet', A * 0 + 5)


@monitor(200, 2000, shards=2)
def missing_entries(ctx):
    X, A = data(ctx, missing=True)
    m = X.sum(0) / np.where((X != 0).sum(0) == 0, np.nan, (X != 0).sum(0))
    num = np.array([(X[:, i] * X[:, j]).sum() for i, j in pairs(X)])
    den = np.array([((X[:, i] != 0) & (X[:, j] != 0)).sum() for i, j in pairs(X)])
    c = num / np.where(den == 0, np.nan, den)
    a, b = ctx.call(cu.pair_corr, A, exclude_empty=True)
    ctx.check(np.allclose(a, m, equal_nan=True, atol=1e-10), 'missing_entries:mean', 'got %r want %r' % (a, m))
    ctx.check(np.allclose(b, c, equal_nan=True, atol=1e-10), 'missing_entries:pair', 'got %r want %r' % (b, c))
    a, b = ctx.call(cu.pair_corr, A, exclude_empty=True, laplace_count=True)
    ctx.close(a, X.sum(0) / ((X != 0).sum(0) + 2), 'missing_entries:laplace_mean')
    ctx.close(b, num / (den + 4), 'missing_entries:laplace_pair')
    # the weights option does nothing in this mode
    a2, b2 = ctx.call(cu.pair_corr, A, exclude_empty=True, laplace_count=True, weights=ctx.rng.random(len(A)))
    ctx.check(np.allclose(a, a2) and np.allclose(b, b2), 'missing_entries:weights_ignored')
    ctx.seen(X)


@monitor(200, 3000, shards=2)
def combined_options(ctx):
    """Ways of averaging combined with subtraction of the means and concatenation."""
    rng = ctx.rng
    mode = ['empty', 'laplace', 'scalar', 'tuple', 'array'][ctx.i % 5]
    X, A = data(ctx, missing=ctx.i % 5 < 2 or rng.random() < .3, wide=mode != 'empty')
    A0 = A.copy()
    n = X.shape[1]
    P = np.array([X[:, i] * X[:, j] for i, j in pairs(X)]).T.reshape(len(X), -1)
    N = np.array([(X[:, i] != 0) & (X[:, j] != 0) for i, j in pairs(X)]).T.reshape(len(X), -1).sum(0)
    kw = {}
    if mode == 'empty':
        if ((X != 0).sum(0) == 0).any() or (N == 0).any():
            raise Skip
        kw = dict(exclude_empty=True)
        m, c = X.sum(0) / (X != 0).sum(0), P.sum(0) / N
    elif mode == 'laplace':
        kw = dict(exclude_empty=True, laplace_count=True)
        m, c = X.sum(0) / ((X != 0).sum(0) + 2), P.sum(0) / (N + 4)
    elif mode == 'scalar':
        f = kw['weights'] = float(rng.random())
        m, c = f * X.sum(0), f * P.sum(0)
    elif mode == 'tuple':
        kw['weights'] = w = rng.random(n), rng.random(P.shape[1])
        m, c = w[0] * X.sum(0), w[1] * P.sum(0)
    else:
        kw['weights'] = w = rng.random(len(X))
        m, c = w.dot(X), w.dot(P)
    if ctx.i % 2:
        kw['subtract_mean'] = True
        c = c - np.array([m[i] * m[j] for i, j in pairs(X)])
    ctx.note(mode=mode, options=sorted(kw))
    tol = dict(rtol=1e-5, atol=1e-4 * (1 + np.abs(m).max()**2)) if A.dtype == np.float32 else dict(rtol=1e-8, atol=1e-9 * (1 + np.abs(m).max()**2))
    got = ctx.call(cu.pair_corr, A, **kw)
    ctx.check(type(got) is tuple and len(got) == 2, 'combined_options:shape')
    ctx.close(got[0], m, 'combined_options:mean', **tol)
    ctx.close(got[1], c, 'combined_options:pair', **tol)
    ctx.close(ctx.call(cu.pair_corr, A, concat=True, **kw), np.concatenate([m, c]), 'combined_options:concat', **tol)
    ctx.check((A == A0).all(), 'combined_options:inputs_untouched')
    ctx.seen(X, mode, len(kw))


@monitor(120, 1200)
def kth_order(ctx):
    rng = ctx.rng
    X, A = data(ctx, missing=ctx.i % 3 == 0)
    n = X.shape[1]
    k = int(rng.integers(1, min(n, 5) + 1))
    ctx.note(k=k)
    P = np.array([np.prod(X[:, list(c)], axis=1) for c in combinations(range(n), k)], dtype=float)
    ctx.close(ctx.call(cu.k_corr, A, k), P.mean(1), 'kth_order:plain')
    w = rng.random(len(X))
    ctx.close(ctx.call(cu.k_corr, A, k, weights=w), P.dot(w), 'kth_order:weighted', rtol=1e-6)
    if ctx.info_['kind'] == '11' and (P != 0).any(1).all():
        want = np.array([p[p != 0].mean() for p in P])
        ctx.close(ctx.call(cu.k_corr, A, k, exclude_empty=True), want, 'kth_order:exclude_empty', rtol=1e-5 if A.dtype == np.float32 else 1e-8)
    p = ctx.call(cu.pair_corr, A)
    ctx.close(ctx.call(cu.k_corr, A, 1), p[0], 'kth_order:agrees_mean')
    ctx.close(ctx.call(cu.k_corr, A, 2), p[1], 'kth_order:agrees_pair')
    ctx.seen(X, k)


@monitor(150, 1500)
def distinct_rows(ctx):
    rng = ctx.rng
    X, A = data(ctx)
    if A.shape[1] > 4:
        X, A = X[:, :4], A[:, :4]
    if np.issubdtype(A.dtype, np.floating) and rng.random() < .5:
        A = A * np.where(rng.random(A.shape) < .5, 1, -1).astype(A.dtype)  # missing entries of either sign
        X = A
    if np.issubdtype(A.dtype, np.floating) and rng.random() < .3:
        A = np.nextafter(A, rng.choice([-9, 0, 9], size=A.shape).astype(A.dtype))  # rows that differ by rounding errors
        X = A
    elif A.dtype == np.int64 and rng.random() < .3:
        A = A + rng.choice([2**53, 2**53 + 1], size=(len(A), 1))
        X = A
    ix = np.asarray(ctx.call(cu.unique_rows, A))
    rows = [tuple(r) for r in X]
    want = sorted(set(rows))
    ctx.check(sorted(rows[i] for i in ix) == want, 'distinct_rows:index', 'each distinct row exactly once')
    inv = np.asarray(ctx.call(cu.unique_rows, A, return_inverse=True)).ravel()
    ctx.check(len(inv) == len(rows) and all(rows[ix[inv[r]]] == rows[r] for r in range(len(rows))), 'distinct_rows:inverse')
    ctx.seen(X)


@monitor(60, 600)
def log_frequencies(ctx):
    """Energies and log frequencies of the states of a sample, for their comparison."""
    import coniii.samplers as sa
    from collections import Counter
    rng = ctx.rng
    X, A = data(ctx)
    n = min(A.shape[1], 5)
    X, A = X[:, :n], A[:, :n]
    th = rng.normal(size=n)
    states, E, lp = ctx.call(sa.check_e_logp, A, lambda s: s.astype(float).dot(th))
    rows = [tuple(r) for r in X.astype(float)]
    want = Counter(rows)
    st = [tuple(float(v) for v in r) for r in np.asarray(states)]
    if ctx.check(len(st) == len(E) == len(lp) == len(want) and set(st) == set(want), 'log_frequencies:states'):
        ctx.close(lp, [np.log(want[r] / len(rows)) for r in st], 'log_frequencies:log_frequency', atol=1e-12)
        ctx.close(E, np.array(st).dot(th), 'log_frequencies:energy', atol=1e-12)
    ctx.seen(X)


@monitor(200, 2000)
def frequencies(ctx):
    rng = ctx.rng
    X, A = data(ctx)
    n = min(A.shape[1], int(rng.integers(1, 5)))
    X, A = X[:, :n], A[:, :n]
    rows = [tuple(r) for r in X]
    p, S = ctx.call(cu.state_probs, A)
    got = {tuple(s): q for s, q in zip(np.asarray(S).astype(int), p)}
    ctx.check(len(got) == len(p) == len(set(rows)), 'frequencies:support')
    ctx.check(all(abs(got.get(r, -1) - rows.count(r) / len(rows)) < 1e-12 for r in set(rows)), 'frequencies:probability', str(got))
    c, S = ctx.call(cu.state_probs, A, normalized=False)
    ctx.check(all(q == rows.count(tuple(s)) for s, q in zip(np.asarray(S).astype(int), c)), 'frequencies:count')
    # on a given list of states
    from itertools import product
    al = np.array(list(product(sorted(set(X.ravel().tolist()) | {1}), repeat=n)))
    al = al[rng.permutation(len(al))]
    want = np.array([rows.count(tuple(s)) for s in al], dtype=float)
    ctx.close(ctx.call(cu.state_probs, A, allstates=al.astype(A.dtype)), want / want.sum(), 'frequencies:given_states')
    ctx.close(ctx.call(cu.state_probs, A, allstates=al, normalized=False), want, 'frequencies:given_states_count')
    w = rng.random(len(X))
    want = np.array([sum(wi for wi, r in zip(w, rows) if r == tuple(s)) for s in al])
    ctx.close(ctx.call(cu.state_probs, A, allstates=al, weights=w, normalized=False), want, 'frequencies:weighted_count')
    ctx.close(ctx.call(cu.state_probs, A, allstates=al, weights=w), want / want.sum(), 'frequencies:weighted')
    # states of the data missing from the list are reported
    if len(set(rows)) > 1:
        sub = np.array([s for s in al if tuple(s) != rows[0]])
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter('always')
            q = ctx.call(cu.state_probs, A, allstates=sub, normalized=False)
        ctx.check(any('not found' in str(r.message) for r in rec), 'frequencies:incomplete_list_reported')
        ctx.close(q, [rows.count(tuple(s)) for s in sub], 'frequencies:incomplete_list')
    if n == 1:
        ctx.close(ctx.call(cu.state_probs, A[:, 0], allstates=al), ctx.call(cu.state_probs, A, allstates=al), 'frequencies:one_dim')
    ctx.seen(X)


@monitor(120, 1200)
def overlap(ctx):
    rng = ctx.rng
    X, A = data(ctx, missing=ctx.i % 2 == 0, big=False)
    if ctx.i % 5 == 0:                           # wide replicas
        X = rng.choice([-1, 1], size=(int(rng.integers(1, 8)), int(rng.integers(100, 400))))
        A = X.astype(DT[int(rng.integers(7))])
    n = X.shape[1]
    want = X.dot(X.T) / n
    ctx.close(ctx.call(cu.calc_overlap, A), want, 'overlap:plain', rtol=1e-5 if A.dtype == np.float32 else 1e-8)
    nz = (X != 0).sum(1)
    if (nz > 0).all():
        want = X.dot(X.T) / np.minimum(nz[:, None], nz[None, :])
        ctx.close(ctx.call(cu.calc_overlap, A, ignore_zeros=True), want, 'overlap:ignore_zeros',
                  rtol=1e-5 if A.dtype == np.float32 else 1e-8)
    ctx.seen(X)
