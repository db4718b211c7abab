"""C02: converting between the {0,1} and {-1,1} conventions preserves the model."""
from itertools import combinations
from math import comb

import numpy as np
from scipy.spatial.distance import squareform
import coniii.utils as cu
import ref
from core import monitor, settings

NEED = ()
settings('Random fields, couplings and higher-order interactions of mixed scale, data sets of random size and bias; '
         'the oracle evaluates the energy of every state in both conventions, or the averages of the same data in '
         'both.', scale=10)

VALS = {'01': (0, 1), '11': (-1, 1)}
OTHER = {'01': '11', '11': '01'}


def energies(theta, n, order, basis):
    return -ref.ising_obs(ref.states(n, VALS[basis]), order).dot(theta)


def same_model(ctx, t_from, t_to, n, order, to, key):
    e0 = energies(t_from, n, order, OTHER[to])
    e1 = energies(t_to, n, order, to)
    d = e1 - e0                                      # the same states row by row; equal up to a constant
    sc = 1 + np.abs(e0).max() + np.abs(e1).max()
    ctx.check(np.ptp(d) <= 1e-10 * sc, key, 'energies differ by a non-constant amount %g' % np.ptp(d), to=to, n=n,
              order=order)


@monitor(150, 1500)
def pairwise_params(ctx):
    rng = ctx.rng
    n = int(rng.integers(2, 11)) if ctx.i % 10 else int(rng.integers(11, 15))
    h = rng.normal(size=n) * rng.choice([.1, 1, 5])
    J = rng.normal(size=comb(n, 2)) * rng.choice([.1, 1, 5])
    if rng.random() < .3:
        J[rng.random(J.size) < .6] = 0
    to = ['01', '11'][ctx.i % 2]
    ctx.note(n=n, to=to, h=h, J=J)
    h0, J0 = h.copy(), J.copy()
    h1, J1 = ctx.call(cu.convert_params, h, J, to)
    same_model(ctx, np.concatenate([h, J]), np.concatenate([h1, J1]), n, 2, to, 'pairwise_params:model')
    ctx.close(ctx.call(cu.convert_params, h, J, to, concat=True), np.concatenate([h1, J1]), 'pairwise_params:concat')
    Jm = squareform(J)
    h2, J2 = ctx.call(cu.convert_params, h, Jm, to)
    ctx.close(np.concatenate([h2, J2]), np.concatenate([h1, J1]), 'pairwise_params:matrix_form')
    hb, Jb = ctx.call(cu.convert_params, h1, J1, OTHER[to])
    ctx.close(np.concatenate([hb, Jb]), np.concatenate([h, J]), 'pairwise_params:roundtrip')
    g = ctx.call(cu.ising_convert_params, (h, J), to)
    ctx.close(np.concatenate(g), np.concatenate([h1, J1]), 'pairwise_params:agree_general')
    ctx.check((h == h0).all() and (J == J0).all(), 'pairwise_params:inputs_untouched')
    ctx.seen(n, to, h)
    ctx.count('states_compared', 2**n)
    ctx.raises(cu.convert_params, 'pairwise_params:bad_basis', h, J, '1')


@monitor(150, 1500, shards=2)
def any_order_params(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 9)) if ctx.i % 10 else int(rng.integers(9, 13))
    order = int(rng.integers(1, (min(n, 8) if n < 9 else 4) + 1))
    if ctx.i % 10 == 3:
        order = n
    parts = [rng.normal(size=comb(n, k)) * rng.choice([.1, 1, 3]) for k in range(1, order + 1)]
    if rng.random() < .3:                      # a single interaction somewhere, everything else zero
        keep = int(rng.integers(order))
        for k in range(order):
            z = np.zeros_like(parts[k])
            if k == keep:
                z[rng.integers(z.size)] = rng.normal()
            parts[k] = z
    to = ['01', '11'][ctx.i % 2]
    ctx.note(n=n, order=order, to=to, parts=parts)
    orig = [p.copy() for p in parts]
    as_list = rng.random() < .3
    arg = tuple(p.tolist() for p in parts) if as_list else tuple(parts)
    got = ctx.call(cu.ising_convert_params, arg, to)
    ctx.check([len(g) for g in got] == [len(p) for p in parts], 'any_order_params:layout', str([len(g) for g in got]))
    t0, t1 = np.concatenate(parts), np.concatenate(got)
    same_model(ctx, t0, t1, n, order, to, 'any_order_params:model:order%d' % order)
    ctx.close(ctx.call(cu.ising_convert_params, tuple(parts), to, concat=True), t1, 'any_order_params:concat')
    back = ctx.call(cu.ising_convert_params, tuple(np.asarray(g) for g in got), OTHER[to], concat=True)
    ctx.close(back, t0, 'any_order_params:roundtrip', rtol=1e-7, atol=1e-7)
    ctx.check(all((a == b).all() for a, b in zip(orig, parts)), 'any_order_params:inputs_untouched')
    ctx.seen(n, order, to, t0)
    ctx.count('states_compared', 2**n)


@monitor(150, 1500)
def correlations(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 15)) if ctx.i % 8 else int(rng.integers(15, 60))
    S = int(rng.integers(1, 200))
    X = (rng.random((S, n)) < rng.random(n)).astype(int)
    Y = 2 * X - 1
    m01 = X.mean(0), np.array([(X[:, i] * X[:, j]).mean() for i, j in combinations(range(n), 2)])
    m11 = Y.mean(0), np.array([(Y[:, i] * Y[:, j]).mean() for i, j in combinations(range(n), 2)])
    ctx.note(n=n, samples=S)
    copies = [a.copy() for a in m01 + m11]
    for src, dst, to in ((m01, m11, '11'), (m11, m01, '01')):
        a, b = ctx.call(cu.convert_corr, src[0], src[1], to)
        ctx.close(a, dst[0], 'correlations:mean:' + to)
        ctx.close(b, dst[1], 'correlations:pair:' + to)
        ctx.close(ctx.call(cu.convert_corr, src[0], src[1], to, concat=True), np.concatenate(dst), 'correlations:concat')
        ctx.close(np.concatenate(ctx.call(cu.convert_corr, src[0], src[1], None, convertTo=to)), np.concatenate(dst),
                  'correlations:deprecated_keyword')
        p = cu.pair_corr(X if to == '01' else Y)
        ctx.close(np.concatenate([a, b]), np.concatenate(p), 'correlations:agree_with_data')
    ctx.check(all((a == b).all() for a, b in zip(copies, m01 + m11)), 'correlations:inputs_untouched')
    ctx.seen(n, S, X)
    ctx.raises(cu.convert_corr, 'correlations:bad_basis', m01[0], m01[1], 'x')
    ctx.raises(cu.convert_corr, 'correlations:bad_keyword', m01[0], m01[1], '11', basis='01')


@monitor(60, 500)
def model_expectations(ctx):
    """Converted parameters give converted expectation values."""
    rng = ctx.rng
    n = int(rng.integers(2, 9))
    t = ref.theta_scales(rng, n + comb(n, 2))
    to = ['01', '11'][ctx.i % 2]
    ctx.note(n=n, to=to, theta=t)
    t1 = ctx.call(cu.convert_params, t[:n], t[n:], to, concat=True)
    _, p0, _, m0 = ref.ising_model(t, n, VALS[OTHER[to]])
    _, p1, _, m1 = ref.ising_model(t1, n, VALS[to])
    ctx.close(p0, p1, 'model_expectations:distribution', rtol=1e-7, atol=1e-11)
    ctx.close(ctx.call(cu.convert_corr, m0[:n], m0[n:], to, concat=True), m1, 'model_expectations:correlations', atol=1e-8)
    ctx.seen(n, to, t)
