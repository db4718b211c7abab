"""C05: energies, observables and derivatives of every model agree with the model's definition."""
from math import comb

import numpy as np
import coniii.utils as cu
import coniii.samplers as cs
import ref
from core import monitor, settings

NEED = ()
settings('Random states (both spin conventions, Potts alphabets of 2 to 7 states, contiguous and strided arrays) and '
         'parameters; energies must equal -observables.parameters with observables recomputed from the definition, '
         'conditional quantities must reproduce energy differences, gradients must match central differences, and the '
         'reweighting step must equal importance reweighting computed directly.', scale=3)

H = {}


def helpers(name, *a):
    k = (name,) + a
    if k not in H:
        H[k] = getattr(cu, name)(*a)
    return H[k]


def rand_states(rng, S, n, kind):
    if isinstance(kind, int):
        X = rng.integers(0, kind, size=(S, n))
    else:
        X = rng.integers(0, 2, size=(S, n))
        if kind == '11':
            X = 2 * X - 1
    c = int(rng.integers(4))
    if c == 0:
        X = np.asfortranarray(X)
    elif c == 1:
        X = np.repeat(X, 2, axis=0)[::2]
    elif c == 2:
        X = np.repeat(X, 2, axis=1)[:, ::2]
    return X


def reweighted(X, obs, dE):
    w = np.exp(-(dE - dE.min()))
    return (w / w.sum()).dot(obs)


def ising_like(ctx, name, lowest, order, kinds, mch=True):
    rng = ctx.rng
    n = int(rng.integers(2 if order == 2 else 3, 11 if order == 2 else 8))
    S = int(rng.choice([1, 2, 7, 60]))
    if ctx.i % 9 == 0:
        n, S = int(rng.integers(11, 45 if order == 2 else 15)), int(rng.choice([1, 50, 300]))
    elif ctx.i % 23 == 1 and lowest == 1 and order == 2:
        n = 1
    kind = kinds[ctx.i % len(kinds)]
    X = rand_states(rng, S, n, kind)
    size = sum(comb(n, k) for k in range(lowest, order + 1))
    t = rng.normal(size=size) * rng.choice([.1, 1, 10])
    if rng.random() < .15:
        t = np.repeat(t, 2)[::2]
    ctx.note(n=n, S=S, kind=kind, layout=str(X.flags['C_CONTIGUOUS']))
    hs = ctx.call(helpers, name)
    obs = ref.ising_obs(X, order, lowest)
    X0, t0 = X.copy(), t.copy()
    o = ctx.call(hs[1], X, _key=ctx.mon + ':observables')
    ctx.eq(o, obs, ctx.mon + ':observables', 'observables of the states')
    e = ctx.call(hs[0], X, t, _key=ctx.mon + ':energy')
    ctx.close(e, -obs.dot(t), ctx.mon + ':energy', atol=1e-9 * (1 + np.abs(t).sum()))
    ctx.check((X == X0).all() and (t == t0).all(), ctx.mon + ':inputs_untouched')
    if mch:
        d = rng.normal(size=size) * rng.choice([1e-3, .1, .5, 2, 50, 500])
        got = ctx.call(hs[2], X, d, _key=ctx.mon + ':reweighting')
        ctx.close(got, reweighted(X, obs, -obs.dot(d)), ctx.mon + ':reweighting', atol=1e-8)
        z = ctx.call(hs[2], X, np.zeros(size), _key=ctx.mon + ':reweighting')
        ctx.close(z, obs.mean(0), ctx.mon + ':reweighting_zero_step', atol=1e-9)
    ctx.seen(name, n, S, kind, X)
    ctx.count('states', S)


@monitor(120, 1500, shards=2)
def ising_pairwise(ctx):
    ising_like(ctx, 'define_ising_helper_functions', 1, 2, ['11', '01'])


@monitor(60, 600)
def ising_no_fields(ctx):
    ising_like(ctx, 'define_ising_helper_functions_sym', 2, 2, ['11', '01'])


@monitor(60, 600)
def ising_triplet(ctx):
    ising_like(ctx, 'define_triplet_helper_functions', 1, 3, ['11', '01'], mch=False)


@monitor(100, 1000, shards=2)
def potts(ctx):
    rng = ctx.rng
    k = 2 + ctx.i % 6
    n = int(rng.integers(2, 9))
    S = int(rng.choice([1, 3, 50]))
    if ctx.i % 10 == 0:
        n, k, S = int(rng.integers(9, 25)), int(rng.choice([2, 3, 11])), int(rng.choice([1, 200]))
    X = rand_states(rng, S, n, k)
    t = rng.normal(size=n * k + comb(n, 2)) * rng.choice([.1, 1, 10])
    ctx.note(n=n, k=k, S=S)
    hs = ctx.call(helpers, 'define_potts_helper_functions', k)
    obs = ref.potts_obs(X, k)
    X0 = X.copy()
    ctx.eq(ctx.call(hs[1], X, _key='potts:observables'), obs, 'potts:observables')
    ctx.close(ctx.call(hs[0], X, t, _key='potts:energy'), -obs.dot(t), 'potts:energy', atol=1e-9 * (1 + np.abs(t).sum()))
    d = rng.normal(size=t.size) * rng.choice([1e-3, .1, 1, 50, 500])
    ctx.close(ctx.call(hs[2], X, d, _key='potts:reweighting'), reweighted(X, obs, -obs.dot(d)), 'potts:reweighting', atol=1e-8)
    ctx.check((X == X0).all(), 'potts:inputs_untouched')
    ctx.seen(n, k, X)


@monitor(80, 800)
def energy_derivative(ctx):
    """dE/dtheta_i is minus the i-th observable."""
    rng = ctx.rng
    n = int(rng.integers(2, 12))
    X = rand_states(rng, int(rng.integers(1, 9)), n, ['01', '11'][ctx.i % 2])
    obs = ref.ising_obs(X, 2)
    types = [['i8', 'u1', 'f8', 'bool', 'i1', 'u8', 'f4'], ['i8', 'i1', 'f8', 'i2', 'f4']][ctx.i % 2]
    X = X.astype(types[ctx.i // 2 % len(types)])
    ctx.note(n=n, dtype=X.dtype.str)
    bad = [i for i in range(obs.shape[1]) if not np.array_equal(ctx.call(cu.calc_de, X, i), -obs[:, i])]
    ctx.check(not bad, 'energy_derivative', 'wrong for parameters %r' % bad[:5])
    ctx.raises(cu.calc_de, 'energy_derivative:one_dimensional', X[0], 0)
    ctx.seen(n, X)


@monitor(80, 800, shards=3, cost=3)
def pseudo_ising(ctx):
    """Parameters and observables seen by one spin: energy change of flipping it."""
    rng = ctx.rng
    n = 2 + ctx.i % 9 if ctx.i % 20 else (18, 27, 34, 45)[ctx.i // 20 % 4]
    X = rand_states(rng, int(rng.integers(1, 20)), n, '11')
    t = rng.normal(size=n + comb(n, 2))
    gm, co = ctx.call(helpers, 'define_pseudo_ising_helper_functions', n)
    ctx.note(n=n)
    ix_seen = np.zeros(t.size, dtype=int)
    for r in range(n):
        m, ix = ctx.call(gm, r, t, _key='pseudo_ising:multipliers')
        ctx.eq(t[np.asarray(list(ix))], m, 'pseudo_ising:index', 'r=%d' % r)
        ix_seen[np.asarray(list(ix))] += 1
        o = ctx.call(co, r, np.ascontiguousarray(X), _key='pseudo_ising:observables')
        Y = X.copy()
        Y[:, r] *= -1
        de = -(ref.ising_obs(Y, 2) - ref.ising_obs(X, 2)).dot(t)
        ctx.close(2 * o.dot(m), de, 'pseudo_ising:flip_energy', 'r=%d' % r)
    # every field is used by its own spin and every coupling by its two
    ctx.eq(ix_seen, np.concatenate([np.ones(n), 2 * np.ones(comb(n, 2))]), 'pseudo_ising:coverage')
    ctx.seen(n, X, t)


@monitor(70, 500, shards=6, cost=8)
def pseudo_potts(ctx):
    rng = ctx.rng
    n, k = [(2, 2), (3, 3), (4, 3), (2, 5), (5, 2), (6, 4), (3, 2), (9, 3), (2, 12)][ctx.i % 9]
    X = np.ascontiguousarray(rand_states(rng, int(rng.integers(1, 12)), n, k))
    t = rng.normal(size=n * k + comb(n, 2))
    gm, co = ctx.call(helpers, 'define_pseudo_potts_helper_functions', n, k)
    ctx.note(n=n, k=k)
    e0 = -ref.potts_obs(X, k).dot(t)
    for r in range(n):
        m, ix = ctx.call(gm, r, t, _key='pseudo_potts:multipliers')
        ctx.eq(t[np.asarray(list(ix))], m, 'pseudo_potts:index', 'r=%d' % r)
        o, other, ostate = ctx.call(co, r, X, _key='pseudo_potts:observables')
        ctx.check(len(other) == k - 1, 'pseudo_potts:alternatives')
        for row in range(len(X)):
            ctx.check(sorted([X[row, r]] + list(ostate[row])) == list(range(k)), 'pseudo_potts:alternative_states')
        for c in range(k - 1):
            Y = X.copy()
            Y[:, r] = ostate[:, c]
            de = -ref.potts_obs(Y, k).dot(t) - e0
            got = -(np.asarray(other[c], dtype=float) - np.asarray(o, dtype=float)).dot(m)
            ctx.close(got, de, 'pseudo_potts:change_energy', 'r=%d alternative %d' % (r, c))
    ctx.seen(n, k, X)


@monitor(80, 800, shards=2)
def heisenberg(ctx):
    """Three-dimensional spins given by angles: energy -sum J_ij s_i.s_j and its gradients."""
    rng = ctx.rng
    n = int(rng.integers(2, 8))
    J = rng.normal(size=comb(n, 2))
    x = np.stack([rng.uniform(0, np.pi, n), rng.uniform(0, 2 * np.pi, n)], 1).ravel()
    ctx.note(n=n)

    def energy(J, x):
        th, ph = x[::2], x[1::2]
        v = np.stack([np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)], 1)
        return -sum(J[k] * v[i].dot(v[j]) for k, (i, j) in enumerate(ref.pairs(n)))
    ctx.close(ctx.call(cs.calc_e, J, x), energy(J, x), 'heisenberg:energy')
    h = 1e-6
    num = np.array([(energy(J, x + h * d) - energy(J, x - h * d)) / (2 * h) for d in np.eye(2 * n)])
    ctx.close(ctx.call(cs.grad_e, J, x), num, 'heisenberg:gradient_angles', atol=1e-6, rtol=1e-5)
    num = np.array([energy(d, x) for d in np.eye(J.size)])
    ctx.close(ctx.call(cs.grad_e_theta, J, x), num, 'heisenberg:gradient_couplings')
    ctx.seen(n, J)


@monitor(6, 20, cost=3)
def ternary_reads_only_its_input(ctx):
    """Observables of a data set are a function of that data set only."""
    n = 3 + ctx.i % 3
    calc_e, calc_obs = ctx.call(helpers, 'define_ternary_helper_functions')
    X = ctx.rng.integers(-1, 2, size=(4, n))
    ctx.note(n=n)
    res = []
    for sentinel in (5, 7):
        buf = np.full((6, 4 * n), sentinel)
        view = buf[1:5, :n]
        view[:] = X
        res.append(np.array(ctx.call(calc_obs, view, _key='ternary')))
    ctx.check(res[0].shape == res[1].shape and (res[0] == res[1]).all(), 'ternary:reads_outside_its_input',
              'the result changes with memory next to the data set')
    ctx.seen(n, X)
