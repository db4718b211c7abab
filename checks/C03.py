"""C03: the shipped exact-enumeration modules are the Boltzmann distribution."""
import importlib
from math import comb

import numpy as np
import coniii.utils as cu
from coniii.enumerate import fast_logsumexp, mp_fast_logsumexp
import ref
from core import monitor, settings

NEED = ()
settings('Every shipped module is driven with parameter vectors from zero and sparse to strongly frustrated and '
         'near-saturated (|theta| up to hundreds), and compared with a brute-force sum over all states in the documented '
         'state order.', scale=8)

MODS = [(n, s, 2) for n in range(2, 10) for s in ('', '_sym')] + [(5, '_triplet', 3), (5, '_sym_triplet', 3)]


def load(n, suffix):
    return importlib.import_module('coniii.ising_eqn.ising_eqn_%d%s' % (n, suffix))


def thetas(rng, size):
    kind = int(rng.integers(7))
    if kind == 0:
        t = np.zeros(size)
    elif kind == 1:
        t = np.zeros(size)
        t[rng.integers(size)] = rng.normal() * 3
    elif kind == 2:
        t = rng.normal(size=size) * 30
    elif kind == 3:
        t = rng.normal(size=size) * 300
    elif kind == 4:
        t = rng.integers(-2, 3, size=size).astype(float)      # degenerate ground states
    else:
        t = rng.normal(size=size) * rng.choice([.05, .5, 1, 2])
    return kind, t


@monitor(len(MODS) * 15, len(MODS) * 150, shards=6)
def shipped_module(ctx):
    rng = ctx.rng
    n, suf, order = MODS[ctx.i % len(MODS)]
    sym = 'sym' in suf
    size = sum(comb(n, k) for k in range(1, order + 1))
    kind, t = thetas(rng, size)
    ctx.note(n=n, module=suf, theta=t)
    mod = ctx.call(load, n, suf)
    t0 = t.copy()
    S, p, lz, m = ref.ising_model(t, n, (-1, 1) if sym else (0, 1), order)
    sc = 1e-9 * (1 + np.abs(t).max())
    key = 'shipped_module:%d%s' % (n, suf)
    obs = np.asarray(ctx.call(mod.calc_observables, t), dtype=float)
    ctx.close(obs, m, key + ':observables', atol=sc, rtol=1e-7)
    P = np.asarray(ctx.call(mod.p, t), dtype=float)
    ctx.close(P, p, key + ':probabilities', atol=sc, rtol=1e-6)
    ctx.check(abs(P.sum() - 1) < 1e-8, key + ':normalised', P.sum())
    ctx.check((t == t0).all(), key + ':inputs_untouched')
    # the documented order of the states is the one of the state generator
    states = ctx.call(cu.bin_states, n, sym=sym)
    ctx.close(P.dot(ref.ising_obs(states, order)), obs, key + ':state_order', atol=1e-7 + sc, rtol=1e-6)
    ctx.seen(n, suf, t)


@monitor(60, 400)
def conventions_agree(ctx):
    """The two shipped conventions of the same model describe the same distribution."""
    rng = ctx.rng
    n = 2 + ctx.i % 8
    h, J = rng.normal(size=n), rng.normal(size=comb(n, 2))
    a, b = load(n, ''), load(n, '_sym')
    t11 = ctx.call(cu.convert_params, h, J, '11', concat=True)
    pa, pb = ctx.call(a.p, np.concatenate([h, J])), ctx.call(b.p, t11)
    ctx.note(n=n)
    ctx.close(pa, pb, 'conventions_agree:probabilities')
    oa, ob = a.calc_observables(np.concatenate([h, J])), b.calc_observables(t11)
    ctx.close(ctx.call(cu.convert_corr, oa[:n], oa[n:], '11', concat=True), ob, 'conventions_agree:correlations', atol=1e-8)
    ctx.seen(n, h)


@monitor(300, 3000)
def logsumexp(ctx):
    """The signed log-sum-exp behind the modules."""
    import mpmath as mp
    rng = ctx.rng
    k = int(rng.integers(1, 200))
    X = rng.normal(size=k) * rng.choice([1e-3, 1, 50, 1e3]) + rng.choice([0, 700, -700, 1e4])
    if rng.random() < .2:
        X[:] = X[0]
    c = rng.choice([None, 'pm', '01', 'real'])
    co = {None: None, 'pm': rng.choice([-1, 1], size=k), '01': rng.integers(0, 2, size=k), 'real': rng.normal(size=k)}[c]
    ctx.note(X=X, coeffs=c)
    w = np.exp(X - X.max())
    y = w.sum() if co is None else w.dot(co)
    scale = w.sum() if co is None else np.abs(w * co).sum()
    l, s = ctx.call(fast_logsumexp, X, co)
    got = np.exp(l - X.max()) * s
    ctx.check(abs(got - y) <= 1e-10 * max(scale, 1e-300) or y == got, 'logsumexp:float', '%r vs %r' % (got, y))
    ctx.check(s in (1, -1) and not np.isnan(l), 'logsumexp:sign', repr((l, s)))
    l2, s2 = ctx.call(mp_fast_logsumexp, np.array([mp.mpf(float(x)) for x in X]), co)
    got2 = float(mp.exp(l2 - mp.mpf(float(X.max()))) * s2)
    ctx.check(abs(got2 - y) <= 1e-10 * max(scale, 1e-300) or y == got2, 'logsumexp:mp', '%r vs %r' % (got2, y))
    if co is None:
        ctx.check(l >= X.max() - 1e-12 * abs(X.max()) and l <= X.max() + np.log(k) + 1e-9 * (1 + abs(X.max())), 'logsumexp:bounds')
    ctx.seen(X, c)
