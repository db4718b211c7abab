"""C04: generated equation files are correct for any size, order, convention and precision."""
import importlib.util
import os
import subprocess
import sys
from itertools import combinations
from math import comb

import numpy as np
import coniii
import coniii.enumerate as ce
import coniii.ising_eqn
from coniii.enumerate_potts import SpecificFieldGenericCouplings
import coniii.utils as cu
import ref
from core import monitor, settings, Skip

NEED = ()
settings('Equation files are generated in a scratch folder for random sizes, orders (also arbitrary subsets of '
         'interactions), both conventions and both precisions, through the API and the command line; each is imported and '
         'its observables and probabilities compared with a brute-force sum over states (50 digits for the high-precision '
         'ones).')

_count = [0]


def load(path):
    _count[0] += 1
    name = 'coniii.ising_eqn._vgen_%d_%d' % (os.getpid(), _count[0])
    spec = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def quiet(fn, *a, **k):
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def fresh(ctx):
    d = os.path.join(ctx.scratch, 'gen_%d' % ctx.i + ctx.mon)
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    for r, _, fs in os.walk(d):
        for f in fs:
            os.unlink(os.path.join(r, f))
    return d


def produced(d):
    got = [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs if f.endswith('.py')]
    return got


def compare(ctx, mod, obs, size, key, ntheta=4):
    """obs: observables of all states in documented order."""
    rng = ctx.rng
    for k in range(ntheta):
        t = [np.zeros(size), rng.normal(size=size), rng.normal(size=size) * 20, rng.integers(-2, 3, size=size) * 1.][k % 4]
        p, lz, m = ref.boltzmann(obs, t)
        o = np.asarray(ctx.call(mod.calc_observables, t), dtype=float)
        P = np.asarray(ctx.call(mod.p, t), dtype=float)
        ctx.close(o, m, key + ':observables', atol=1e-9 * (1 + np.abs(t).max()), rtol=1e-7)
        ctx.close(P, p, key + ':probabilities', atol=1e-9 * (1 + np.abs(t).max()), rtol=1e-6)


def compare_mp(ctx, mod, obs, size, key):
    import mpmath as mp
    old = mp.mp.dps
    mp.mp.dps = 50
    try:
        t = np.array([mp.mpf(float(x)) * mp.mpf(1) / 3 for x in ctx.rng.normal(size=size) * ctx.rng.choice([1, 20])])
        iobs = obs.astype(int)
        le = [sum((t[j] * int(r[j]) for j in np.flatnonzero(r)), mp.mpf(0)) for r in iobs]
        mx = max(le)
        w = [mp.exp(x - mx) for x in le]
        Z = sum(w)
        want_p = [x / Z for x in w]
        o = ctx.call(mod.calc_observables, t)
        P = ctx.call(mod.p, t)
        ok = len(P) == len(want_p) and all(abs(a - b) <= mp.mpf(10)**-38 for a, b in zip(P, want_p))
        ctx.check(ok, key + ':hp_probabilities', 'not accurate to 38 digits')
        want_o = [sum((want_p[s] * int(iobs[s, j]) for s in range(len(iobs))), mp.mpf(0)) for j in range(size)]
        ok = len(o) == size and all(abs(a - b) <= mp.mpf(10)**-38 for a, b in zip(o, want_o))
        ctx.check(ok, key + ':hp_observables', 'not accurate to 38 digits: %r' % [str(a) for a in list(o)[:6]])
    finally:
        mp.mp.dps = old


@monitor(26, 60, shards=8, cost=5)
def ising_api(ctx):
    rng = ctx.rng
    order = 2 + ctx.i % 2
    sym = (ctx.i // 2) % 2
    hp = (ctx.i // 4) % 2 == 1
    n = int(rng.integers(order, (7 if hp else 9) if ctx.thorough else (5 if hp else 7)))
    ctx.note(n=n, order=order, sym=sym, high_prec=hp)
    d = fresh(ctx)
    # a folder without the license file must do as well
    if ctx.i % 3 == 0:
        open('LICENSE.txt', 'w').write('some\nlicense "text"\n')
    ctx.call(quiet, ce.pairwise if order == 2 else ce.triplet, n, sym, high_prec=hp, _key='ising_api:generate')
    fs = produced(d)
    ctx.check(len(fs) == 1, 'ising_api:one_file', str(fs))
    mod = ctx.call(load, fs[0], _key='ising_api:import')
    size = sum(comb(n, k) for k in range(1, order + 1))
    S = ctx.call(cu.bin_states, n, sym=bool(sym))
    key = 'ising_api:order%d:%s' % (order, 'sym' if sym else '01')
    obs = ref.ising_obs(S, order)
    if hp:
        compare_mp(ctx, mod, obs, size, key)
    else:
        compare(ctx, mod, obs, size, key)
    ctx.seen(n, order, sym, hp)
    ctx.count('states', 2**n)


@monitor(16, 60, shards=4, cost=5)
def arbitrary_interactions(ctx):
    """Any subset of interactions of any order."""
    rng = ctx.rng
    n = int(rng.integers(3, 7))
    sym = ctx.i % 2
    K = int(rng.integers(2, 5))
    K = min(K, n)
    terms, cols = [], []
    S = ref.states(n, (-1, 1) if sym else (0, 1))
    for k in range(1, K + 1):
        al = list(combinations(range(n), k))
        keep = sorted(rng.choice(len(al), size=int(rng.integers(1, len(al) + 1)), replace=False).tolist())
        sel = [al[i] for i in keep]
        terms.append(tuple(np.array(x) for x in zip(*sel)))
        for c in sel:
            cols.append(np.prod(S[:, list(c)], axis=1))
    obs = np.array(cols, dtype=float).T
    ctx.note(n=n, sym=sym, terms=[len(t[0]) for t in terms])
    d = fresh(ctx)
    if ctx.i // 2 % 2:  # written before for other interactions or the other convention
        ctx.call(quiet, ce.write_eqns, n, (sym, 1 - sym)[ctx.i // 4 % 2], terms[:-1], suffix='_custom')
        ctx.count('rewritten')
    ctx.call(quiet, ce.write_eqns, n, sym, terms, suffix='_custom', _key='arbitrary_interactions:generate')
    mod = ctx.call(load, produced(d)[0], _key='arbitrary_interactions:import')
    compare(ctx, mod, obs, obs.shape[1], 'arbitrary_interactions:' + ('sym' if sym else '01'))
    ctx.seen(n, sym, obs)


@monitor(4, 12, shards=4, cost=20)
def ising_command_line(ctx):
    rng = ctx.rng
    d = fresh(ctx)
    order, sym = [(2, 0), (2, 1), (3, 0), (3, 1)][ctx.i % 4]
    n = int(rng.integers(3, 6))
    hp = bool(rng.integers(2))
    args = [str(n)] + ([str(sym)] if (sym or order == 3) else []) + (['3'] if order == 3 else []) + (['-hp=true'] if hp else [])
    ctx.note(args=args)
    r = subprocess.run([sys.executable, os.path.join(os.path.dirname(coniii.__file__), 'enumerate.py')] + args, cwd=d,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=240)
    if not ctx.check(r.returncode == 0, 'ising_command_line:exit', r.stdout.decode()[-500:]):
        return
    mod = ctx.call(load, produced(d)[0])
    obs = ref.ising_obs(ref.states(n, (-1, 1) if sym else (0, 1)), order)
    (compare_mp if hp else compare)(ctx, mod, obs, obs.shape[1], 'ising_command_line')
    ctx.seen(*args)


@monitor(9, 30, shards=5, cost=8)
def potts_writer(ctx):
    rng = ctx.rng
    n, k = [(3, 2), (3, 3), (4, 2), (4, 3), (3, 4), (3, 5), (4, 4), (3, 7), (5, 3), (3, 9), (3, 10), (6, 2), (5, 2),
            (4, 5), (4, 6), (6, 3)][ctx.i % (9 if ctx.tier == 'quick' else 16)]
    ctx.note(n=n, k=k)
    d = fresh(ctx)
    ctx.call(SpecificFieldGenericCouplings(n, k).write, os.path.join(d, 'potts.py'), _key='potts_writer:generate')
    mod = ctx.call(load, os.path.join(d, 'potts.py'), _key='potts_writer:import')
    obs = ref.potts_obs(ref.states(n, tuple(range(k))), k)
    compare(ctx, mod, obs, obs.shape[1], 'potts_writer', ntheta=3)
    ctx.raises(mod.calc_observables, 'potts_writer:size_checked', np.zeros(obs.shape[1] + 1))
    ctx.seen(n, k)


@monitor(1, 3, cost=30)
def potts_many_states(ctx):
    """More than ten Potts states: digits beyond 9 label the states."""
    n, k = 3, [11, 12, 20][ctx.i]
    ctx.note(n=n, k=k)
    d = fresh(ctx)
    ctx.call(SpecificFieldGenericCouplings(n, k).write, os.path.join(d, 'potts.py'), _key='potts_many_states:generate')
    mod = ctx.call(load, os.path.join(d, 'potts.py'), _key='potts_many_states:import')
    obs = ref.potts_obs(ref.states(n, tuple(range(k))), k)
    compare(ctx, mod, obs, obs.shape[1], 'potts_many_states', ntheta=2)
    ctx.seen(n, k)


@monitor(1, 2, cost=10)
def potts_command_line(ctx):
    d = fresh(ctx)
    n, k = [(3, 3), (4, 3)][ctx.i]
    ctx.note(n=n, k=k)
    r = subprocess.run([sys.executable, '-m', 'coniii.enumerate_potts', str(n), str(k), os.path.join(d, 'p.py')], cwd=d,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=240)
    if not ctx.check(r.returncode == 0, 'potts_command_line:exit', r.stdout.decode()[-500:]):
        return
    mod = ctx.call(load, os.path.join(d, 'p.py'))
    obs = ref.potts_obs(ref.states(n, tuple(range(k))), k)
    compare(ctx, mod, obs, obs.shape[1], 'potts_command_line', ntheta=2)
    ctx.seen(n, k)


@monitor(4, 8, shards=4, cost=20)
def large_ising(ctx):
    """Systems with more than a thousand states."""
    n, sym = [(10, 1), (10, 0), (11, 1), (11, 0), (12, 1), (12, 0), (13, 1), (10, 1)][ctx.i]
    rng = ctx.rng
    pairs = np.triu_indices(n, 1)
    keep = np.sort(rng.choice(pairs[0].size, min(pairs[0].size, 6 if n > 10 else 20), replace=False))
    terms = [(np.arange(n),), (pairs[0][keep], pairs[1][keep])]
    S = ref.states(n, (-1, 1) if sym else (0, 1))
    obs = np.hstack([S] + [(S[:, a] * S[:, b])[:, None] for a, b in zip(*terms[1])]).astype(float)
    ctx.note(n=n, sym=sym)
    d = fresh(ctx)
    ctx.call(quiet, ce.write_eqns, n, sym, terms, _key='large_ising:generate')
    mod = ctx.call(load, produced(d)[0], _key='large_ising:import')
    compare(ctx, mod, obs, obs.shape[1], 'large_ising:' + ('sym' if sym else '01'), ntheta=2)
    ctx.seen(n, sym)
