"""C22: coarse-graining partitions the system; the lattice model is consistent."""
import numpy as np
from numba import njit
import coniii.utils as cu
import coniii.ising.automaton as au
import mcstat
from core import monitor, settings

NEED = ('plain',)
settings('Coarse-graining with similarity functions of every sign and shape, integer and real, with ties and with equal '
         'columns; every call of the supplied functions is recorded, so that the pairs joined can be held against the '
         'similarities of the data of that stage. The lattice model: single updates against the exact Metropolis rule '
         '(certain flips exactly, others by frequency), sweeps by parameters under which they are deterministic, and '
         'the distribution reached by whole simulations on lattices cut by frozen sites into hundreds of independent '
         'small systems, against exact enumeration; block spins against the majority of every block.',
         ['the coarse function accepts one column as well as two (odd numbers of columns)',
          'lattices have at least two sites in each direction'], scale=5)


def similarities(rng):
    kind = str(rng.choice(['corr', 'negative', 'zero', 'random', 'negative_random', 'integer', 'infinite', 'equal', 'overlap']))

    def f(X):
        n = X.shape[1]
        iu = np.triu_indices(n, 1)
        if kind == 'corr':
            with np.errstate(all='ignore'):
                return np.nan_to_num(np.atleast_2d(np.corrcoef(X.T))[iu])
        d = np.array([np.abs(X[:, i] - X[:, j]).sum() for i, j in zip(*iu)])
        if kind == 'negative':
            return -d.astype(float) - .5
        if kind == 'zero':
            return np.zeros(len(d))
        if kind == 'equal':
            return np.full(len(d), -3.)
        if kind == 'integer':
            return -d.astype(int) - 1
        if kind == 'overlap':
            return np.array([(X[:, i] * X[:, j]).mean() for i, j in zip(*iu)])
        r = np.random.default_rng([int(abs(X.sum())) % 1000, n]).normal(size=len(d))
        if kind == 'negative_random':
            return -np.abs(r)
        if kind == 'infinite':
            r[np.random.default_rng(n).random(len(r)) < .4] = -np.inf
            return r
        return r
    return kind, f


COARSE = {'sum': lambda x: x.sum(1), 'mean': lambda x: x.mean(1), 'max': lambda x: x.max(1), 'majority': lambda x: np.sign(x.sum(1) + .5).astype(int)}


@monitor(320, 6000, shards=4)
def coarse_graining(ctx):
    rng = ctx.rng
    n, N = int(rng.integers(2, 20)), int(rng.integers(3, 30))
    times = int(rng.integers(1, max(2, int(np.ceil(np.log2(n))))))
    if not np.log2(n) > times:
        n += 2**(times + 1)
    values = ['spins', 'spins', 'spins', 'small', 'large', 'real'][int(rng.integers(6))]
    if values == 'spins':
        X = rng.choice([-1, 1], (N, n))
        t = str(rng.choice(['int64', 'int64', 'float64', 'int8', 'int32', 'float32']))
    elif values == 'real':
        X = np.round(rng.normal(size=(N, n)) * 64) / 64  # sums of these are exact
        t = 'float64'
    else:
        h = 6 if values == 'small' else 10000
        X = rng.integers(-h, h, (N, n))
        t = str(rng.choice(['int64', 'float64', 'int32']))
    if ctx.i % 200 == 7:   # sums of many spins, beyond 8 bit
        n, N, times, t = int(rng.integers(257, 300)), 3, 8, 'int8'
        X = rng.choice([-1, 1], (N, n), p=[.02, .98])
    X = X.astype(t)
    if rng.random() < .3:
        X[:, rng.integers(n)] = X[:, 0]
    X0 = X.copy()
    kind, sim = similarities(rng)
    cname = str(rng.choice(list(COARSE)))
    ctx.note(n=n, N=N, times=times, similarity=kind, coarse=cname, X=X)
    seen_s, seen_c = [], []

    def sim_func(Y):
        v = sim(np.array(Y))
        seen_s.append((np.array(Y), np.array(v, dtype=float)))
        return v

    def coarse_func(Y):
        seen_c.append(np.array(Y))
        return COARSE[cname](Y)
    C, bins = ctx.call(cu.coarse_grain_with_func, X, times, sim_func, coarse_func)
    C = np.asarray(C)
    ctx.eq(X, X0, 'coarse:data_modified')
    m = n
    sizes = [n]
    for _ in range(times):
        m = (m + 1) // 2
        sizes.append(m)
    ctx.eq(C.shape, (N, m), 'coarse:shape')
    ctx.eq(len(bins), m, 'coarse:number_of_clusters')
    flat = sorted(int(i) for b in bins for i in b)
    if not ctx.eq(flat, list(range(n)), 'coarse:not_a_partition', bins=bins):
        return
    ctx.check(all(1 <= len(b) <= 2**times for b in bins), 'coarse:cluster_size', bins)
    # coarse variables are the combination of exactly the columns of the cluster
    if cname in ('sum', 'max') and C.shape == (N, m):
        want = np.array([COARSE[cname](X0[:, list(b)]) for b in bins]).T
        ctx.eq(C, want, 'coarse:variable_of_other_columns', bins=bins)
    # stage by stage: greedy pairing by the similarities reported
    if len(seen_s) == times:
        cur = X0.copy()
        cl = [[i] for i in range(n)]
        for k, (Y, v) in enumerate(seen_s):
            if not ctx.eq(Y, cur, 'coarse:similarity_of_other_data', stage=k):
                return
            w = cur.shape[1]
            S = np.full((w, w), np.nan)
            S[np.triu_indices(w, 1)] = v
            left = list(range(w))
            new = []
            tie = False
            while len(left) > 1:
                pr = [(S[a, b], a, b) for i, a in enumerate(left) for b in left[i + 1:]]
                mx = max(p[0] for p in pr)
                top = [p for p in pr if p[0] == mx]
                tie |= len(top) > 1
                _, a, b = top[0]
                new.append((a, b))
                left.remove(a)
                left.remove(b)
            if left:
                new.append((left[0],))
            if tie:
                # the choice among equals is free: follow the choice made, as far as the result shows it
                break
            cur = np.array([COARSE[cname](cur[:, list(a)]) for a in new]).T.reshape(N, -1)
            cl = [sum((cl[i] for i in a), []) for a in new]
        else:
            ctx.check(sorted(map(sorted, cl)) == sorted(sorted(int(i) for i in b) for b in bins), 'coarse:other_pairs_than_the_most_similar')
            ctx.eq(C, cur, 'coarse:order_of_the_clusters') if [sorted(a) for a in cl] == [sorted(int(i) for i in b) for b in bins] else None
            ctx.count('greedy_checked')
        if times == 1:
            # with ties: no pair left apart is more similar than a pair joined before it, and the most similar pair is joined
            v = seen_s[0][1]
            S = np.full((n, n), -np.inf)
            S[np.triu_indices(n, 1)] = v
            best = np.nanmax(v) if len(v) else None
            prs = [tuple(sorted(int(i) for i in b)) for b in bins if len(b) == 2]
            vals = [S[p] for p in prs]
            ctx.check(best in vals, 'coarse:most_similar_pair_not_joined', bins=bins)
            part = {}
            for p, x in zip(prs, vals):
                part[p[0]] = part[p[1]] = x
            for a in range(n):
                for b in range(a + 1, n):
                    if S[a, b] > max(part.get(a, -np.inf), part.get(b, -np.inf)):
                        ctx.fail('coarse:pair_left_apart_although_most_similar', (a, b), bins=bins)
                        return
    ctx.raises(cu.coarse_grain_with_func, 'coarse:too_many_times_accepted', X, int(np.ceil(np.log2(n))), sim, COARSE['sum'])
    ctx.seen(X, kind, times)


@njit
def seed_compiled(s):
    np.random.seed(s)


def energy_change(L, i, j, J, h):
    a, b = L.shape
    s = int(L[i, j])
    nb = int(L[(i - 1) % a, j]) + int(L[(i + 1) % a, j]) + int(L[i, (j - 1) % b]) + int(L[i, (j + 1) % b])
    return 2 * s * (J * nb + h)


@monitor(16, 200, shards=4, cost=3)
def single_flips(ctx):
    """E = -J sum over bonds of s s' - sum h s, each site updated by the Metropolis rule."""
    rng = ctx.rng
    dim = (int(rng.integers(2, 6)), int(rng.integers(2, 6)))
    J = float(rng.choice([0., .2, .5, 1., -.4])) if rng.random() < .8 else float(rng.normal())
    H = rng.normal(size=dim) * float(rng.choice([0., .5, 2.]))
    flip = au.Ising2D.flip_metropolis
    seed_compiled(int(rng.integers(2**31)))
    ctx.note(dim=dim, J=J, h=H)
    hits = want = var = 0.
    byd = {}
    for rep in range(4000 if not ctx.thorough else 20000):
        L = rng.choice(np.array([-1, 1], dtype=np.int8), dim)
        i, j = int(rng.integers(dim[0])), int(rng.integers(dim[1]))
        L0 = L.copy()
        r = flip(i, j, float(H[i, j]), J, L)
        dE = energy_change(L0, i, j, J, H[i, j])
        if rep < 300:
            ctx.eq(np.asarray(r), L, 'flip:returned_lattice')
        d = L != L0
        done = bool(d[i, j])
        if d.sum() != done or not np.isin(L, (-1, 1)).all():
            ctx.fail('flip:another_site_changed', site=(i, j), before=L0, after=L)
            return
        ctx.nchecks += 1
        if dE <= -1e-9:
            if not done:
                ctx.fail('flip:favourable_flip_refused', 'dE=%g' % dE, site=(i, j), before=L0, h=H[i, j], J=J)
                return
        elif dE > 1e-9:
            p = np.exp(-dE)
            hits, want, var = hits + done, want + p, var + p * (1 - p)
            k = round(dE, 6) if not H.any() else int(dE * 2)
            a = byd.setdefault(k, [0., 0., 0., 0])
            a[0] += done
            a[1] += p
            a[2] += p * (1 - p)
            a[3] += 1
    for k, a in [('all', [hits, want, var, 0])] + sorted(byd.items()):
        pv = float(mcstat.bernstein_p(a[0] - a[1], a[2]))
        ctx.check(pv > mcstat.ALPHA, 'flip:acceptance_probability', 'energy change class %s: %d accepted, expected %.1f, bound %g' % (k, a[0], a[1], pv))
    ctx.count('flips_of_positive_energy', sum(a[3] for a in byd.values()))
    ctx.seen(dim, J, H)


@monitor(16, 150, shards=8, cost=6)
def sweeps(ctx):
    rng = ctx.rng
    dim = (int(rng.integers(2, 12)), int(rng.integers(2, 12)))
    size = dim[0] * dim[1]
    seed = int(rng.integers(2**31))
    h = rng.normal(size=dim)
    hs = [('array', h, h), ('float', float(h[0, 0]), np.full(dim, h[0, 0])), ('int', 2, np.full(dim, 2.)),
          ('zero', 0, np.zeros(dim)), ('list', h.tolist(), h), ('numpy_float', np.float64(.3), np.full(dim, .3)),
          ('none', None, np.zeros(dim))]
    for name, a, w in hs:
        m = ctx.call(au.Ising2D, dim, .5, h=a, rng=np.random.RandomState(seed), _key='Ising2D:' + name)
        ctx.close(np.asarray(m.h), w, 'sweeps:field:' + name, atol=0)
        ctx.check(m.lattice.shape == dim and np.isin(m.lattice, (-1, 1)).all(), 'sweeps:initial_lattice')
    m = ctx.call(au.Ising2D, dim, .5, _key='Ising2D')
    ctx.close(np.asarray(m.h), np.zeros(dim), 'sweeps:field:none')
    # nothing changes the energy: every update flips, so that a sweep over all sites inverts the lattice
    m = ctx.call(au.Ising2D, dim, 0., rng=np.random.RandomState(seed), _key='Ising2D')
    L0 = m.lattice.copy()
    k = int(rng.integers(1, 4))
    ctx.call(m.iterate, size * k)
    ctx.eq(m.lattice, L0 * (-1)**k, 'sweeps:every_site_once', sweeps=k)
    ctx.note(dim=dim, sweeps=k)
    # strong fields decide every site in one sweep
    H = rng.choice([-60., 60.], dim)
    m = ctx.call(au.Ising2D, dim, .5, h=H, rng=np.random.RandomState(seed), _key='Ising2D')
    m.iterate(size)
    ctx.eq(m.lattice, np.sign(H), 'sweeps:strong_field')
    m = ctx.call(au.Ising2D, dim, .5, h=H, rng=np.random.RandomState(seed), _key='Ising2D')
    m.iterate(size * 3, systematic=False)
    # sites drawn at random: those never drawn keep their state
    L1 = au.Ising2D(dim, .5, h=H, rng=np.random.RandomState(seed)).lattice
    bad = (m.lattice != np.sign(H)) & (m.lattice != L1)
    ctx.check(not bad.any(), 'sweeps:random_sites')
    ctx.eq(m.lattice.shape, dim, 'sweeps:shape')
    # equal seeds, equal simulations
    out = []
    for s in (seed, seed, seed + 1):
        np.random.seed(int(rng.integers(2**31)))
        m = ctx.call(au.Ising2D, dim, .3, h=.1, rng=np.random.RandomState(s), _key='Ising2D')
        a = m.lattice.copy()
        ctx.call(m.iterate, size * 3, systematic=bool(ctx.i % 2))
        out.append((a, m.lattice.copy()))
    ctx.eq(out[0][0], out[1][0], 'sweeps:initial_lattice_not_reproducible')
    ctx.eq(out[0][1], out[1][1], 'sweeps:not_reproducible')
    if size > 40:
        ctx.check((out[0][0] != out[2][0]).any(), 'sweeps:seed_ignored')
    ctx.seen(dim, seed)


@monitor(24, 300, shards=8, cost=8)
def equilibrium(ctx):
    """Whole simulations on a lattice cut by frozen sites into independent blocks of free sites."""
    rng = ctx.rng
    a, b = [(2, 2), (1, 3), (3, 1), (2, 1), (1, 2), (3, 2), (2, 3)][int(rng.integers(7))]
    m1, m2 = int(rng.integers(12, 25)), int(rng.integers(12, 25))
    dim = (m1 * (a + 1), m2 * (b + 1))
    J = float(rng.choice([.2, .5, .8, -.5]))
    hb = rng.normal(size=(a, b)) * .5
    frozen = float(rng.choice([-1, 1]))
    cell = np.full((a + 1, b + 1), 60. * frozen)
    cell[:a, :b] = hb
    H = np.tile(cell, (m1, m2))
    syst = bool(rng.random() < .6)
    m = ctx.call(au.Ising2D, dim, J, h=H, rng=np.random.RandomState(int(rng.integers(2**31))), _key='Ising2D')
    sweeps = 60
    ctx.note(block=(a, b), copies=(m1, m2), J=J, h=hb, frozen=frozen, systematic=syst)
    if syst:
        ctx.call(m.iterate, dim[0] * dim[1] * sweeps)
    else:
        ctx.call(m.iterate, dim[0] * dim[1] * 8, systematic=False)
    L = np.asarray(m.lattice)
    Z = L.reshape(m1, a + 1, m2, b + 1).transpose(0, 2, 1, 3).reshape(-1, a + 1, b + 1)
    edge = np.concatenate([Z[:, a, :].ravel(), Z[:, :, b].ravel()])
    ctx.check((edge == frozen).all(), 'equilibrium:strong_field_not_followed')
    B = Z[:, :a, :b].reshape(len(Z), -1)
    # exact distribution of one block within its frozen surroundings
    k = a * b
    S = ((np.arange(2**k)[:, None] >> np.arange(k)[::-1]) & 1) * 2 - 1
    E = []
    for s in S:
        P = np.full((a + 2, b + 2), frozen)
        P[1:-1, 1:-1] = s.reshape(a, b)
        e = -(s.reshape(a, b) * hb).sum() - J * ((P[:-1, 1:-1] * P[1:, 1:-1]).sum() + (P[1:-1, :-1] * P[1:-1, 1:]).sum())
        E.append(e)
    p = np.exp(-(np.array(E) - min(E)))
    p /= p.sum()
    ix = ((B > 0) * (1 << np.arange(k)[::-1])).sum(1)
    c = np.bincount(ix, minlength=2**k)
    n = len(B)
    v, w = mcstat.worst(c - n * p, n * p * (1 - p) + .01 * n * .01)
    ctx.check(v > mcstat.ALPHA, 'equilibrium:distribution', 'block state %s: %d of %d, expected %.1f, bound %g' % (S[w], c[w], n, n * p[w], v))
    mean = p.dot(S)
    va = p.dot((S - mean)**2)
    v, w = mcstat.worst((B.mean(0) - mean) * n / 2, n * va / 4 + .01 * n * .01)
    ctx.check(v > mcstat.ALPHA, 'equilibrium:means', 'site %d: %g, expected %g' % (w, B.mean(0)[w], mean[w]))
    cor = p.dot(S[:, :1] * S)
    v, w = mcstat.worst(((B[:, :1] * B).mean(0) - cor) * n / 2, n * p.dot((S[:, :1] * S - cor)**2) / 4 + .01 * n * .01)
    ctx.check(v > mcstat.ALPHA, 'equilibrium:correlations')
    ctx.count('blocks', n)
    ctx.seen(H, J)


@monitor(60, 1000, shards=2)
def block_spins(ctx):
    rng = ctx.rng
    f = int(rng.integers(1, 6))
    a, b = int(rng.integers(1, 8)), int(rng.integers(1, 8))
    exact = rng.random() < .7
    dim = (a * f + (0 if exact else int(rng.integers(0, f))), b * f + (0 if exact else int(rng.integers(0, f))))
    L = rng.choice([-1, 1], dim, p=[.5, .5]).astype(rng.choice(['i1', 'i2', 'i8'])) if rng.random() < .8 else np.full(dim, rng.choice([-1, 1]), dtype=np.int8)
    if ctx.i % 4 == 1:    # large blocks with a narrow majority
        f = int(rng.integers(2, 41))
        dim = (f * int(rng.integers(1, 4)), f * int(rng.integers(1, 4)))
        L = rng.permuted(np.resize([-1, 1], (dim[0] // f, dim[1] // f, f * f)), axis=-1)
        L[:, :, :int(rng.integers(1, 4))] = rng.choice([-1, 1])
        L = L.reshape(dim[0] // f, dim[1] // f, f, f).swapaxes(1, 2).reshape(dim).astype(rng.choice(['i1', 'i2', 'i8']))
    if ctx.i % 12 == 0:   # sums of blocks beyond 16 bit
        f = int(rng.integers(182, 260))
        dim = (f * int(rng.integers(1, 3)), f)
        L = rng.choice([-1, 1], dim, p=[.02, .98] if rng.random() < .5 else [1, 0]).astype(rng.choice(['i1', 'i2', 'i4', 'i8']))
    L0 = L.copy()
    ctx.note(dim=dim, factor=f, L=L)
    R = np.asarray(ctx.call(au.coarse_grain, L, f))
    ctx.eq(L, L0, 'blocks:lattice_modified')
    if not ctx.eq(R.shape, (dim[0] // f, dim[1] // f), 'blocks:shape'):
        return
    ctx.check(np.isin(R, (-1, 1)).all(), 'blocks:alphabet', got=R)
    w = L0[:dim[0] // f * f, :dim[1] // f * f].astype(int).reshape(dim[0] // f, f, dim[1] // f, f).sum((1, 3))
    ctx.eq(R[w != 0], np.sign(w[w != 0]), 'blocks:majority')
    ctx.count('ties', (w == 0).sum())
    ctx.seen(L, f)


@monitor(2, 10, shards=1)
def block_ties(ctx):
    """Ties are decided at random, both ways equally often."""
    L = np.tile(np.array([[1, -1], [-1, 1]], dtype=np.int8), (40, 60))
    k = int((np.asarray(ctx.call(au.coarse_grain, L, 2)) == 1).sum())
    pv = float(mcstat.bernstein_p(k - 1200, 600))
    ctx.check(pv > mcstat.ALPHA, 'blocks:ties', '%d of 2400, bound %g' % (k, pv))
    ctx.seen(ctx.i, k)
