"""C08: every sampler update obeys detailed balance and keeps its energy book."""
import numpy as np
from itertools import combinations, product
import coniii.samplers as cs
import coniii.utils as cu
import mcstat as st
import ref
from core import monitor, settings

NEED = ('plain',)
settings('Chains of every sampler on random Ising, triplet and Potts models of 1 to 12 spins, with an online monitor on '
         'the interpreted update (state before/after, energies, returned change) and an offline monitor on recorded '
         'single-step samples of the compiled chain, compared with the exact Metropolis kernel. Statistical verdicts '
         'use Freedman bounds with failure probability below 1e-11 each.',
         ['the random generators of numpy and libstdc++ are good enough for the bounds used'], scale=3)

ISING_E = cu.define_ising_helper_functions()[0]
TRIPLET_E = cu.define_triplet_helper_functions()[0]
POTTS_E = cu.define_potts_helper_functions(3)[0]


def model(ctx, kinds=('ising', 'ising', 'triplet', 'potts'), nmax=None):
    rng = ctx.rng
    kind = kinds[ctx.i % len(kinds)]
    if kind == 'ising':
        n = int(rng.integers(1, (nmax or 9) + 1))
        theta = ref.theta_scales(rng, n + n * (n - 1) // 2)
        obs, calc_e, vals = (lambda X: ref.ising_obs(X, 2)), ISING_E, (-1, 1)
    elif kind == 'triplet':
        n = int(rng.integers(3, (nmax or 6) + 1))
        theta = ref.theta_scales(rng, n + n * (n - 1) // 2 + n * (n - 1) * (n - 2) // 6)
        obs, calc_e, vals = (lambda X: ref.ising_obs(X, 3)), TRIPLET_E, (-1, 1)
    else:
        n = int(rng.integers(1, (nmax or 5) + 1))
        theta = ref.theta_scales(rng, 3 * n + n * (n - 1) // 2)
        obs, calc_e, vals = (lambda X: ref.potts_obs(X, 3)), POTTS_E, (0, 1, 2)
    ctx.note(model=kind, n=n, theta=theta)
    return kind, n, theta, obs, calc_e, vals


def sampler(kind, n, theta, calc_e, seed, boost=False):
    cls = cs.Potts3 if kind == 'potts' else cs.Metropolis
    kw = {} if kind == 'potts' else {'iprint': False}
    return cls(n, theta, calc_e, rng=np.random.RandomState(seed), boost=boost, **kw)


class Book:
    """Online monitor of sample_metropolis: attached to one sampler object."""

    def __init__(self, ctx, smp, theta, obs, vals, key):
        self.ctx, self.theta, self.obs, self.vals, self.key = ctx, theta, obs, vals, key
        self.orig = smp.sample_metropolis
        self.S = {}
        self.V = {}
        self.sites, self.steps, self.accepted, self.down, self.tracked = [], 0, 0, 0, []
        smp.sample_metropolis = self

    def e(self, x):
        return -float(self.obs(np.asarray(x)[None])[0].dot(self.theta))

    def __call__(self, s, E, *a, **k):
        c, key = self.ctx, self.key
        before = np.array(s, copy=True)
        e0 = self.e(before)
        tol = 1e-8 * (1 + np.abs(self.theta).sum())
        got0 = float(np.asarray(E).ravel()[0])
        if abs(got0 - e0) > tol:
            c.check(False, key + ':tracked_energy', 'step %d: tracked %r, energy %r' % (self.steps, got0, e0))
        de = self.orig(s, E, *a, **k)
        after = np.array(s, copy=True)
        d = float(np.asarray(de).ravel()[0])
        e1 = self.e(after)
        ch = np.flatnonzero(before != after)
        c.nchecks += 1
        if len(ch) > 1:
            c.fail(key + ':one_spin', 'changed %s' % ch)
        if not np.isin(after, self.vals).all():
            c.fail(key + ':alphabet', '%s' % after)
        if abs(d - (e1 - e0)) > tol:
            c.fail(key + ':returned_change', 'returned %r, energy changed by %r' % (d, e1 - e0))
        site = k.get('flip_site')
        if site is not None:
            if len(ch) and ch[0] != site:
                c.fail(key + ':wrong_spin', 'asked for %d, changed %d' % (site, ch[0]))
            # acceptance against the exact probability, per energy change
            alts = [v for v in self.vals if v != before[site]]
            for v in alts:
                x = before.copy()
                x[site] = v
                g = self.e(x) - e0
                p = min(1., np.exp(-max(g, 0.))) / len(alts)
                h = 1. if (len(ch) and after[site] == v) else 0.
                b = min(int(max(g, 0.) * 4), 40) if g > 1e-9 else -1
                self.S[b] = self.S.get(b, 0.) + h - p
                self.V[b] = self.V.get(b, 0.) + p * (1 - p)
                if b == -1 and len(alts) == 1 and not h:
                    c.fail(key + ':refused_downhill', 'refused an energy change of %r' % g)
        else:
            # the spin is drawn uniformly: probability that the state changes into each neighbour
            n = len(before)
            for i in range(n):
                alts = [v for v in self.vals if v != before[i]]
                for v in alts:
                    x = before.copy()
                    x[i] = v
                    g = self.e(x) - e0
                    p = min(1., np.exp(-max(g, 0.))) / len(alts) / n
                    h = 1. if (len(ch) and ch[0] == i and after[i] == v) else 0.
                    for b in (('site', i), min(int(max(g, 0.) * 4), 40) if g > 1e-9 else -1):
                        self.S[b] = self.S.get(b, 0.) + h - p
                        self.V[b] = self.V.get(b, 0.) + p * (1 - p)
        self.steps += 1
        self.accepted += bool(len(ch))
        self.sites.append(site)
        self.tracked.append(e1)
        return de

    def close(self):
        c = self.ctx
        c.count('steps', self.steps)
        c.count('moves', self.accepted)
        for b in self.S:
            p, _ = st.worst(self.S[b], self.V[b])
            c.check(p > st.ALPHA, self.key + ':acceptance',
                    'bin %s: %.1f more than expected, variance %.1f' % (b, self.S[b], self.V[b]))


@monitor(24, 400, shards=6, cost=3)
def sequential_chain(ctx):
    """Interpreted sequential sampler, every update monitored."""
    rng = ctx.rng
    kind, n, theta, obs, calc_e, vals = model(ctx)
    smp = sampler(kind, n, theta, calc_e, int(rng.integers(2**31)))
    book = Book(ctx, smp, theta, obs, vals, 'sequential_chain')
    S = int(rng.integers(2, 20))
    it = int(rng.integers(1, 4 * n + 2)) * (ctx.i % 5 != 3)  # every state recorded several times if zero
    it, S = (it, max(S, 600 // max(it, 1))) if not ctx.thorough else (it, max(S, 6000 // max(it, 1)))
    burn = int(rng.integers(0, 3 * n))
    syst, hist = bool(ctx.i // 4 % 2), bool(rng.integers(2))
    kw = {}
    if rng.random() < .5:
        kw['initial_sample'] = rng.choice(vals, size=(1, n))
    ctx.note(S=S, n_iters=it, burn_in=burn, systematic=syst, history=hist)
    h = ctx.call(smp.generate_sample, S, n_iters=it, burn_in=burn, systematic_iter=syst, saveHistory=hist, **kw)
    book.close()
    ctx.eq(book.steps, burn + S * it, 'sequential_chain:number_of_updates')
    E = -obs(smp.sample).dot(theta)
    ctx.close(np.ravel(smp.E), E, 'sequential_chain:reported_energy', rtol=1e-8, atol=1e-8 * (1 + np.abs(theta).sum()))
    if it and book.steps == burn + S * it:
        ctx.close(E, np.array(book.tracked[burn:]).reshape(S, it)[:, -1], 'sequential_chain:recorded_state',
                  atol=1e-7)
        if hist:
            ctx.close(np.ravel(h), book.tracked[burn:], 'sequential_chain:history', atol=1e-8 * (1 + np.abs(theta).sum()))
    if syst:
        s = book.sites
        ok = all(sorted(s[k:k + n]) == list(range(n)) for k in list(range(0, burn - n + 1)) +
                 list(range(burn, len(s) - n + 1)))
        ctx.check(ok, 'sequential_chain:systematic_order', 'spins updated: %s' % s[:60])
    ctx.seen(theta, book.tracked)


@monitor(16, 200, shards=4, cost=2)
def conditional_chain(ctx):
    """Interpreted conditional sampler: the monitored energy is that of the completed state."""
    rng = ctx.rng
    kind, n, theta, obs, calc_e, vals = model(ctx, ('ising', 'triplet'))
    if n < 2:
        return
    m = int(rng.integers(1, n))
    fix = sorted(rng.choice(n, m, replace=False).tolist())
    fv = rng.choice([-1, 1], m).tolist()
    free = [i for i in range(n) if i not in fix]
    smp = sampler(kind, n, theta, calc_e, int(rng.integers(2**31)))

    def full(X):
        F = np.zeros((len(X), n), int)
        F[:, fix] = fv
        F[:, free] = X
        return obs(F)
    book = Book(ctx, smp, theta, full, vals, 'conditional_chain')
    S, it, burn, syst = 10, int(rng.integers(1, 60)) * (rng.random() < .9), int(rng.integers(0, 20)), bool(rng.integers(2))
    ctx.note(fixed=list(zip(fix, fv)), n_iters=it, burn_in=burn, systematic=syst)
    ctx.call(smp.generate_cond_sample, S, list(zip(fix, fv)), n_iters=it, burn_in=burn, systematic_iter=syst)
    book.close()
    ctx.close(np.ravel(smp.E), -obs(smp.sample).dot(theta), 'conditional_chain:reported_energy',
              atol=1e-8 * (1 + np.abs(theta).sum()))
    if syst:
        s, q = book.sites, len(free)
        ctx.check(all(sorted(s[k:k + q]) == list(range(q)) for k in range(burn, len(s) - q + 1)),
                  'conditional_chain:systematic_order', 'spins updated: %s' % s[:60])
    ctx.seen(theta, book.tracked)


@monitor(6, 60, shards=3, cost=3)
def parallel_energies(ctx):
    """Interpreted parallel sampler: the energies it keeps are those of the states it keeps."""
    rng = ctx.rng
    kind, n, theta, obs, calc_e, vals = model(ctx, ('ising', 'potts', 'triplet'))
    smp = sampler(kind, n, theta, calc_e, int(rng.integers(2**31)))
    for k in range(2):
        ctx.call(smp.generate_sample_parallel, int(rng.integers(1, 40)), n_iters=int(rng.integers(0, 9)),
                 burn_in=int(rng.integers(0, 9)), systematic_iter=bool(rng.integers(2)))
        ctx.close([float(np.ravel(e)[0]) for e in smp.E], -obs(smp._samples).dot(theta), 'parallel_energies:energy', atol=1e-8 * (1 + np.abs(theta).sum()))
        ctx.check(np.isin(smp.sample, vals).all(), 'parallel_energies:alphabet')
    ctx.seen(theta, smp.sample)


@monitor(24, 600, shards=6, cost=4)
def single_update(ctx):
    """Many independent single updates of the interpreted samplers against the exact kernel row."""
    rng = ctx.rng
    kind, n, theta, obs, calc_e, vals = model(ctx, nmax=4)
    smp = sampler(kind, n, theta, calc_e, int(rng.integers(2**31)))
    X = ref.states(n, vals)
    E = -obs(X).dot(theta)
    x = X[int(rng.integers(len(X)))]
    site = None if ctx.i // 4 % 2 else int(rng.integers(n))
    K = st.ising_kernel(E, n, site, len(vals))
    a = int(ref.state_ix(x[None], vals)[0])
    other = np.random.RandomState(int(rng.integers(2**31)))
    N = 1500
    kw = {} if rng.random() < .5 else {'rng': other}
    if rng.random() < .5:
        kw['calc_e'] = calc_e
        smp.calc_e = None
    if site is not None:
        kw['flip_site'] = site
    ctx.note(state=x, site=site, given=sorted(kw))
    out = np.zeros(N, int)
    tol = 1e-8 * (1 + np.abs(theta).sum())
    for t in range(N):
        y = x.copy()
        e0 = np.array([E[a]]) if t % 2 else float(E[a])
        d = ctx.call(smp.sample_metropolis, y, e0, **kw)
        out[t] = ref.state_ix(y[None], vals)[0]
        ctx.nchecks += 1
        if abs(float(np.ravel(d)[0]) - (E[out[t]] - E[a])) > tol:
            ctx.check(False, 'single_update:returned_change', '%r for %r' % (d, E[out[t]] - E[a]))
            return
    p, k = st.histogram(np.bincount(out, minlength=len(X)), K[a])
    ctx.check(p > st.ALPHA, 'single_update:kernel', 'state %s -> %s: %d of %d, expected %.4f (p=%.1e)' %
              (x, X[k], (out == k).sum(), N, K[a, k] * N, p))
    ctx.count('updates', N)
    ctx.seen(theta, x, site)


@monitor(40, 1500, shards=8, cost=2)
def compiled_kernel(ctx):
    """Compiled chain recorded at every step: transition frequencies against the exact kernel."""
    rng = ctx.rng
    kind, n, theta, obs, calc_e, vals = model(ctx, ('ising', 'ising', 'potts'), nmax=3 if ctx.i % 2 else 4)
    smp = sampler(kind, n, theta, None, int(rng.integers(2**31)), boost=True)
    X = ref.states(n, vals)
    E = -obs(X).dot(theta)
    N = 60000 if not ctx.thorough else 300000
    syst = bool(ctx.i // 3 % 2)
    burn = int(rng.integers(0, 7))
    ctx.note(systematic=syst, burn_in=burn, N=N)
    ctx.call(smp.generate_sample, N, n_iters=1, burn_in=burn, systematic_iter=syst)
    ix = ctx.call(ref.state_ix, smp.sample, vals, _key='compiled_kernel:alphabet')
    ctx.count('updates', N)
    if not syst:
        p, i, j, c, e, C = st.transitions(ix, st.ising_kernel(E, n, None, len(vals)))
        ctx.check(p > st.ALPHA, 'compiled_kernel:random', '%s -> %s: %d, expected %.1f (p=%.1e)' % (X[i], X[j], c, e, p))
    else:
        best = None
        # row t is the state after update burn+t+1; the spin updated from row t to t+1 cycles
        for phase in range(n):
            pmin = 1.
            msg = ''
            for r in range(n):
                a, b = ix[r:-1:n], ix[r + 1::n]
                a, b = a[:min(len(a), len(b))], b[:min(len(a), len(b))]
                K = st.ising_kernel(E, n, (phase + r) % n, len(vals))
                C = np.zeros((len(X), len(X)))
                np.add.at(C, (a, b), 1)
                cnt = C.sum(1, keepdims=True)
                p, k = st.worst(C - cnt * K, cnt * K * (1 - K))
                if p < pmin:
                    pmin, (i, j) = p, divmod(k, len(X))
                    msg = 'spin %d, %s -> %s: %d, expected %.1f (p=%.1e)' % ((phase + r) % n, X[i], X[j], C[i, j],
                                                                           cnt[i, 0] * K[i, j], p)
            if best is None or pmin > best[0]:
                best = (pmin, msg)
        ctx.check(best[0] > st.ALPHA, 'compiled_kernel:systematic', best[1])
    ctx.seen(theta, ix[:200])


@monitor(24, 500, shards=6, cost=2)
def compiled_large(ctx):
    """Larger compiled systems: at most one spin changes per step, with the exact probability."""
    rng = ctx.rng
    potts = bool(ctx.i % 3 == 2)
    n = int(rng.integers(5, 40 if not potts else 20))
    if potts:
        theta = rng.normal(size=3 * n + n * (n - 1) // 2) * rng.choice([.1, .3, 1.])
        smp, vals = sampler('potts', n, theta, None, int(rng.integers(2**31)), boost=True), (0, 1, 2)
    else:
        theta = rng.normal(size=n + n * (n - 1) // 2) * rng.choice([.05, .2, 1.])
        smp, vals = sampler('ising', n, theta, None, int(rng.integers(2**31)), boost=True), (-1, 1)
    J = np.zeros((n, n))
    J[np.triu_indices(n, 1)] = theta[-(n * (n - 1) // 2):]
    J += J.T
    N = 4000
    ctx.note(n=n, potts=potts)
    ctx.call(smp.generate_sample, N, n_iters=1, burn_in=int(rng.integers(0, 500)))
    X = smp.sample
    A, B = X[:-1], X[1:]
    ch = A != B
    ctx.check((ch.sum(1) <= 1).all(), 'compiled_large:one_spin')
    ctx.check(np.isin(X, vals).all(), 'compiled_large:alphabet')
    if potts:
        h = theta[:3 * n].reshape(3, n)
        L = np.stack([h[v] + (A == v).astype(float).dot(J) for v in range(3)])     # -energy of spin in state v
        cur = np.take_along_axis(L, A[None], 0)[0]
        P = np.stack([np.where(A == v, 0., np.minimum(1., np.exp(np.minimum(0, L[v] - cur))) / 2 / n) for v in range(3)])
        H = np.stack([ch & (B == v) for v in range(3)]).astype(float)
    else:
        dE = 2 * A * (theta[:n] + A.dot(J))
        P = (np.minimum(1., np.exp(-np.maximum(dE, 0))) / n)[None]
        H = ch[None].astype(float)
    for ax, name in ((1, 'site'),):
        S, V = (H - P).sum((0, 1)), (P * (1 - P)).sum((0, 1))
        p, k = st.worst(S, V)
        ctx.check(p > st.ALPHA, 'compiled_large:acceptance', 'spin %d: %.1f off, variance %.1f' % (k, S[k], V[k]))
    bins = np.floor(-np.log(np.maximum(P * n * (2 if potts else 1), 1e-12)) * 2)
    for b in np.unique(bins):
        q = bins == b
        p, _ = st.worst((H - P)[q].sum(), (P * (1 - P))[q].sum())
        ctx.check(p > st.ALPHA, 'compiled_large:acceptance_by_energy', 'energy change about %.1f: %.1f accepted, expected %.1f'
                  % (b / 2, H[q].sum(), P[q].sum()))
    ctx.count('updates', N)
    ctx.seen(theta, X[:50])


@monitor(20, 400, shards=4)
def jit_update(ctx):
    """The matrix form of the update."""
    rng = ctx.rng
    n = int(rng.integers(2, 7))
    h, J = rng.normal(size=n), rng.normal(size=(n, n))
    J = np.triu(J, 1)
    J = J + J.T
    x = rng.choice([-1, 1], n)
    i = int(rng.integers(n))
    theta = np.concatenate([h, J[np.triu_indices(n, 1)]])
    y = x.copy()
    y[i] *= -1
    de = float((ref.ising_obs(x[None]) - ref.ising_obs(y[None]))[0].dot(theta))
    r = np.random.RandomState(int(rng.integers(2**31)))
    acc = 0
    N = 400
    for _ in range(N):
        z = x.copy()
        d = ctx.call(cs._jit_sample_metropolis, z, h, J, i, r)
        moved = not (z == x).all()
        ctx.nchecks += 1
        if not ((z == y).all() or (z == x).all()) or abs(d - (de if moved else 0.)) > 1e-9:
            ctx.check(False, 'jit_update:change', '%r for %r, %s -> %s' % (d, de, x, z))
            return
        acc += moved
    p = min(1., np.exp(-de))
    ctx.check(st.worst(acc - N * p, N * p * (1 - p))[0] > st.ALPHA, 'jit_update:acceptance', '%d of %d, expected %.1f' % (acc, N, N * p))
    ctx.seen(h, J, x)


@monitor(16, 300, shards=4, cost=4)
def cluster_update(ctx):
    """Wolff update: transition frequencies from a state against exact enumeration of the bonds."""
    rng = ctx.rng
    n = int(rng.integers(2, 5))
    h = rng.normal(size=n) * rng.choice([0, .3, 1.])
    Jv = rng.normal(size=n * (n - 1) // 2) * rng.choice([.3, 1.])
    if rng.random() < .4:
        Jv = np.abs(Jv)
    J = np.zeros((n, n))
    J[np.triu_indices(n, 1)] = Jv
    J += J.T
    smp = ctx.call(cs.WolffIsing, J.copy() if ctx.i % 2 else Jv.copy(), h.copy())
    if ctx.i % 4 > 1:
        smp.update_parameters(Jv.copy() if ctx.i % 2 else J.copy(), h.copy())
    smp.rng = np.random.RandomState(int(rng.integers(2**31)))
    x = rng.choice([-1., 1.], n)
    site = None if rng.random() < .4 else int(rng.integers(n))
    want = np.zeros(2 ** n)
    for i in (range(n) if site is None else [site]):
        for y, p in st.wolff_row(x, h, J, i).items():
            want[ref.state_ix(np.array([y]), (-1, 1))[0]] += p / (n if site is None else 1)
    N = 1200
    ctx.note(h=h, J=Jv, state=x, site=site)
    out = np.zeros(N, int)
    for t in range(N):
        y = x.copy()
        ctx.call(smp.one_step, y, *(() if site is None else (site,)))
        out[t] = ref.state_ix(y[None], (-1, 1))[0]
    p, k = st.histogram(np.bincount(out, minlength=2 ** n), want)
    ctx.check(p > st.ALPHA, 'cluster_update:kernel', '%s -> %s: %d of %d, expected %.2f (p=%.1e)' %
              (x, ref.states(n, (-1, 1))[k], (out == k).sum(), N, want[k] * N, p))
    ctx.count('updates', N)
    ctx.seen(h, Jv, x, site)


@monitor(30, 300)
def cluster_pieces(ctx):
    """Bond and cluster helpers of the cluster algorithms."""
    rng = ctx.rng
    n = int(rng.integers(2, 9))
    A = np.triu(rng.random((n, n)) < rng.random() * .6, 1)
    A = (A | A.T)
    cl = ctx.call(cs.iter_cluster, A.astype(float))
    flat = sorted(i for c in cl for i in c)
    ctx.eq(flat, list(range(n)), 'cluster_pieces:partition')
    R = np.linalg.matrix_power(A.astype(int) + np.eye(n, dtype=int), n) > 0
    for c in cl:
        ctx.eq(sorted(c), np.flatnonzero(R[c[0]]), 'cluster_pieces:connected_component')
    x = rng.choice([-1, 1], n)
    J = rng.normal(size=n * (n - 1) // 2)
    J[rng.random(J.size) < .2] = 0
    pp = ctx.call(cs.pairwise_prod, x)
    ctx.eq(pp, [x[i] * x[j] for i, j in ref.pairs(n)], 'cluster_pieces:pairwise_prod')
    p, r = rng.random(J.size), rng.random(J.size)
    b = ctx.call(cs.sample_bonds, p, r, x, J)
    ctx.eq(b, (J * np.asarray(pp) > 0) & (r < p), 'cluster_pieces:bonds')
    ctx.seen(A, x, J)
