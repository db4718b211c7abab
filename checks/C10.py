"""C10: conditional sampling fixes the given spins and samples the rest correctly."""
import numpy as np
from numba import njit
import coniii.samplers as cs
import coniii.utils as cu
import mcstat as st
import ref
from core import monitor, settings, Skip

NEED = ('plain',)
settings('Conditional samples of compiled and interpreted samplers for random models and fixed sets from one spin to all '
         'of them (first, last, contiguous, scattered); every row is checked for the fixed values, the free spins '
         'against the exact conditional distribution (spacing from the exact mixing time of the conditional chain, '
         'Bernstein bounds below 1e-11), single-step samples against the exact conditional Metropolis kernel, and '
         'ill-formed sets must be refused.',
         ['the random generators of numpy and libstdc++ are good enough for the bounds used'], scale=3)

CALC = {2: cu.define_ising_helper_functions()[0], 3: cu.define_triplet_helper_functions()[0]}


class Cond:
    def __init__(self, ctx, order, nlo, nhi, cap, syst, tol=1e-6, mmin=1, mmax=None):
        rng = ctx.rng
        for _ in range(40):
            n = int(rng.integers(nlo, nhi + 1))
            size = n + n * (n - 1) // 2 + (n * (n - 1) * (n - 2) // 6 if order == 3 else 0)
            theta = rng.normal(size=size) * rng.choice([.3, .7, 1.2])
            m = int(rng.integers(min(mmin, n), (n if mmax is None else min(mmax, n)) + 1))
            c = rng.integers(4)
            fix = sorted(rng.choice(n, m, replace=False).tolist()) if c > 1 else \
                list(range(m)) if c else list(range(n - m, n))
            val = rng.choice([-1, 1], m).tolist()
            free = [i for i in range(n) if i not in fix]
            q = len(free)
            Y = ref.states(q, (-1, 1)) if q else np.zeros((1, 0), int)
            X = np.zeros((len(Y), n), int)
            X[:, fix] = val
            X[:, free] = Y
            obs = ref.ising_obs(X, order)
            E = -obs.dot(theta)
            if q == 0:
                k = int(rng.integers(0, 5))
                self.K = [np.ones((1, 1))]
            elif syst:
                k = st.mixing(st.sweep_kernel(E, q), tol, cap // q)
                k = k and k * q + q + int(rng.integers(0, q))
            else:
                k = st.mixing(st.ising_kernel(E, q), tol, cap)
            if k is not None and k <= cap:
                break
        else:
            raise Skip()
        self.n, self.theta, self.fix, self.val, self.free = n, theta, fix, val, free
        self.Y, self.E, self.it = Y, E, int(k)
        self.p = ref.boltzmann(obs, theta)[0]
        self.arg = list(zip(fix, val))
        c = rng.integers(3)
        if c == 1:
            self.arg = [(np.int64(a), np.int64(b)) for a, b in self.arg]
        elif c == 2:
            self.arg = [[a, b] for a, b in self.arg]
        ctx.note(n=n, order=order, theta=theta, fixed=list(zip(fix, val)), n_iters=self.it, systematic=syst)

    def judge(self, ctx, X, S, key, dist=True):
        X = np.asarray(X)
        if not ctx.eq(X.shape, (S, self.n), key + ':shape'):
            return
        ctx.check((X[:, self.fix] == self.val).all(), key + ':fixed_values', 'rows %s' % X[:3])
        ctx.check(np.isin(X, (-1, 1)).all(), key + ':alphabet')
        ctx.count('samples', S)
        ctx.seen(self.theta, self.arg, X[:50])
        if not self.free or not dist:
            return
        ix = ctx.call(ref.state_ix, X[:, self.free], (-1, 1), _key=key + ':alphabet')
        C = np.bincount(ix, minlength=len(self.Y))
        pv, k = st.histogram(C, self.p)
        ctx.check(pv > st.ALPHA, key + ':conditional_distribution', 'free spins %s: %d of %d, expected %.1f (p=%.1e)' %
                  (self.Y[k], C[k], S, self.p[k] * S, pv))
        O = (self.Y + 1) / 2.
        m = self.p.dot(O)
        pv, k = st.worst(C.dot(O) - S * m, S * m * (1 - m))
        ctx.check(pv > st.ALPHA, key + ':conditional_means', 'free spin %d: %.4f, expected %.4f' % (k, C.dot(O)[k] / S, m[k]))


def rs(ctx):
    return np.random.RandomState(int(ctx.rng.integers(2**31)))


@monitor(64, 2000, shards=8, cost=1)
def compiled(ctx):
    syst, par = bool(ctx.i % 2), bool(ctx.i // 2 % 4 == 3)
    c = Cond(ctx, 2, 1, 7, 600, syst)
    smp = cs.Metropolis(c.n, c.theta, iprint=False, rng=rs(ctx))
    S = 20000 if not ctx.thorough else 60000
    burn = c.it + int(ctx.rng.integers(0, 20))
    ctx.note(parallel=par)
    ctx.call(smp.generate_cond_sample, S, c.arg, n_iters=c.it, burn_in=burn, systematic_iter=syst, parallel=par)
    c.judge(ctx, smp.sample, S, 'compiled')


@monitor(24, 500, shards=8, cost=6)
def interpreted(ctx):
    syst = bool(ctx.i % 2)
    order = 2 if ctx.i % 3 else 3
    c = Cond(ctx, order, 3 if order == 3 else 1, 5, 150, syst)
    smp = cs.Metropolis(c.n, c.theta, CALC[order], boost=False, iprint=False, rng=rs(ctx))
    S = max(5, (20000 if not ctx.thorough else 100000) // max(c.it, 10))
    kw = {}
    if ctx.rng.random() < .3:
        kw['initial_sample'] = ctx.rng.choice([-1, 1], size=(S, len(c.free)))
    ctx.call(smp.generate_cond_sample, S, c.arg, n_iters=c.it, burn_in=c.it, systematic_iter=syst, **kw)
    c.judge(ctx, smp.sample, S, 'interpreted')
    E = -ref.ising_obs(smp.sample, order).dot(c.theta)
    ctx.close(np.ravel(smp.E), E, 'interpreted:energy', atol=1e-8 * (1 + np.abs(c.theta).sum()))


@monitor(32, 800, shards=8, cost=1)
def compiled_kernel(ctx):
    """Recorded at every step, the free spins move by the conditional Metropolis kernel."""
    c = Cond(ctx, 2, 2, 5, 10**6, False, tol=.5, mmax=4)
    if not c.free:
        raise Skip()
    smp = cs.Metropolis(c.n, c.theta, iprint=False, rng=rs(ctx))
    S = 40000 if not ctx.thorough else 200000
    ctx.call(smp.generate_cond_sample, S, c.arg, n_iters=1, burn_in=int(ctx.rng.integers(0, 9)), parallel=False)
    c.judge(ctx, smp.sample, S, 'compiled_kernel', dist=False)
    ix = ref.state_ix(smp.sample[:, c.free], (-1, 1))
    p, i, j, got, want, _ = st.transitions(ix, st.ising_kernel(c.E, len(c.free)))
    ctx.check(p > st.ALPHA, 'compiled_kernel:transition', '%s -> %s: %d, expected %.1f (p=%.1e)' % (c.Y[i], c.Y[j], got, want, p))


@monitor(48, 1000, shards=8)
def patterns(ctx):
    """Large systems and extreme patterns: positions and values, row by row."""
    rng = ctx.rng
    n = int(rng.integers(1, 30))
    boost = bool(ctx.i % 2)
    m = [1, n, max(1, n - 1), int(rng.integers(1, n + 1))][ctx.i // 2 % 4]
    fix = sorted(rng.choice(n, m, replace=False).tolist())
    val = rng.choice([-1, 1], m).tolist()
    theta = rng.normal(size=n + n * (n - 1) // 2)
    smp = cs.Metropolis(n, theta, CALC[2], boost=boost, iprint=False, rng=rs(ctx))
    S = int(rng.integers(1, 40))
    it, burn, syst = int(rng.integers(0, 4)), int(rng.integers(0, 4)), bool(rng.integers(2))
    kw = {'parallel': bool(rng.integers(2))} if boost else {}
    ctx.note(n=n, fixed=list(zip(fix, val)), n_iters=it, burn_in=burn, systematic=syst, boost=boost, S=S, **kw)
    ctx.call(smp.generate_cond_sample, S, list(zip(fix, val)), n_iters=it, burn_in=burn, systematic_iter=syst, **kw)
    X = np.asarray(smp.sample)
    if ctx.eq(X.shape, (S, n), 'patterns:shape'):
        ctx.check((X[:, fix] == val).all(), 'patterns:fixed_values')
        ctx.check(np.isin(X, (-1, 1)).all(), 'patterns:alphabet')
    # strong fields reveal where the free spins are
    big = np.zeros_like(theta)
    tgt = rng.choice([-1, 1], n)
    big[:n] = 60. * tgt
    smp = cs.Metropolis(n, big, CALC[2], boost=boost, iprint=False, rng=rs(ctx))
    ctx.call(smp.generate_cond_sample, 3, list(zip(fix, val)), n_iters=3 * n, burn_in=3 * n, systematic_iter=True, **kw)
    want = tgt.copy()
    want[fix] = val
    ctx.eq(smp.sample, np.tile(want, (3, 1)), 'patterns:free_spins_follow_their_own_fields')
    # they do as soon as every one of them has been updated, be it during burn in or between samples
    nf = n - m
    b, it = [(nf, 0), (int(rng.integers(0, nf + 1)), int(rng.integers(1, nf + 2))), (0, nf + 1)][int(rng.integers(3))]
    if ctx.i // 8 % 3 == 2:
        # random choice of spins: enough updates to visit each
        b, it, syst = (60 * nf, 0, False) if rng.random() < .5 else (0, 60 * nf, False)
    else:
        syst = True
    smp = cs.Metropolis(n, big, CALC[2], boost=boost, iprint=False, rng=rs(ctx))
    ctx.note(burn_in_only=(b, it, syst))
    kw = {'parallel': False} if boost and b < nf else kw
    ctx.call(smp.generate_cond_sample, 2 * nf + 2, list(zip(fix, val)), n_iters=it, burn_in=b, systematic_iter=syst, **kw)
    X = np.asarray(smp.sample)
    done = [r for r in range(2 * nf + 2) if b + (r + 1) * it >= (nf if syst else 60 * nf)]
    if ctx.eq(X.shape, (2 * nf + 2, n), 'patterns:shape'):
        ctx.eq(X[done], np.tile(want, (len(done), 1)), 'patterns:free_spin_not_updated')
    ctx.seen(n, fix, val, boost)


@monitor(32, 300, shards=4)
def refused(ctx):
    """Sets that name a spin twice, out of order, that does not exist, or a value that is no spin."""
    rng = ctx.rng
    n = int(rng.integers(2, 8))
    boost = bool(ctx.i % 2)
    theta = rng.normal(size=n + n * (n - 1) // 2)

    def go(fs, **kw):
        smp = cs.Metropolis(n, theta, CALC[2], boost=boost, iprint=False, rng=rs(ctx))
        if boost:
            kw['parallel'] = False
        smp.generate_cond_sample(4, fs, n_iters=3, burn_in=3, **kw)
        return smp.sample
    i, j = sorted(rng.choice(n, 2, replace=False).tolist())
    ctx.note(n=n, boost=boost)
    ctx.raises(go, 'refused:unsorted', [(j, 1), (i, 1)])
    ctx.raises(go, 'refused:duplicate', [(i, 1), (i, -1)])
    ctx.raises(go, 'refused:value', [(i, 0)])
    ctx.raises(go, 'refused:value', [(i, 1), (j, int(rng.choice([-2, 2, 3])))])
    ctx.raises(go, 'refused:no_such_spin', [(i, 1), (n + int(rng.integers(0, 3)), 1)])
    ctx.raises(go, 'refused:no_such_spin', [(-1 - int(rng.integers(0, 2)), 1)])
    ctx.seen(n, i, j, boost)


@monitor(8, 100, shards=4, cost=3)
def jit_energy(ctx):
    """Compiled conditional energy: the energy of the completed state."""
    rng = ctx.rng
    n = int(rng.integers(2, 7))
    m = int(rng.integers(1, n))
    fix = sorted(rng.choice(n, m, replace=False).tolist())
    val = rng.choice([-1, 1], m).tolist()
    free = [i for i in range(n) if i not in fix]
    theta = rng.normal(size=n + n * (n - 1) // 2)
    flat = np.array([v for p in zip(fix, val) for v in p], dtype=np.int64)
    f = ctx.call(cs.define_jit_cond_calc_e, n, CALC[2], flat)
    Y = ref.states(len(free), (-1, 1))
    X = np.zeros((len(Y), n), int)
    X[:, fix] = val
    X[:, free] = Y
    E = -ref.ising_obs(X).dot(theta)
    ctx.note(n=n, fixed=list(zip(fix, val)))
    for y, e in zip(Y, E):
        ctx.close(np.ravel(ctx.call(f, y[None].astype(np.int64), theta, _key='cond_calc_e')), [e], 'jit_energy:energy')
    ctx.seen(n, fix, val)
