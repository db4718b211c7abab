"""C09: samples follow the Boltzmann distribution of the parameters."""
import numpy as np
import coniii.samplers as cs
import coniii.models as cm
import coniii.utils as cu
import mcstat as st
import ref
from core import monitor, settings, Skip

NEED = ('plain',)
settings('Every sampler front end on random models small enough for the exact mixing time (from the full transition '
         'matrix) to fix the spacing of samples such that they are independent draws up to 1e-6 in total variation; '
         'the histogram and the observables of the sample are then compared with exact probabilities by Bernstein '
         'bounds with failure probability below 1e-11 each.',
         ['the random generators of numpy and libstdc++ are good enough for the bounds used'])

CALC = {'ising': cu.define_ising_helper_functions()[0], 'triplet': cu.define_triplet_helper_functions()[0],
        'potts': cu.define_potts_helper_functions(3)[0]}
VALS = {'ising': (-1, 1), 'triplet': (-1, 1), 'potts': (0, 1, 2)}


def nparams(kind, n):
    m = n + n * (n - 1) // 2
    return {'ising': m, 'triplet': m + n * (n - 1) * (n - 2) // 6, 'potts': m + 2 * n}[kind]


def observables(kind, X):
    return ref.ising_obs(X, 2) if kind == 'ising' else ref.ising_obs(X, 3) if kind == 'triplet' else ref.potts_obs(X, 3)


class Model:
    """A random model whose chain mixes within `cap` updates."""

    def __init__(self, ctx, kind, nlo, nhi, cap, syst=False):
        rng = ctx.rng
        self.kind, self.vals = kind, VALS[kind]
        for attempt in range(30):
            n = int(rng.integers(nlo, nhi + 1))
            theta = rng.normal(size=nparams(kind, n)) * rng.choice([.2, .5, .8, 1.2])
            if rng.random() < .2:
                theta += rng.choice([-1, 1]) * .4
            self.n, self.theta = n, theta
            self.X = ref.states(n, self.vals)
            E = -observables(kind, self.X).dot(theta)
            q = len(self.vals)
            if syst:
                k = st.mixing(st.sweep_kernel(E, n, q), 1e-6, cap // n)
                k = k and k * n + n + int(rng.integers(0, n))
            else:
                k = st.mixing(st.ising_kernel(E, n, None, q), 1e-6, cap)
            if k is not None and k <= cap:
                break
        else:
            raise Skip()
        self.it = int(k)
        self.p = ref.boltzmann(observables(kind, self.X), theta)[0]
        ctx.note(model=kind, n=n, theta=theta, n_iters=self.it, systematic=syst)

    def judge(self, ctx, X, key, p=None):
        p = self.p if p is None else p
        X = np.asarray(X)
        ctx.check(X.ndim == 2 and X.shape[1] == self.n, key + ':shape', '%s' % (X.shape,))
        ix = ctx.call(ref.state_ix, X, self.vals, _key=key + ':alphabet')
        C = np.bincount(ix, minlength=len(self.X))
        ctx.count('samples', len(X))
        pv, k = st.histogram(C, p)
        ctx.check(pv > st.ALPHA, key + ':histogram', 'state %s: %d of %d, expected %.1f (p=%.1e)' %
                  (self.X[k], C[k], len(X), p[k] * len(X), pv))
        O = observables(self.kind, self.X)
        O = (O - O.min(0)) / np.maximum(O.max(0) - O.min(0), 1e-300)
        m = p.dot(O)
        pv, k = st.worst(C.dot(O) - len(X) * m, len(X) * (p.dot(O * O) - m * m))
        ctx.check(pv > st.ALPHA, key + ':observables', 'observable %d: %.4f, expected %.4f (p=%.1e)' %
                  (k, C.dot(O)[k] / len(X), m[k], pv))
        ctx.seen(self.theta, X[:100])


def rs(ctx):
    return np.random.RandomState(int(ctx.rng.integers(2**31)))


@monitor(48, 1500, shards=8, cost=1)
def compiled(ctx):
    kind = ['ising', 'ising', 'potts'][ctx.i % 3]
    syst, par = bool(ctx.i // 3 % 2), bool(ctx.i // 6 % 2)
    m = Model(ctx, kind, 2 if syst else 1, 6 if kind == 'ising' else 4, 600, syst)
    smp = cs.Potts3(m.n, m.theta, rng=rs(ctx)) if kind == 'potts' else cs.Metropolis(m.n, m.theta, iprint=False, rng=rs(ctx))
    f = smp.generate_sample_parallel if par else smp.generate_sample
    S = 30000 if not ctx.thorough else 100000
    ctx.note(parallel=par)
    kw = {} if ctx.rng.random() < .5 else {'burn_in': m.it + int(ctx.rng.integers(0, 50))}
    ctx.call(f, S, n_iters=m.it, systematic_iter=syst, **kw)
    m.judge(ctx, smp.sample, 'compiled_%s' % kind)


@monitor(24, 500, shards=8, cost=6)
def interpreted(ctx):
    kind = ['ising', 'potts', 'triplet'][ctx.i % 3]
    syst, par = bool(ctx.i // 3 % 2), bool(ctx.i // 6 % 2)
    m = Model(ctx, kind, 3 if kind == 'triplet' else 2 if syst else 1, 4 if kind != 'potts' else 3, 150, syst)
    kw = {} if kind == 'potts' else {'iprint': False}
    smp = (cs.Potts3 if kind == 'potts' else cs.Metropolis)(m.n, m.theta, CALC[kind], boost=False, rng=rs(ctx), **kw)
    f = smp.generate_sample_parallel if par else smp.generate_sample
    S = (60000 if not ctx.thorough else 400000) // m.it * (4 if par else 1)
    ctx.note(parallel=par)
    ctx.call(f, S, n_iters=m.it, systematic_iter=syst)
    m.judge(ctx, smp.sample, 'interpreted_%s' % kind)


@monitor(24, 300, shards=6, cost=6)
def systematic_short(ctx):
    """Systematic updates, fewer than one sweep between samples: pooled over many samples the chain still
    visits everything; transitions of the recorded chain against the exact kernel of those updates."""
    kind = ['ising', 'potts'][ctx.i % 2]
    boost = bool(ctx.i // 2 % 2)
    m = Model(ctx, kind, 2, 3, 600, True)
    it = int(ctx.rng.integers(1, m.n)) if m.n > 1 else 1
    kw = {} if kind == 'potts' else {'iprint': False}
    smp = (cs.Potts3 if kind == 'potts' else cs.Metropolis)(m.n, m.theta, CALC[kind], boost=boost, rng=rs(ctx), **kw)
    S = 40000 if boost else 5000
    ctx.note(n_iters=it, boost=boost)
    ctx.call(smp.generate_sample, S, n_iters=it, burn_in=m.it, systematic_iter=True)
    ix = ctx.call(ref.state_ix, smp.sample, m.vals, _key='systematic_short:alphabet')
    # take every g-th sample so that the spacing is an exact number of mixing times
    g = -(-m.it // it)
    m.judge(ctx, smp.sample[::g], 'systematic_short')
    ctx.count('updates', S * it)
    ctx.seen(m.theta, ix[:100])


@monitor(12, 200, shards=6, cost=2)
def updated_parameters(ctx):
    """update_parameters: the next sample belongs to the new parameters."""
    kind = ['ising', 'potts', 'triplet'][ctx.i % 3]
    boost = kind != 'triplet' and bool(ctx.i // 3 % 2)
    m = Model(ctx, kind, 3, 4 if kind != 'potts' else 3, 200)
    kw = {} if kind == 'potts' else {'iprint': False}
    t0 = ctx.rng.normal(size=m.theta.size) * 2
    smp = (cs.Potts3 if kind == 'potts' else cs.Metropolis)(m.n, t0, CALC[kind], boost=boost, rng=rs(ctx), **kw)
    ctx.call(smp.generate_sample, 5, n_iters=10)
    ctx.call(smp.update_parameters, m.theta)
    par = bool(ctx.rng.integers(2))
    S = 20000 if boost else 40000 // m.it
    ctx.note(parallel=par, boost=boost)
    ctx.call(smp.generate_sample_parallel if par else smp.generate_sample, S, n_iters=m.it)
    m.judge(ctx, smp.sample, 'updated_parameters')


@monitor(16, 200, shards=4, cost=1)
def function_front_end(ctx):
    """sample_ising in all documented parameter formats."""
    m = Model(ctx, 'ising', 2, 6, 600)
    form = ctx.i % 4
    t = m.theta
    arg = [t, list(t), [t[:m.n], t[m.n:]], (t[:m.n], t[m.n:])][form]
    if m.n == 1 or t.size == 2:
        arg = t
    par = bool(ctx.i // 4 % 2)
    ctx.note(format=form, parallel=par)
    X = ctx.call(cs.sample_ising, arg, 20000, seed=int(ctx.rng.integers(2**31)), parallel=par,
                 generate_sample_kw={'n_iters': m.it})
    ctx.eq(X.shape, (20000, m.n), 'function_front_end:shape')
    m.judge(ctx, X, 'function_front_end')


@monitor(24, 400, shards=8, cost=3)
def model_front_end(ctx):
    """Model objects: own parameters, replaced parameters, and parameters given for one sample."""
    kind = ['ising', 'potts', 'triplet'][ctx.i % 3]
    boost = kind != 'triplet'
    m = Model(ctx, kind, 3, 5 if kind == 'ising' else 4 if kind == 'triplet' else 3, 200)
    n, t = m.n, m.theta
    mode = ctx.i // 3 % 4
    other = ctx.rng.normal(size=t.size) * 2
    a = n * (3 if kind == 'potts' else 1)
    b = a + n * (n - 1) // 2

    def form(x):
        return [x[:a], x[a:b]] if kind != 'triplet' else [x[:a], x[a:b], x[b:]]
    cls = {'ising': cm.Ising, 'triplet': cm.Triplet, 'potts': cm.Potts3}[kind]
    mod = ctx.call(cls, form(t if mode in (0, 1) else other), rng=rs(ctx))
    par = bool(ctx.rng.integers(2))
    S = 12000 if boost else 40000 // m.it
    kw = {}
    if mode == 3:
        kw['multipliers'] = t
    before_setup = bool(ctx.rng.integers(2))
    if mode == 2 and before_setup:
        ctx.call(mod.set_multipliers, t)
    ctx.call(mod.setup_sampler, sample_size=S, **({} if ctx.rng.random() < .5 or kind == 'potts' else
                                                  {'sampler_kwargs': {'iprint': False}}))
    if mode == 1:
        ctx.call(mod.generate_sample, 3, 3, sample_size=20, multipliers=other)
    if mode == 2 and not before_setup:
        ctx.call(mod.generate_sample, 3, 3, sample_size=20)
        ctx.call(mod.set_multipliers, t)
    ctx.note(mode=mode, parallel=par)
    ctx.call(mod.generate_sample, m.it, m.it, parallel=par, **kw)
    ctx.eq(len(mod.sample), S, 'model_front_end:size')
    m.judge(ctx, mod.sample, 'model_front_end')


@monitor(12, 150, shards=6, cost=8)
def cluster_moves(ctx):
    rng = ctx.rng
    for _ in range(20):
        n = int(rng.integers(2, 5))
        theta = np.concatenate([rng.normal(size=n) * rng.choice([0., .3, .8]), rng.normal(size=n * (n - 1) // 2) * rng.choice([.3, .7])])
        J = np.zeros((n, n))
        J[np.triu_indices(n, 1)] = theta[n:]
        J += J.T
        X = ref.states(n, (-1, 1))
        K = st.wolff_kernel(X, theta[:n], J)
        k = st.mixing(K, 1e-6, 64)
        if k:
            break
    else:
        raise Skip()
    p, _, _ = ref.boltzmann(ref.ising_obs(X), theta)
    ctx.note(n=n, theta=theta, n_iters=k)
    smp = ctx.call(cs.WolffIsing, theta[n:], theta[:n])
    smp.rng = rs(ctx)
    mode = ctx.i % 4
    S = 24000 // k
    if mode == 0:
        Y = ctx.call(smp.generate_sample, S, k)
    elif mode == 1:
        Ks = np.eye(len(X))
        for i in range(n):
            Ks = Ks @ st.wolff_kernel(X, theta[:n], J, i)
        k = st.mixing(Ks, 1e-6, 40)
        if not k:
            raise Skip()
        S = max(200, 24000 // (k * n))
        Y, H = ctx.call(smp.generate_sample, S, k * n, save_history=True)
        ctx.eq(H.shape, (S, n, k * n + 1), 'cluster_moves:history_shape')
        ctx.eq(H[:, :, -1], Y, 'cluster_moves:history_end')
    elif mode == 2:
        Ks = np.eye(len(X))
        for i in range(n):
            Ks = Ks @ st.wolff_kernel(X, theta[:n], J, i)
        k = st.mixing(Ks, 1e-6, 40)
        if not k:
            raise Skip()
        S = max(400, 100000 // (k * n))
        Y = ctx.call(smp.generate_sample_parallel, S, k * n)
    else:
        Y = ctx.call(smp._generate_sample, S, k)[1:]
    ix = ctx.call(ref.state_ix, Y, (-1, 1), _key='cluster_moves:alphabet')
    C = np.bincount(ix, minlength=len(X))
    pv, j = st.histogram(C, p)
    ctx.count('samples', len(Y))
    ctx.check(pv > st.ALPHA, 'cluster_moves:histogram', 'state %s: %d of %d, expected %.1f (p=%.1e)' % (X[j], C[j], len(Y), p[j] * len(Y), pv))
    ctx.seen(theta, mode)


@monitor(8, 100, shards=8, cost=4)
def larger(ctx):
    """8 to 10 spins, means and pair correlations against enumeration."""
    m = Model(ctx, 'ising', 7, 9, 1000)
    smp = cs.Metropolis(m.n, m.theta, iprint=False, rng=rs(ctx))
    ctx.call(smp.generate_sample_parallel if ctx.i % 2 else smp.generate_sample, 40000, n_iters=m.it)
    m.judge(ctx, smp.sample, 'larger')


@monitor(12, 240, shards=6, cost=4)
def independent_processes(ctx):
    """Samples of different processes and requests are independent: in a large nearly free system no state is drawn
    twice.  A stream used twice leaves every histogram right but makes the sample smaller than it looks."""
    rng = ctx.rng
    mode = ctx.i % 6
    n = int(rng.integers(60, 80))
    cpus = cs.mp.cpu_count()
    S = int(rng.integers(2 * cpus, 6 * cpus))
    it = 12 * n
    ctx.note(n=n, S=S, mode=['parallel', 'parallel compiled', 'conditional parallel', 'Potts parallel compiled',
                             'Potts parallel', 'Wolff parallel'][mode])
    theta = rng.normal(size=n + n * (n - 1) // 2) * .02
    q = 2
    if mode in (0, 1, 2):
        smp = cs.Metropolis(n, theta, CALC['ising'], iprint=False, rng=rs(ctx), boost=bool(mode))
        fixed = list(zip((int(i) for i in np.sort(rng.choice(n, 3, replace=False))), (1, -1, 1)))

        def draw():
            if mode < 2:
                ctx.call(smp.generate_sample_parallel, S, n_iters=it)
                return np.array(smp.sample)
            ctx.call(smp.generate_cond_sample, S, fixed, n_iters=it, parallel=True)
            return np.delete(np.array(smp.sample), [f[0] for f in fixed], axis=1)
    elif mode in (3, 4):
        q = 3
        theta = np.concatenate((rng.normal(size=2 * n) * .02, theta))
        kw = {'n_cpus': int(rng.integers(2, cpus + 1))} if mode == 3 else {}
        smp = cs.Potts3(n, theta, calc_e=CALC['potts'], rng=rs(ctx), boost=mode == 3, **kw)
        ctx.note(**kw)

        def draw():
            ctx.call(smp.generate_sample_parallel, S, n_iters=it)
            return np.array(smp.sample)
    else:
        h, J = theta[:n], np.zeros((n, n))
        J[np.triu_indices(n, 1)] = theta[n:]
        smp = cs.WolffIsing(J + J.T, h)
        smp.rng = rs(ctx)

        def draw():
            return np.array(ctx.call(smp.generate_sample_parallel, S, 6 * n)).astype(int)
    rows = []
    for _ in range(6):
        rows.append(draw())
        ctx.eq(len(rows[-1]), S, 'independent_processes:size')
    rows = np.vstack(rows)
    ctx.eq(len(np.unique(rows, axis=0)), len(rows), 'independent_processes:repeated_stream')
    # and no two rows are nearly equal or nearly opposite
    agree = (rows[:, None] == rows[None]).sum(-1)[np.triu_indices(len(rows), 1)]
    m = rows.shape[1]
    ctx.check(agree.max() < m - 1 and (q > 2 or agree.min() > 1), 'independent_processes:correlated_rows',
              'between %d and %d of %d spins agree' % (agree.min(), agree.max(), m))
    ctx.count('rows', len(rows))
    ctx.seen(theta, S)


@monitor(16, 400, shards=8, cost=2)
def burn_in_alone(ctx):
    """The first sample is as good as the later ones: after a long burn-in, with no or few updates between samples,
    spins in strong fields all follow them, wherever in the system they are."""
    rng = ctx.rng
    kind = ('ising', 'potts')[ctx.i % 2]
    boost, par = bool(ctx.i // 2 % 2), bool(ctx.i // 4 % 2)
    syst = bool(ctx.i // 8 % 2)
    n = int(rng.integers(3, 24))
    q = len(VALS[kind])
    # a state no other competes with: every other value of every spin costs at least 34 less the couplings
    theta = np.zeros(nparams(kind, n))
    best = rng.choice(VALS[kind], size=n)
    if kind == 'ising':
        theta[:n] = best * rng.uniform(20, 30, size=n)
        npair = n
    else:
        for i in range(n):
            theta[best[i] * n + i] = rng.uniform(40, 60)
        npair = 3 * n
    theta[npair:] = rng.normal(size=len(theta) - npair) * .1
    it = 0
    S = int(rng.integers(9, 20))
    burn = 40 * q * n
    if syst and q == 2:
        # visited in turn, n updates reach every spin, however they are spread over burn-in and samples
        burn = int(rng.integers(0, 2 * n))
        it = int(rng.integers(0, n))
        S = int(rng.integers(9, 40))
    kw = {'n_cpus': int(rng.integers(2, 5))} if kind == 'potts' else {}
    cls = cs.Metropolis if kind == 'ising' else cs.Potts3
    smp = cls(n, theta, CALC[kind], rng=rs(ctx), boost=boost, **kw)
    ctx.note(model=kind, n=n, boost=boost, parallel=par, systematic=syst, burn_in=burn, n_iters=it, S=S)
    ctx.call(smp.generate_sample_parallel if par else smp.generate_sample, S, n_iters=it, burn_in=burn, systematic_iter=syst)
    Y = np.array(smp.sample)
    done = burn + it * np.arange(1, S + 1)
    if par:
        per = -(-S // (kw['n_cpus'] if kw and boost else cs.mp.cpu_count()))
        done = burn + it * (np.arange(S) % per + 1)
    done = done >= (n if syst and q == 2 else 0)
    ctx.eq(Y[done], np.tile(best, (done.sum(), 1)), 'burn_in_alone:state')
    ctx.count('samples', S)
    ctx.seen(theta, burn)
