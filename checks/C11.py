"""C11: sampling is reproducible, well formed and leaves its inputs alone."""
import numpy as np
import coniii.samplers as cs
import coniii.models as cm
import coniii.utils as cu
from core import monitor, settings

NEED = ('plain',)
settings('Every sampler variant run repeatedly under equal and different seeds, with the global generator disturbed in '
         'between, over sample sizes 1 to 60 (below, at and above the number of processors), zero and non-zero '
         'iterations and burn-in, random and systematic updates; recorded samples are compared bit by bit, and copies '
         'of all arguments with the arguments afterwards.')

CALC = {'ising': cu.define_ising_helper_functions()[0], 'triplet': cu.define_triplet_helper_functions()[0],
        'potts': cu.define_potts_helper_functions(3)[0]}
VALS = {'ising': (-1, 1), 'triplet': (-1, 1), 'potts': (0, 1, 2)}


def nparams(kind, n):
    m = n + n * (n - 1) // 2
    return {'ising': m, 'triplet': m + n * (n - 1) * (n - 2) // 6, 'potts': m + 2 * n}[kind]


def variants():
    out = []
    for kind in ('ising', 'potts', 'triplet'):
        for boost in ((True, False) if kind != 'triplet' else (False,)):
            for how in ('seq', 'par') + (('cond',) if kind != 'potts' else ()) + \
                    (('condpar',) if kind == 'ising' and boost else ()):
                out.append((kind, boost, how))
    return out


VAR = variants()


def make(kind, n, theta, boost, seed):
    kw = {} if kind == 'potts' else {'iprint': False}
    if kind == 'potts':
        kw['n_cpus'] = 3
    return (cs.Potts3 if kind == 'potts' else cs.Metropolis)(n, theta, CALC[kind], boost=boost,
                                                            rng=np.random.RandomState(seed), **kw)


def go(smp, how, S, it, burn, syst, fix):
    kw = dict(n_iters=it, systematic_iter=syst)
    if burn is not None:
        kw['burn_in'] = burn
    if how == 'seq':
        smp.generate_sample(S, **kw)
    elif how == 'par':
        smp.generate_sample_parallel(S, **kw)
    else:
        if burn is None:
            kw['burn_in'] = it
        if how == 'condpar':
            kw['parallel'] = True
        elif smp.generate_cond_sample.__name__.endswith('boost'):
            kw['parallel'] = False
        smp.generate_cond_sample(S, fix, **kw)
    return np.array(smp.sample, copy=True)


@monitor(44, 1000, shards=8, cost=2)
def seeds(ctx):
    rng = ctx.rng
    kind, boost, how = VAR[ctx.i % len(VAR)]
    n = int(rng.integers(5, 9))
    theta = rng.normal(size=nparams(kind, n)) * .15
    t0 = theta.copy()
    syst = bool(rng.integers(2))
    S = int(rng.integers(120, 200) if 'par' in how else rng.integers(20, 60))
    it, burn = int(rng.integers(2 * n, 6 * n)), [None, 0, 7][int(rng.integers(3))]
    fix = [(1, 1), (3, -1)]
    s1, s2 = rng.choice(2**31 - 1, 2, replace=False)
    ctx.note(variant=(kind, boost, how), n=n, S=S, n_iters=it, burn_in=burn, systematic=syst)
    runs = []
    for s in (s1, s1, s2):
        np.random.seed(int(rng.integers(2**31)))
        smp = make(kind, n, theta, boost, int(s))
        a = ctx.call(go, smp, how, S, it, burn, syst, fix)
        b = ctx.call(go, smp, how, S, it, burn, syst, fix)
        runs.append((a, b))
    key = 'seeds:%s_%s' % ('compiled' if boost else 'interpreted', how)
    ctx.eq(runs[0][0], runs[1][0], key + ':reproducible')
    ctx.eq(runs[0][1], runs[1][1], key + ':reproducible_second_call')
    ctx.check(not np.array_equal(runs[0][0], runs[2][0]), key + ':seed_ignored')
    ctx.check(not np.array_equal(runs[0][0], runs[0][1]), key + ':same_sample_on_second_call')
    for a, b in runs:
        for X in (a, b):
            ctx.eq(X.shape, (S, n), key + ':shape')
            ctx.check(np.isin(X, VALS[kind]).all(), key + ':alphabet')
            ctx.check(X.dtype.kind == 'i', key + ':dtype')
    ctx.eq(theta, t0, key + ':parameters_untouched')
    if 'par' in how:
        # processes must not repeat each other
        X = runs[0][0]
        for m in range(14, S // 2 + 1):
            if np.array_equal(X[:m], X[m:2 * m]):
                ctx.check(False, key + ':processes_repeat_each_other', 'blocks of %d rows' % m)
                break
    ctx.count('samples', 6 * S)
    ctx.seen(kind, boost, how, runs[0][0])


@monitor(8, 200, shards=2)
def close_seeds(ctx):
    """Seeds that differ in a single bit, whichever it is, give different samples."""
    rng = ctx.rng
    kind = ('ising', 'potts')[ctx.i % 2]
    front = ctx.i // 2 % 2
    n = int(rng.integers(20, 30))
    theta = rng.normal(size=nparams(kind, n)) * .1
    s0 = int(rng.integers(2**31 - 1))
    seeds_ = [s0] + [s0 ^ 1 << b for b in range(31)]
    seeds_ = [s for s in seeds_ if s < 2**31 - 1]
    ctx.note(model=kind, n=n, seed=s0, front_end=('compiled object', 'sampler')[front])
    rows = []
    for s in seeds_:
        if front:
            rows.append(ctx.call(go, make(kind, n, theta, True, s), 'seq', 4, n, 5, False, None).ravel())
        else:
            b = (cs.BoostIsing if kind == 'ising' else cs.BoostPotts3)(n, theta, s)
            ctx.call(b.generate_sample, 4, 5, n, False)
            rows.append(b.fetch_sample().ravel())
    ctx.eq(len(np.unique(np.array(rows), axis=0)), len(rows), 'close_seeds:equal_samples')
    ctx.count('samples', len(rows) * 4)
    ctx.seen(kind, s0)


@monitor(88, 2000, shards=8, cost=1)
def sizes(ctx):
    """Any sample size, iteration number and burn-in."""
    rng = ctx.rng
    kind, boost, how = VAR[ctx.i % len(VAR)]
    n = int(rng.integers(3 if kind == 'triplet' or 'cond' in how else 1, 9))
    theta = rng.normal(size=nparams(kind, n))
    S = int(rng.choice([1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 60]))
    if kind == 'potts' and how == 'par':
        S = max(S, 4)                           # documented: more samples than processes
    it = int(rng.choice([0, 1, 2, 5, 20]))
    burn = [None, 0, 1, 13][int(rng.integers(4))]
    syst = bool(rng.integers(2))
    fix = [(0, 1)]
    t0 = theta.copy()
    smp = make(kind, n, theta, boost, int(rng.integers(2**31)))
    key = 'sizes:%s_%s' % ('compiled' if boost else 'interpreted', how)
    ctx.note(variant=(kind, boost, how), n=n, S=S, n_iters=it, burn_in=burn, systematic=syst)
    f0 = list(fix)
    for rep in range(2):
        S_ = S if rep == 0 else int(rng.integers(4, 20))
        X = ctx.call(go, smp, how, S_, it, burn, syst, fix)
        ctx.eq(X.shape, (S_, n), key + ':shape')
        ctx.check(np.isin(X, VALS[kind]).all(), key + ':alphabet')
        if it == 0 and how in ('seq', 'cond'):
            ctx.check((X == X[0]).all(), key + ':no_update_between_samples')
        if it <= 2 and how in ('seq', 'cond') and len(X) > 1:
            ctx.check(((X[1:] != X[:-1]).sum(1) <= it).all(), key + ':more_changes_than_updates')
    ctx.eq(theta, t0, key + ':parameters_untouched')
    ctx.check(fix == f0, key + ':fixed_set_untouched')
    ctx.seen(kind, boost, how, n, S, it, burn, syst)


@monitor(32, 600, shards=8, cost=1)
def initial_states(ctx):
    """Given initial states are where the chain starts, and stay as they are."""
    rng = ctx.rng
    kind = ['ising', 'potts', 'triplet'][ctx.i % 3]
    n = int(rng.integers(3, 7))
    theta = rng.normal(size=nparams(kind, n))
    x0 = rng.choice(VALS[kind], (1, n))
    x0 = x0.astype([np.int64, np.float64, np.int8, np.int32][int(rng.integers(4))])
    keep = x0.copy()
    it, burn = int(rng.integers(0, 3)), int(rng.integers(0, 3))
    smp = make(kind, n, theta, False, int(rng.integers(2**31)))
    ctx.note(kind=kind, n=n, start=x0, n_iters=it, burn_in=burn)
    ctx.call(smp.generate_sample, 4, n_iters=it, burn_in=burn, initial_sample=x0)
    ctx.eq(x0, keep, 'initial_states:overwritten')
    d = (smp.sample[0] != keep[0]).sum()
    ctx.check(d <= it + burn, 'initial_states:ignored', '%d spins differ after %d updates' % (d, it + burn))
    # parallel: one initial state per process
    k = cs.mp.cpu_count()
    y0 = rng.choice(VALS[kind], (k, n))
    keep = y0.copy()
    ctx.call(smp.generate_sample_parallel, 3 * k, n_iters=it, burn_in=burn, initial_sample=y0)
    ctx.eq(y0, keep, 'initial_states:overwritten_parallel')
    ctx.eq(smp.sample.shape, (3 * k, n), 'initial_states:shape_parallel')
    if it == 0:
        got = smp.sample.reshape(k, 3, n)
        ctx.check(((got != keep[:, None]).sum(-1) <= burn).all(), 'initial_states:ignored_parallel')
    if kind != 'potts':
        z0 = rng.choice([-1, 1], (5, n - 1))
        keep = z0.copy()
        fix = [(int(rng.integers(n)), 1)]
        ctx.call(smp.generate_cond_sample, 5, fix, n_iters=it, burn_in=burn, initial_sample=z0)
        ctx.eq(z0, keep, 'initial_states:overwritten_conditional')
        ctx.eq(smp.sample.shape, (5, n), 'initial_states:shape_conditional')
        if it == 0 and burn == 0:
            free = [i for i in range(n) if i != fix[0][0]]
            ctx.eq(smp.sample[0][free], keep[0], 'initial_states:ignored_conditional')
    ctx.seen(kind, n, x0, it, burn)


@monitor(12, 200, shards=6, cost=2)
def front_ends(ctx):
    """sample_ising and the model objects."""
    rng = ctx.rng
    n = int(rng.integers(5, 8))
    s1, s2 = [int(x) for x in rng.choice(2**31 - 1, 2, replace=False)]
    if ctx.i % 3 == 0:
        s1 = (0, 0, 2**31 - 1)[ctx.i // 3 % 3]
    ctx.note(n=n, seeds=(s1, s2))
    if ctx.i % 2:
        theta = rng.normal(size=nparams('ising', n)) * .2
        t0 = theta.copy()
        kw = {'n_iters': 20}
        k0 = dict(kw)
        par = bool(ctx.i // 2 % 2)
        S = int(rng.integers(9, 40))
        R = [ctx.call(cs.sample_ising, theta, S, seed=s, parallel=par, generate_sample_kw=kw) for s in (s1, s1, s2)]
        ctx.eq(R[0], R[1], 'front_ends:sample_ising:reproducible')
        ctx.check(not np.array_equal(R[0], R[2]), 'front_ends:sample_ising:seed_ignored')
        ctx.eq(R[0].shape, (S, n), 'front_ends:sample_ising:shape')
        ctx.eq(theta, t0, 'front_ends:sample_ising:parameters_untouched')
        ctx.check(kw == k0, 'front_ends:sample_ising:keywords_untouched')
        U = [ctx.call(cs.sample_ising, theta, S, parallel=par, generate_sample_kw=kw) for _ in range(2)]
        ctx.check(not np.array_equal(U[0], U[1]), 'front_ends:sample_ising:unseeded_runs_equal')
        ctx.seen('f', R[0])
        return
    kind = ['ising', 'potts', 'triplet'][ctx.i // 2 % 3]
    theta = rng.normal(size=nparams(kind, n)) * .2
    a = n * (3 if kind == 'potts' else 1)
    b = a + n * (n - 1) // 2
    parts = [theta[:a], theta[a:b]] if kind != 'triplet' else [theta[:a], theta[a:b], theta[b:]]
    keep = [p.copy() for p in parts]
    cls = {'ising': cm.Ising, 'triplet': cm.Triplet, 'potts': cm.Potts3}[kind]
    S = int(rng.integers(10, 40))
    par = bool(rng.integers(2))
    R = []
    for k, s in enumerate((s1, s1, s2)):
        np.random.seed(int(rng.integers(2**31)))
        m = ctx.call(cls, parts, rng=np.random.RandomState(s if k != 1 else 5))
        ctx.call(m.setup_sampler, sample_size=S)
        if k == 1:
            m.set_rng(np.random.RandomState(s))
        elif kind == 'potts':
            m.set_rng(np.random.RandomState(s))  # its compiled sampler draws a number when it is made
        ctx.call(m.generate_sample, 30, 10, parallel=par)
        R.append(m.sample.copy())
        ctx.call(m.generate_sample, 30, 10, parallel=par, sample_size=S + 3)
        ctx.eq(m.sample.shape, (S + 3, n), 'front_ends:model:sample_size')
        if k == 0 and kind != 'triplet':         # interpreted chains carry on from their last state
            m.set_rng(np.random.RandomState(s))  # starts the same stream again
            ctx.call(m.generate_sample, 30, 10, parallel=par, sample_size=S)
            ctx.eq(m.sample, R[0], 'front_ends:model:generator_set_again')
    ctx.eq(R[0].shape, (S, n), 'front_ends:model:shape')
    ctx.eq(R[0], R[1], 'front_ends:model:reproducible')
    ctx.check(not np.array_equal(R[0], R[2]), 'front_ends:model:seed_ignored')
    ctx.check(all((p == q).all() for p, q in zip(parts, keep)), 'front_ends:model:parameters_untouched')
    ctx.seen(kind, R[0])


@monitor(20, 300, shards=5, cost=3)
def distinct_rows(ctx):
    """A large nearly free system hardly ever visits a state twice: equal rows come from equal random streams."""
    rng = ctx.rng
    kind, boost, how = [('ising', True, 'par'), ('ising', False, 'par'), ('potts', True, 'par'), ('potts', False, 'par'),
                        ('ising', True, 'condpar')][ctx.i % 5]
    n = int(rng.integers(45, 60)) if kind == 'ising' else int(rng.integers(30, 40))
    theta = rng.normal(size=nparams(kind, n)) * .02
    cpus = cs.mp.cpu_count()
    S = int(rng.integers(2 * cpus, 6 * cpus))
    smp = make(kind, n, theta, boost, int(rng.integers(2**31)))
    rows = []
    for rep in range(6 if boost else 3):
        rows.append(ctx.call(go, smp, how, S, 12 * n, None, False, [(1, 1)]))
    rows = np.vstack(rows)
    u = len(np.unique(rows, axis=0))
    ctx.note(variant=(kind, boost, how), n=n, S=S)
    ctx.eq(u, len(rows), 'distinct_rows:repeated_stream')
    ctx.count('rows', len(rows))
    ctx.seen(kind, boost, how, n, S)


@monitor(12, 200, shards=4, cost=1)
def cluster(ctx):
    rng = ctx.rng
    n = int(rng.integers(4, 8))
    J, h = rng.normal(size=n * (n - 1) // 2) * .3, rng.normal(size=n) * .3
    J0, h0 = J.copy(), h.copy()
    S = int(rng.integers(20, 40))
    s1, s2 = [int(x) for x in rng.choice(2**31 - 1, 2, replace=False)]
    x0 = rng.choice([-1., 1.], (S, n))
    keep = x0.copy()
    f = ['generate_sample', 'generate_sample_parallel'][ctx.i % 2]
    R = []
    for s in (s1, s1, s2):
        np.random.seed(int(rng.integers(2**31)))
        smp = ctx.call(cs.WolffIsing, J, h)
        smp.rng = np.random.RandomState(s)
        R.append(ctx.call(getattr(smp, f), S, 6))
        ctx.call(getattr(smp, f), S, 2, initialSample=x0)
        ctx.eq(x0, keep, 'cluster:initial_states_overwritten')
        y = ctx.call(getattr(smp, f), S, 0, initialSample=x0)
        ctx.eq(y, keep, 'cluster:initial_states_ignored')
    ctx.eq(R[0].shape, (S, n), 'cluster:shape')
    ctx.check(np.isin(R[0], (-1, 1)).all(), 'cluster:alphabet')
    ctx.eq(R[0], R[1], 'cluster:reproducible')
    ctx.check(not np.array_equal(R[0], R[2]), 'cluster:seed_ignored')
    ctx.check((J == J0).all() and (h == h0).all(), 'cluster:parameters_untouched')
    ctx.seen(R[0])


@monitor(3, 20, shards=3, cost=20)
def tempering(ctx):
    rng = ctx.rng
    n = int(rng.integers(3, 5))
    theta = rng.normal(size=nparams('ising', n)) * .5
    t0 = theta.copy()
    s1, s2 = [int(x) for x in rng.choice(2**31 - 1, 2, replace=False)]
    R = []
    for s in (s1, s1, s2):
        np.random.seed(int(rng.integers(2**31)))
        pt = ctx.call(cs.ParallelTempering, n, theta, CALC['ising'], 3, (1., 2.), replica_burnin=10, rep_ex_burnin=6,
                      rng=np.random.RandomState(s))
        ctx.call(pt.generate_sample, 12)
        R.append((np.array(pt.sample), np.array(pt.beta)))
    ctx.eq(R[0][0].shape, (3, 12, n), 'tempering:shape')
    ctx.check(np.isin(R[0][0], (-1, 1)).all(), 'tempering:alphabet')
    ctx.eq(R[0][0], R[1][0], 'tempering:reproducible')
    ctx.eq(R[0][1], R[1][1], 'tempering:temperatures_reproducible')
    ctx.check(not np.array_equal(R[0][0], R[2][0]), 'tempering:seed_ignored')
    ctx.eq(theta, t0, 'tempering:parameters_untouched')
    ctx.seen(R[0][0])


@monitor(36, 700, shards=6, cost=2)
def histories(ctx):
    """Any sequence of requests to the same sampler: sequential, parallel, conditional, after new parameters."""
    rng = ctx.rng
    kind, boost = [('ising', False), ('potts', False), ('triplet', False), ('ising', True), ('potts', True)][ctx.i % 5]
    n = int(rng.integers(3, 7))
    cpus = cs.mp.cpu_count()
    seed = int(rng.integers(2**31))
    thetas = [rng.normal(size=nparams(kind, n)) for _ in range(3)]
    keep = [t.copy() for t in thetas]
    ops = []
    for _ in range(int(rng.integers(3, 7))):
        how = ['seq', 'seq', 'par', 'update'] + ['cond'] * (kind != 'potts')
        ops.append((how[int(rng.integers(len(how)))], int(rng.choice([1, 2, 5, cpus - 1, cpus, cpus, cpus, cpus + 1, 3 * cpus])),
                    int(rng.integers(0, 8)), int(rng.integers(0, 8)), bool(rng.integers(2)), int(rng.integers(3)),
                    bool(rng.random() < .3)))
    x0 = rng.choice(VALS[kind], (cpus, n))
    ctx.note(kind=kind, boost=boost, n=n, ops=ops)
    runs = []
    for rep in range(2):
        np.random.seed(int(rng.integers(2**31)))
        smp = make(kind, n, thetas[0], boost, seed)
        out = []
        current = thetas[0]
        for how, S, it, burn, syst, k, given in ops:
            if how == 'update':
                current = thetas[k]
                ctx.call(smp.update_parameters, current)
                ctx.eq(smp.theta, current, 'histories:new_parameters')
                continue
            if how == 'par' and kind == 'potts' and boost:
                S += 3
            kw = dict(n_iters=it, burn_in=burn, systematic_iter=syst)
            if how == 'cond':
                fix = [(int(k), 1)]
                ctx.call(smp.generate_cond_sample, S, fix, **kw, **({'parallel': False} if boost else {}), _key='histories:cond')
                ctx.check((np.asarray(smp.sample)[:, k] == 1).all(), 'histories:fixed_spin')
            else:
                if given and not boost:
                    kw['initial_sample'] = x0[:1] if how == 'seq' else x0
                f = smp.generate_sample if how == 'seq' else smp.generate_sample_parallel
                ctx.call(f, S, _key='histories:' + how, **kw)
            X = np.array(smp.sample)
            ctx.eq(X.shape, (S, n), 'histories:shape')
            ctx.check(np.isin(X, VALS[kind]).all(), 'histories:alphabet')
            if how != 'par' and not boost:
                ctx.close(np.ravel(smp.E), CALC[kind](X.astype(np.int64), current), 'histories:energies', atol=1e-8)
            out.append(X)
        runs.append(out)
    for a, b in zip(*runs):
        ctx.eq(a, b, 'histories:reproducible')
    ctx.check(all((a == b).all() for a, b in zip(thetas, keep)), 'histories:parameters_untouched')
    for S, it, burn in ((0, 3, 3), (-2, 3, 3), (4, -1, 3), (4, 3, -1)) if boost else ():
        ctx.raises(smp.generate_sample, 'histories:impossible_request', S, n_iters=it, burn_in=burn)
        if kind == 'ising':
            ctx.raises(smp.generate_cond_sample, 'histories:impossible_conditional_request', S, [(0, 1)], n_iters=it, burn_in=burn,
                       parallel=False)
    if ctx.i < 10:
        # without a seed no two samplers are alike
        U = []
        for _ in range(2):
            np.random.seed(3)
            kw = {} if kind == 'potts' else {'iprint': False}
            smp = (cs.Potts3 if kind == 'potts' else cs.Metropolis)(6, np.zeros(nparams(kind, 6)), CALC[kind], boost=boost, **kw)
            smp.generate_sample(30, n_iters=20)
            U.append(np.array(smp.sample))
        ctx.check(not np.array_equal(*U), 'histories:unseeded_samplers_equal')
    ctx.count('requests', len(ops))
    ctx.seen(kind, boost, n, ops)
