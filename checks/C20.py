"""C20: solvers set up their targets and likelihoods consistently."""
import functools
import warnings
import numpy as np
import coniii.models as cm
import coniii.solvers as so
import coniii.utils as cu
import ref
from core import cache_factories, monitor, settings, Skip

NEED = ('plain',)
cache_factories(cm, so)
settings('Every solver constructed from data of all numeric types, from a system size and from nothing, with default and '
         'own models and observables: targets, size, model and data it holds are compared with their definitions. '
         'Completion of parameter vectors for random subsets (unsorted, repeated, single, all). Log probabilities '
         'against counting in the sample of the model, states given singly, repeatedly, with missing spins, absent ones '
         'included. Solutions for targets passed in directly must reproduce these and not those of the data.',
         ['subsets of parameters are arrays of 64-bit integers as the constructors demand'], scale=5)


potts = functools.lru_cache(None)(cu.define_potts_helper_functions)
pseudo_potts = functools.lru_cache(None)(cu.define_pseudo_potts_helper_functions)


def data(rng, n, N=None):
    N = int(rng.integers(2, 60)) if N is None else N
    p = rng.uniform(.05, .95, n)
    return np.where(rng.random((N, n)) < p, 1, -1).astype(rng.choice(['i8', 'i4', 'i1', 'f8', 'f4']))


PLAIN = ('Enumerate', 'MPF', 'Pseudo', 'MCH', 'ClusterExpansion', 'RegularizedMeanField')
SPARSE = ('SparseEnumerate', 'SparseMCH')


def make(name, sample, n, gen, **k):
    if name in SPARSE:
        k['parameter_ix'] = np.sort(gen.choice(n * (n + 1) // 2, int(gen.integers(1, n * (n + 1) // 2 + 1)), replace=False)).astype(np.int64)
    return getattr(so, name)(sample, iprint=False, **k)


@monitor(160, 4000, shards=4)
def set_up(ctx):
    rng = ctx.rng
    n = int(rng.integers(2, 10))
    name = str(rng.choice(PLAIN + SPARSE))
    form = str(rng.choice(['data', 'data', 'own_observables', 'own_model', 'size', 'nothing', 'size_own_model']))
    X = data(rng, n)
    if rng.random() < .25:  # missing entries
        X[rng.random(X.shape) < .3] = 0
        X[rng.random(len(X)) < .2] = 0
    X0 = X.copy()
    ctx.note(solver=name, form=form, n=n, X=X)
    m = n * (n + 1) // 2
    k = {}
    sample = X
    order = 2
    if form == 'own_observables':
        order = 3
        k['calc_observables'] = lambda Y: ref.ising_obs(Y, 3)
    if form in ('own_model', 'nothing', 'size_own_model'):
        t = rng.normal(size=m)
        k['model'] = cm.Ising(t.copy())
    elif rng.random() < .5:
        k['rng'] = np.random.RandomState(int(rng.integers(2**31)))
    if form == 'own_observables' and name in SPARSE:
        order = 3
    if form in ('size', 'size_own_model'):
        sample = n
    if form == 'nothing':
        sample = None
    if name == 'Pseudo' and form in ('nothing', 'size_own_model', 'size'):
        k['get_multipliers_r'], k['calc_observables_r'] = cu.define_pseudo_ising_helper_functions(n)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        s = ctx.call(make, name, sample, n, rng, _key='%s:%s' % (name, form), **k)
    if form in ('data', 'own_observables', 'own_model'):
        want = ref.ising_obs(X0, order).mean(0)
        tol = 1e-5 if X.dtype == np.float32 else 1e-12
        ctx.close(s.constraints, want, 'set_up:targets_are_not_the_averages_of_the_data', rtol=tol, atol=tol)
        ctx.eq(s.sample, X0, 'set_up:data_held')
        ctx.eq(s.n, n, 'set_up:size')
    else:
        ctx.check(s.constraints is None, 'set_up:targets_without_data')
        ctx.check(s.sample is None, 'set_up:data_without_data')
        ctx.check(s.n == (None if form == 'nothing' else n), 'set_up:size')
    ctx.eq(X, X0, 'set_up:data_modified')
    if 'model' in k:
        ctx.check(s.model is k['model'], 'set_up:model_passed_in_is_not_used')
        ctx.eq(np.asarray(s.model.multipliers), t, 'set_up:parameters_of_the_model_changed')
    else:
        ctx.check(type(s.model) is cm.Ising and s.model.n == n, 'set_up:default_model')
        ctx.eq(np.asarray(s.model.multipliers), np.zeros(m), 'set_up:default_parameters')
        if 'rng' in k:
            ctx.check(s.model.rng is k['rng'], 'set_up:generator_not_passed_to_the_model')
    if 'calc_observables' in k:
        ctx.check(s.calc_observables is k['calc_observables'], 'set_up:observables_passed_in_are_not_used')
    else:
        Y = data(rng, n, 4).astype(np.int64)
        ctx.close(s.calc_observables(Y), ref.ising_obs(Y), 'set_up:default_observables')
    if name in ('MCH', 'SparseMCH', 'ClusterExpansion', 'RegularizedMeanField'):
        ctx.check(s.model.sampler is not None, 'set_up:no_sampler')
        ctx.eq(s.model.sampler.n, n, 'set_up:sampler_size')
    for bad in (1, 0, -3):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            ctx.raises(make, 'set_up:impossible_size_accepted', name, bad, n, rng)
    ctx.seen(X, name, form)


@monitor(60, 1200, shards=2)
def set_up_potts(ctx):
    """Targets of Potts data, states of zeros only included."""
    rng = ctx.rng
    n, k = int(rng.integers(2, 8)), 3
    name = str(rng.choice(['Enumerate', 'MPF', 'Pseudo', 'MCH', 'SparseEnumerate', 'SparseMCH']))
    X = rng.choice(k, p=rng.dirichlet(np.ones(k)), size=(int(rng.integers(2, 60)), n)).astype(rng.choice(['i8', 'i4', 'i1']))
    X[rng.random(len(X)) < .2] = int(rng.integers(k))
    X0 = X.copy()
    m = n * k + n * (n - 1) // 2
    _, obs, mch = potts(k)
    kw = {'model': cm.Potts3(rng.normal(size=m)), 'calc_observables': obs}
    if name == 'Pseudo':
        a, b = pseudo_potts(n, k)
        kw.update(get_multipliers_r=a, calc_observables_r=b, k=k)
    if 'MCH' in name:
        kw['mch_approximation'] = mch
    if name in SPARSE:
        kw['parameter_ix'] = np.sort(rng.choice(m, int(rng.integers(1, m + 1)), replace=False)).astype(np.int64)
    ctx.note(solver=name, n=n, X=X)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        s = ctx.call(getattr(so, name), X, iprint=False, _key='%s:potts' % name, **kw)
    ctx.close(s.constraints, ref.potts_obs(X0, k).mean(0), 'set_up_potts:targets_are_not_the_averages_of_the_data', atol=1e-12)
    ctx.eq(s.sample, X0, 'set_up_potts:data_held')
    ctx.eq(X, X0, 'set_up_potts:data_modified')
    ctx.eq(s.n, n, 'set_up_potts:size')
    ctx.seen(name, X)


@monitor(160, 4000, shards=4)
def completion(ctx):
    rng = ctx.rng
    n = int(rng.integers(2, 9))
    m = n * (n + 1) // 2
    kind = str(rng.choice(['random', 'first', 'last', 'one', 'all', 'repeated', 'ends', 'block']))
    ix = {'random': rng.choice(m, int(rng.integers(1, m + 1)), replace=False), 'first': np.arange(int(rng.integers(1, m + 1))),
          'last': np.arange(int(rng.integers(0, m)), m), 'one': rng.integers(0, m, 1), 'all': rng.permutation(m),
          'repeated': rng.integers(0, m, 2 * m), 'ends': np.unique([0, m - 1]),
          'block': np.arange(m // 3, m // 3 + max(1, m // 3))}[kind].astype(np.int64)
    i0 = ix.copy()
    X = data(rng, n, 30)
    cls = so.SparseEnumerate if rng.random() < .7 else so.SparseMCH
    ctx.note(n=n, subset=ix, kind=kind)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        s = ctx.call(cls, X, parameter_ix=ix, iprint=False, _key=cls.__name__)
    ctx.eq(ix, i0, 'completion:subset_modified')
    u = np.unique(ix)
    for _ in range(3):
        x = rng.normal(size=len(u))
        x[rng.random(len(u)) < .2] = 0
        if rng.random() < .3:
            x = np.round(3 * x).astype(rng.choice(['i8', 'i4', 'f4']))
        x0 = x.copy()
        fill = float(rng.choice([0., 0., 1.5, -2.]))
        y = np.asarray(ctx.call(s.fill_in, x) if fill == 0 and rng.random() < .7 else ctx.call(s.fill_in, x, fill))
        want = np.full(m, fill)
        want[u] = x0
        ctx.eq(y, want, 'completion:values', fill=fill)
        ctx.eq(x, x0, 'completion:parameters_modified')
        y[:] = 9
        ctx.eq(x, x0, 'completion:result_shares_memory')
    for bad in (None, np.array([.5, 1.]), [0, 1]):
        ctx.raises(cls, 'completion:bad_subset_accepted', X, parameter_ix=bad, iprint=False)
    ctx.seen(n, u)


@monitor(200, 5000, shards=4)
def log_probabilities(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 9)) + 1
    name = str(rng.choice(PLAIN))
    X = data(rng, n)
    Y = data(rng, n, int(rng.integers(1, 300)))
    s = make(name, X, n, rng)
    s.model.sample = Y
    Y0 = Y.copy()

    def truth(Q):
        out = []
        for q in Q:
            k = q != 0
            out.append(np.mean([all(a == b for a, b in zip(q[k], y[k])) for y in Y0]))
        with np.errstate(divide='ignore'):
            return np.log(out)
    Q = np.vstack([X[:6], Y[rng.integers(0, len(Y), 8)], data(rng, n, 4)]).astype(rng.choice(['i8', 'f8', 'i1']))
    Q = Q[rng.integers(0, len(Q), int(rng.integers(1, 25)))]
    if rng.random() < .6:
        Q[rng.random(Q.shape) < float(rng.choice([.1, .5, .9]))] = 0
    if rng.random() < .2:
        Q[0] = 0
    Q0 = Q.copy()
    ctx.note(solver=name, n=n, states=Q, rows=len(Y))
    with np.errstate(divide='ignore'):
        ctx.close(ctx.call(s.logp, Q), truth(Q0), 'logp:states', atol=1e-12)
        ctx.close(ctx.call(s.logp, Q, run_checks=False), truth(Q0), 'logp:states', atol=1e-12)
        ctx.close(ctx.call(s.logp), truth(X), 'logp:data_of_the_solver', atol=1e-12)
        for q in Q[:4]:
            ctx.close(np.ravel(ctx.call(s.logp, q, _key='logp:single_state')), truth(q[None]), 'logp:single_state', atol=1e-12)
    ctx.eq(Q, Q0, 'logp:states_modified')
    ctx.eq(Y, Y0, 'logp:sample_modified')
    # all completions of a state with missing spins add up to it
    q = Q[0]
    free = np.flatnonzero(q == 0)
    if 0 < len(free) <= 6:
        F = np.tile(q, (2**len(free), 1))
        F[:, free] = ref.states(len(free), (-1, 1))
        with np.errstate(divide='ignore'):
            a, b = np.exp(s.logp(F)).sum(), np.exp(s.logp(q[None]))[0]
        ctx.close([a], [b], 'logp:completions_do_not_add_up', atol=1e-9)
        ctx.count('sums_of_completions')
    ctx.raises(s.logp, 'logp:states_of_another_alphabet_accepted', np.full((2, n), 2))
    ctx.raises(s.logp, 'logp:not_an_array_accepted', Q.tolist())
    ctx.seen(Q, Y)


@monitor(16, 300, shards=4, cost=3)
def sampled_likelihood(ctx):
    """Through the public route: the model is sampled, log p approaches the exact log probability."""
    rng = ctx.rng
    n = int(rng.integers(2, 6))
    t = rng.normal(size=n * (n + 1) // 2) * .7
    N = 4000
    m = cm.Ising(t.copy(), rng=np.random.RandomState(int(rng.integers(2**31))))
    m.setup_sampler(sample_size=N, sampler_kwargs={'iprint': False})
    s = so.Enumerate(data(rng, n), model=m, iprint=False)
    m.generate_sample(40 * n, 100 * n, parallel=bool(rng.random() < .3))
    S = ref.states(n, (-1, 1))
    p = ref.ising_model(t, n)[1]
    with np.errstate(divide='ignore'):
        q = np.exp(ctx.call(s.logp, S))
    ctx.note(n=n, theta=t)
    import mcstat
    v, k = mcstat.worst((q - p) * N, N * p * (1 - p) * 1.2 + .05)
    ctx.check(v > mcstat.ALPHA, 'sampled:log_probability', 'state %s: %g, expected %g' % (S[k], q[k], p[k]))
    ctx.close([q.sum()], [1.], 'sampled:not_normalised', atol=1e-9)
    ctx.seen(t)


@monitor(48, 800, shards=4, cost=2)
def targets_passed_in(ctx):
    rng = ctx.rng
    n = int(rng.integers(2, 5))
    m = n * (n + 1) // 2
    t = rng.normal(size=m) * .6
    name = str(rng.choice(['Enumerate', 'SparseEnumerate']))
    with_data = rng.random() < .6
    sample = np.vstack([ref.states(n, (-1, 1)), data(rng, n, 10).astype(int)]) if with_data else n
    k = {}
    u = np.arange(m)
    if name == 'SparseEnumerate':
        u = np.sort(rng.choice(m, int(rng.integers(1, m + 1)), replace=False)).astype(np.int64)
        k['parameter_ix'] = u
        t[np.setdiff1d(np.arange(m), u)] = 0
    c = ref.ising_model(t, n)[3][u]
    c0 = c.copy()
    g = rng.normal(size=len(u)) * .1
    g0 = g.copy()
    s = getattr(so, name)(sample, iprint=False, **k)
    before = None if s.constraints is None else s.constraints.copy()
    kw = {'initial_guess': g} if rng.random() < .5 else {}
    ctx.note(solver=name, n=n, theta=t, with_data=with_data)
    try:
        x, soln = s.solve(constraints=c, full_output=True, **kw)
    except ValueError as e:
        if 'Jacobian inversion' in str(e):   # of scipy's krylov method: a failure reported as such
            ctx.count('refused')
            raise Skip()
        raise
    x = np.asarray(x)
    ctx.eq(c, c0, 'targets:modified')
    ctx.eq(g, g0, 'targets:initial_guess_modified')
    ctx.eq(np.asarray(s.multipliers), x, 'targets:solution_held')
    y = s.fill_in(x) if name == 'SparseEnumerate' else x
    got = ref.ising_model(y, n)[3][u]
    ctx.count('solved', soln['success'])
    if soln['success']:   # a failure to converge is reported as such
        ctx.check(np.abs(got - c0).max() < 1e-4, 'targets:other_targets_reproduced', 'off by %g' % np.abs(got - c0).max())
    if before is not None:
        ctx.eq(s.constraints, before, 'targets:those_of_the_data_overwritten')
    ctx.seen(t, u)
