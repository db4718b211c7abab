"""C16: Monte Carlo histogram reports its convergence honestly."""
import contextlib
import inspect
import io
from functools import lru_cache
import numpy as np
import coniii.models as cm
import coniii.solvers as so
import coniii.utils as cu
import ref
from core import cache_factories, monitor, settings, Skip

NEED = ('plain',)
cache_factories(cm, so)
settings('Every sampling and every histogram approximation of a run is recorded through the solver\'s own extension points '
         '(the model\'s generate_sample, the mch_approximation argument, the custom_convergence_f argument); the recorded '
         'history is then checked offline: errors are those of the recorded samples, convergence is reported if and only '
         'if the last errors meet the tolerances, every parameter increment is minus the error times eta times '
         'min(1, distance), steps end as soon as the change exceeds the options, sample sizes follow the settings, and '
         'parameters, sampler and sample agree at the end. Solutions reported as converged are compared with exact '
         'expectation values.',
         ['samples of the underlying sampler follow the Boltzmann distribution (C09)'])


@lru_cache(None)
def setting(kind, n):
    if kind == 'ising':
        e, o, a = cu.define_ising_helper_functions()
        size, vals = n * (n + 1) // 2, (-1, 1)
        return size, vals, o, a, lambda X: ref.ising_obs(X)
    if kind == 'triplet':
        def reweight(X, d):
            f = ref.ising_obs(X, 3)
            w = np.exp(f.dot(d) - f.dot(d).max())
            return w.dot(f) / w.sum()
        return 25, (-1, 1), cu.define_triplet_helper_functions()[1], reweight, lambda X: ref.ising_obs(X, 3)
    e, o, a = cu.define_potts_helper_functions(3)
    return 3 * n + n * (n - 1) // 2, (0, 1, 2), o, a, lambda X: ref.potts_obs(X, 3)


def model_of(kind, n, rng):
    if kind == 'ising':
        return cm.Ising(np.zeros(n * (n + 1) // 2), rng=rng)
    if kind == 'triplet':
        return cm.Triplet([np.zeros(5), np.zeros(10), np.zeros(10)], rng=rng)
    return cm.Potts3(np.zeros(3 * n + n * (n - 1) // 2), rng=rng)


class Case:
    def __init__(self, ctx, sparse, kinds):
        rng = ctx.rng
        self.sparse = sparse
        self.kind = kind = kinds[int(rng.integers(len(kinds)))]
        self.n = n = 5 if kind == 'triplet' else int(rng.integers(2 if kind != 'potts' else 3, 6 if kind == 'ising' else 4))
        self.size, self.vals, self.o, self.a, self.obs = setting(kind, n)
        self.S = ref.states(n, self.vals)
        self.oS = self.obs(self.S)
        self.theta = rng.normal(size=self.size) * float(rng.choice([.1, .3, .6])) * (.5 if kind != 'ising' else 1)
        self.ix = np.arange(self.size)
        if sparse:
            self.ix = np.sort(rng.choice(self.size, int(rng.integers(1, self.size + 1)), replace=False))
            t = np.zeros(self.size)
            t[self.ix] = self.theta[self.ix]
            self.theta = t
        self.p, _, self.mean = ref.boltzmann(self.oS, self.theta)
        self.seed = int(rng.integers(2**31))
        self.samplesize = int(rng.integers(100, 500))
        self.from_data = bool(rng.random() < .4)
        N = int(rng.integers(100, 400))
        self.X = self.S[rng.choice(len(self.S), N, p=self.p)]
        self.custom_model = bool(kind != 'ising' or rng.random() < .5)
        self.ixarg = self.ix
        if sparse and rng.random() < .4:
            self.ixarg = rng.permutation(self.ix)

    def solver(self, ctx, approx=None, iprint=False, default=False):
        """default: leave out what the solver is documented to fill in by itself for pairwise Ising models."""
        rs = np.random.RandomState(self.seed)
        kw = {'sample_size': self.samplesize, 'iprint': iprint, 'mch_approximation': approx or self.a}
        if default and self.kind == 'ising':
            del kw['mch_approximation']
        if self.custom_model:
            kw['model'] = model_of(self.kind, self.n, rs)
            if not (default and self.kind == 'ising'):
                kw['calc_observables'] = self.o
        else:
            kw['rng'] = rs
        cls = so.SparseMCH if self.sparse else so.MCH
        if self.sparse:
            kw['parameter_ix'] = np.array(self.ixarg, dtype=np.int64)
        return ctx.call(cls, self.X if self.from_data else self.n, _key='MCH', **kw)

    def constraints(self):
        return (self.obs(self.X).mean(0) if self.from_data else self.mean)[self.ix]


def watch(s):
    """Record every sampling of the model: settings, parameters and the sample that came out."""
    log = []
    inner = s.model.generate_sample
    sig = inspect.signature(inner)

    def generate_sample(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        r = inner(*a, **k)
        t = b.arguments['multipliers']
        log.append({'n_iters': b.arguments['n_iters'], 'burn_in': b.arguments['burn_in'],
                    'theta': np.array(s.model.multipliers if t is None else t, dtype=float), 'sample': s.model.sample.copy(),
                    'kw': dict(b.arguments['generate_kwargs']), 'sampler': np.array(s.model.sampler.theta, dtype=float)})
        return r
    s.model.generate_sample = generate_sample
    return log


@monitor(56, 2000, shards=8, cost=2)
def protocol(ctx):
    rng = ctx.rng
    c = Case(ctx, bool(ctx.i % 2), ['ising', 'ising', 'triplet', 'potts'])
    steps = []

    def approx(sample, dlamda):
        r = c.a(sample, dlamda)
        steps.append((np.array(sample), np.array(dlamda, dtype=float), np.array(r, dtype=float), len(log)))
        return r
    s = c.solver(ctx, approx)
    log = watch(s)
    con = c.constraints()
    con0 = con.copy()
    kw = {'n_iters': int(rng.integers(1, 40)), 'burn_in': int(rng.integers(0, 50)), 'maxiter': int(rng.integers(1, 9)),
          'full_output': True}
    if not c.from_data or rng.random() < .5:
        kw['constraints'] = con
    start = np.zeros(c.ix.size)
    if rng.random() < .6:
        start = rng.normal(size=c.ix.size) * .3
        if rng.random() < .3:
            start = rng.integers(-1, 2, c.ix.size).astype(rng.choice(['i8', 'f4', 'i4']))
        kw['initial_guess'] = start.copy()
    if rng.random() < .7:
        kw['tol'] = float(10**rng.uniform(-2, 0)) if rng.random() < .85 else 0
    if rng.random() < .7:
        kw['tolNorm'] = float(10**rng.uniform(-1.5, .5)) if rng.random() < .85 else 0.
    if rng.random() < .5:
        kw['generate_kwargs'] = {'systematic_iter': True} if c.kind != 'potts' else {}

    def options():
        o = {'maxdlamda': float(10**rng.uniform(-2, .5)), 'eta': float(10**rng.uniform(-1.5, .3))}
        if rng.random() < .6:
            o['maxdlamdaNorm'] = float(10**rng.uniform(-2, .7))
        if rng.random() < .5:
            o['maxLearningSteps'] = int(rng.integers(1, 20))
        return o
    mode = ['default', 'kwargs', 'dict', 'tuple'][int(rng.integers(4))]
    opts = [options() for _ in range(12)]
    sizes = [c.samplesize] * 12
    if mode == 'default':
        opts = [{'maxdlamda': 1, 'eta': 1}] * 12
    elif mode == 'kwargs':
        opts = [opts[0]] * 12
        kw['learn_params_kwargs'] = dict(opts[0])
    elif mode == 'dict':
        kw['custom_convergence_f'] = lambda i: dict(opts[i])
    else:
        sizes = [int(rng.integers(100, 400)) for _ in range(12)]
        kw['custom_convergence_f'] = lambda i: (dict(opts[i]), sizes[i])
    ctx.note(kind=c.kind, n=c.n, sparse=c.sparse, ix=c.ixarg, theta=c.theta, mode=mode, samplesize=c.samplesize,
             **{k: v for k, v in kw.items() if not callable(v)}, options=opts[:kw['maxiter']], sizes=sizes[:kw['maxiter']])
    tol = kw.get('tol', 1 / np.sqrt(c.samplesize))
    tolnorm = kw.get('tolNorm', np.sqrt(1 / c.samplesize) * c.size)
    x, flag, err = ctx.call(s.solve, _key='protocol:solve', **kw)
    x, err = np.asarray(x), np.asarray(err)
    if not ctx.eq(x.shape, (c.ix.size,), 'protocol:shape'):
        return
    nit = err.shape[0] - 1
    ctx.count('iterations', max(nit, 0))
    ctx.count('approximations', len(steps))
    ctx.count('converged', flag == 0)
    # --- the recorded samples
    for e in log:
        ctx.check(e['n_iters'] == kw['n_iters'] and e['burn_in'] == kw['burn_in'], 'protocol:sampling_settings', got=[e['n_iters'], e['burn_in']])
        ctx.check(e['kw'] == kw.get('generate_kwargs', {}), 'protocol:generate_kwargs', got=e['kw'])
        ctx.eq(e['sampler'], e['theta'], 'protocol:sampler_parameters')
    if not ctx.check(len(log) in (nit + 1, nit + 2), 'protocol:history_length', got=[len(log), nit + 1]):
        return
    est = [c.obs(e['sample']).mean(0)[c.ix] for e in log]
    for k in range(nit + 1):
        ctx.close(err[k], est[k] - con0, 'protocol:error_history', atol=1e-12, rtol=1e-9)
    for k, e in enumerate(log):
        want = c.samplesize if k == 0 else sizes[min(k, nit) - 1]
        ctx.eq(e['sample'].shape, (want, c.n), 'protocol:sample_size', 'sampling %d' % k)
    # --- convergence
    meets = [np.linalg.norm(d) < tolnorm and bool((np.abs(d) < tol).all()) for d in (est[k] - con0 for k in range(nit + 1))]
    near = any(abs(np.linalg.norm(est[k] - con0) - tolnorm) < 1e-9 or (np.abs(np.abs(est[k] - con0) - tol) < 1e-9).any() for k in range(nit + 1))
    if not near and nit >= 1:
        ctx.check((flag == 0) == meets[-1], 'protocol:convergence_flag', 'flag %r, tolerances met: %r' % (flag, meets[-1]))
        ctx.check(not any(meets[1:-1]), 'protocol:went_on_after_convergence')
        ctx.check(flag in (0, 1), 'protocol:flag_value')
    ctx.check(1 <= nit <= kw['maxiter'], 'protocol:too_many_iterations', got=nit)
    if flag == 1:
        ctx.check(nit == kw['maxiter'], 'protocol:gave_up_early', got=nit)
    # --- parameters
    full = np.zeros(c.size)
    full[c.ix] = start
    ctx.close(log[0]['theta'], full, 'protocol:start', atol=0, rtol=0)
    for k in range(1, nit + 1):
        o = opts[k - 1]
        mine = [t for t in steps if t[3] == k]
        if not ctx.check(len(mine) >= 1, 'protocol:step_without_approximation'):
            continue
        limit, limitn, most = o['maxdlamda'], o.get('maxdlamdaNorm', 1), o.get('maxLearningSteps', 50)
        last, d0, dist = est[k - 1], np.zeros(c.ix.size), None
        for j, (smp, d, r, _) in enumerate(mine):
            ctx.eq(smp, log[k - 1]['sample'], 'protocol:approximation_of_another_sample')
            if d.shape == (c.size,):
                ctx.check(not np.delete(d, c.ix).any(), 'protocol:other_parameters_changed')
                d, r = d[c.ix], r[c.ix]
            inc, e = d - d0, -(last - con0)
            c1 = o['eta'] * (1. if dist is None else min(dist, 1.))
            ok = np.allclose(inc, e * c1, rtol=1e-8, atol=1e-12 + 1e-10 * np.abs(d).max())
            ctx.check(ok, 'protocol:increment', 'step %d.%d' % (k, j), got=inc, want=e * c1)
            over = np.linalg.norm(d) > limitn or (np.abs(d) > limit).any()
            if j < len(mine) - 1:
                ctx.check(not over, 'protocol:went_on_after_exceeding_the_step_options', got=d)
            d0, last = d, r
            dist = np.linalg.norm(last - con0)
        ctx.check(len(mine) <= most + 1, 'protocol:too_many_approximations', got=len(mine))
        ctx.check(over or len(mine) >= most, 'protocol:step_ended_early', got=len(mine))
        full = log[k - 1]['theta'].copy()
        full[c.ix] += d0
        ctx.close(log[k]['theta'], full, 'protocol:step', rtol=1e-12, atol=1e-12)
    # --- the state left behind
    ctx.eq(np.asarray(s.multipliers)[c.ix], x, 'protocol:multipliers_attribute')
    ctx.check(not np.delete(np.asarray(s.multipliers), c.ix).any(), 'protocol:other_parameters_not_zero')
    ctx.eq(log[nit]['theta'], s.multipliers, 'protocol:returned_parameters')
    ctx.eq(log[-1]['theta'], s.multipliers, 'protocol:last_sample_from_other_parameters')
    ctx.eq(s.model.sampler.theta, s.multipliers, 'protocol:sampler_left_with_other_parameters')
    ctx.eq(s.model.sample, log[-1]['sample'], 'protocol:sample_left_behind')
    ctx.eq(con, con0, 'protocol:constraints_modified')
    if 'initial_guess' in kw:
        ctx.eq(kw['initial_guess'], start, 'protocol:initial_guess_modified')
    ctx.seen(x)
    # --- the same again: with the same seed everything repeats
    # whatever is printed and whether or not the functions for pairwise Ising models are spelled out
    s2 = c.solver(ctx, iprint=bool(ctx.i % 3), default=bool(rng.random() < .6))
    kw['full_output'] = False
    kw['iprint'] = [False, True, 'detailed'][ctx.i % 3]
    with contextlib.redirect_stdout(io.StringIO()):
        y = ctx.call(s2.solve, _key='protocol:solve', **kw)
    ctx.eq(y, x, 'protocol:repeatable')
    ctx.eq(s2.model.sample, s.model.sample, 'protocol:repeatable_sample')


@monitor(16, 300, shards=8, cost=6)
def converged(ctx):
    """What is reported as converged is close to the exact solution, and attainable targets are reached."""
    rng = ctx.rng
    c = Case(ctx, bool(ctx.i % 2), ['ising', 'ising', 'potts'])
    c.samplesize = 20000
    s = c.solver(ctx)
    con = c.constraints()
    ctx.note(kind=c.kind, n=c.n, sparse=c.sparse, ix=c.ix, theta=c.theta, from_data=c.from_data)
    kw = {'constraints': con} if not c.from_data else {}
    tol, tn = .05, .05 * np.sqrt(c.ix.size)
    x, flag, err = ctx.call(s.solve, n_iters=12 * c.n, burn_in=60 * c.n, tol=tol, tolNorm=tn, maxiter=40, full_output=True,
                            _key='converged:solve', learn_params_kwargs={'maxdlamda': .4, 'maxdlamdaNorm': 1., 'eta': .5}, **kw)
    full = np.zeros(c.size)
    full[c.ix] = x
    p, _, m = ref.boltzmann(c.oS, full)
    sd = np.sqrt(np.maximum(p.dot((c.oS - m)**2)[c.ix], 0) / c.samplesize)
    if flag == 0:
        ctx.check((np.abs(m[c.ix] - con) < tol + 12 * sd + 1e-3).all(), 'converged:not_the_solution',
                  'off by %g' % np.abs(m[c.ix] - con).max(), got=m[c.ix], want=con)
    if not c.from_data:
        ctx.check(flag == 0, 'converged:attainable_targets_not_reached', 'error %r' % np.abs(err[-1]).max())
    # the sample left behind is one of the model at these parameters
    o = c.obs(s.model.sample).mean(0)
    v = np.sqrt(np.maximum(p.dot((c.oS - m)**2), 0) / len(s.model.sample))
    ctx.check((np.abs(o - m) < 12 * v + 5e-3).all(), 'converged:sample_of_other_parameters', 'off by %g' % np.abs(o - m).max())
    ctx.count('converged', flag == 0)
    ctx.seen(x)


@monitor(12, 200, shards=4, cost=2)
def jacobian(ctx):
    """estimate_jac(): derivative of the reweighted averages = covariances of the observables in the sample."""
    rng = ctx.rng
    c = Case(ctx, False, ['ising', 'triplet', 'potts'])
    s = c.solver(ctx)
    ctx.call(s.solve, constraints=c.constraints(), n_iters=10, burn_in=10, maxiter=1, _key='jacobian:solve')
    o = c.obs(s.model.sample)
    J = np.asarray(ctx.call(s.estimate_jac, float(rng.choice([1e-3, 1e-4]))))
    ctx.note(kind=c.kind, n=c.n, theta=c.theta)
    ctx.close(J, np.cov(o.T, bias=True).reshape(J.shape), 'jacobian:covariance', atol=1e-4, rtol=1e-3)
    ctx.seen(s.model.sample)
