"""C13: the exact solver returns parameters that reproduce the constraints."""
import itertools

import numpy as np
from scipy.optimize import nnls
import coniii.models as cm
import coniii.solvers as so
import coniii.utils as cu
import ref
from core import cache_factories, monitor, settings, Skip

NEED = ('plain',)
cache_factories(cm, so)
settings('Every solution returned by Enumerate and SparseEnumerate is judged by an independent brute-force evaluation of the '
         'model at the returned parameters: if success is reported the constrained expectation values are met, for '
         'moderate models the true parameters are found, for subsets all other parameters are exactly zero, and '
         'unattainable constraints are not reported as solved.  Constraints come from data, from exact values, for Ising, '
         'triplet and user-defined models, with and without initial guesses, bounds and other scipy methods.',
         ['scipy root finders report success as documented for the tolerances they were given'], scale=3)


def exact(n, theta, order=2, values=(-1, 1)):
    return ref.ising_model(theta, n, values, order)[3]


def model(rng, n, scale):
    theta = rng.normal(size=n * (n + 1) // 2)
    theta[:n] *= scale
    theta[n:] *= scale / np.sqrt(n)
    return theta


def find(ctx, s, key, guess=None, **kw):
    """Solve; where the default root finder honestly gives up, the documentation says to try others."""
    tries = [{}] if 'scipy_solver_kwargs' in kw else [{}, {'scipy_solver_kwargs': {'method': 'hybr'}},
                                                      {'scipy_solver_kwargs': {'method': 'broyden1'}}]
    for t in tries:
        try:
            x, soln = s.solve(full_output=True, **kw, **t)
        except ValueError as e:
            if 'Jacobian' not in str(e):
                raise
            ctx.count('jacobian_error')
            continue
        ctx.count('by_default_method' if not t else 'by_other_method')
        if soln['success']:
            return x, soln
    return ctx.call(s.solve, full_output=True, _key=key, **kw)


def fisher(n, theta, order=2):
    S, p, lz, m = ref.ising_model(theta, n, (-1, 1), order)
    o = ref.ising_obs(S, order)
    C = (o * p[:, None]).T.dot(o) - np.outer(m, m)
    return np.linalg.eigvalsh(C)[0], np.linalg.eigvalsh(C)[-1]


def judge(ctx, s, x, soln, n, c, theta, key, order=2, must=True, ftol=1e-7, ix=None, bound=50):
    """x: returned parameters, c: constraints (for ix)."""
    full = x
    if ix is not None:
        full = np.asarray(ctx.call(s.fill_in, x, _key=key + ':fill_in'))
        size = n * (n + 1) // 2
        if not ctx.eq(full.shape, (size,), key + ':fill_in_shape'):
            return
        rest = np.setdiff1d(np.arange(size), ix)
        ctx.eq(full[rest], np.zeros(rest.size), key + ':others_exactly_zero')
        ctx.eq(full[ix], x, key + ':fill_in_positions')
    m = exact(n, full, order)
    if ix is not None:
        m = m[ix]
    r = np.abs(m - c).max()
    if soln['success']:
        ctx.count('reported_success')
        ctx.check(np.isfinite(full).all() and r < ftol, key + ':success_without_solution',
                  'constraints missed by %g' % r, parameters=full, constraints=c, true=theta)
        if bound is not None:
            ctx.check(np.abs(full).max() <= bound, key + ':bound_on_parameters_exceeded', '%g > %g' % (np.abs(full).max(), bound))
    else:
        ctx.count('reported_failure')
    if must:
        ctx.check(r < 1e-6, key + ':attainable_constraints_missed', 'by %g (success=%s)' % (r, soln['success']),
                  parameters=full, constraints=c, true=theta)
        if theta is not None and r < 1e-6:
            lo = fisher(n, full, order)[0] if ix is None else .05
            want = theta if ix is None else theta[ix]
            ctx.check(np.abs(x - want).max() < 1e-5 + 20 * r / lo, key + ':not_the_true_parameters',
                      'off by %g' % np.abs(x - want).max(), parameters=x, true=want)
    ctx.eq(s.multipliers, x, key + ':multipliers_attribute')


@monitor(128, 1200, shards=8)
def ising(ctx):
    """Exact constraints of a random model, many ways of calling."""
    rng = ctx.rng
    n = int(rng.choice([6, 7, 8, 9] if ctx.i % 32 == 5 else [2, 3, 4, 5, 6, 7] if ctx.thorough or ctx.i % 8 == 0 else [2, 3, 4, 5]))
    theta = model(rng, n, rng.choice([.2, .5, .8]))
    c = exact(n, theta)
    c0 = c.copy()
    how = int(rng.integers(0, 4))
    kw = {}
    if how == 0:
        s = so.Enumerate(n, iprint=False)
    elif how == 1:
        s = so.Enumerate(rng.choice([-1, 1], size=(50, n)), iprint=False)
    elif how == 2:
        s = so.Enumerate(n, model=cm.Ising(np.zeros(theta.size)), calc_observables=cu.define_ising_helper_functions()[1], iprint=False)
    else:
        s = so.Enumerate(n, model=cm.Ising(rng.normal(size=theta.size)), iprint=False)
        s.constraints = c
    if how != 3:
        kw['constraints'] = c
    g = None
    if rng.random() < .5:
        g = theta * .7 + rng.normal(size=theta.size) * .05
        kw['initial_guess'] = g
        g0 = g.copy()
    if rng.random() < .3:
        kw['max_param_value'] = [None, 20, 50][int(rng.integers(3))]
    if n < 5 and rng.random() < .3:
        kw['scipy_solver_kwargs'] = {'method': 'hybr'}
    ctx.note(n=n, theta=theta, how=how, kw={k: v for k, v in kw.items() if k != 'constraints'})
    before = None if s.constraints is None else np.array(s.constraints)
    x, soln = find(ctx, s, 'ising', **kw)
    judge(ctx, s, x, soln, n, c, theta, 'ising', bound=kw.get('max_param_value', 50))
    ctx.eq(c, c0, 'ising:constraints_modified')
    if before is not None:
        ctx.eq(s.constraints, before, 'ising:own_constraints_modified')
    if g is not None:
        ctx.eq(g, g0, 'ising:initial_guess_modified')
    if n < 5:
        y, soln2 = find(ctx, s, 'ising', **kw)
        ctx.eq(y, x, 'ising:repeatable')
        if soln['success'] and 'scipy_solver_kwargs' in kw:
            y = ctx.call(s.solve, _key='ising', **kw)
            ctx.check(isinstance(y, np.ndarray) and y.shape == x.shape and (y == x).all(), 'ising:brief_output')
    ctx.seen(theta, how)


@monitor(64, 600, shards=8)
def data(ctx):
    """Constraints taken from the sample."""
    rng = ctx.rng
    n = int(rng.integers(2, 6))
    theta = model(rng, n, .5)
    S, p, _, _ = ref.ising_model(theta, n)
    K = int(rng.integers(60, 400))
    X = np.vstack([S, S[rng.choice(len(S), size=K, p=p)]])  # full support: a solution exists
    X = X[rng.permutation(len(X))].astype(rng.choice(['i8', 'i4', 'f8', 'i1']))
    X0 = X.copy()
    c = ref.ising_obs(X).mean(0)
    s = ctx.call(so.Enumerate, X, iprint=False)
    ctx.note(n=n, sample_size=len(X), dtype=str(X.dtype))
    x, soln = find(ctx, s, 'data')
    judge(ctx, s, x, soln, n, c, None, 'data')
    ctx.eq(X, X0, 'data:modified')
    # the constraints argument overrides the data
    t2 = model(rng, n, .4)
    c2 = exact(n, t2)
    x, soln = find(ctx, s, 'data:override', constraints=c2)
    judge(ctx, s, x, soln, n, c2, t2, 'data:override')
    ctx.close(s.constraints, c, 'data:own_constraints_changed')
    ctx.seen(X)


@monitor(96, 1000, shards=8)
def sparse(ctx):
    """Any subset of parameters from one to all of them."""
    rng = ctx.rng
    n = int(rng.integers(2, 6))
    size = n * (n + 1) // 2
    k = [1, size, max(1, size - 1), int(rng.integers(1, size + 1))][ctx.i % 4]
    ix = np.sort(rng.choice(size, k, replace=False))
    if ctx.i % 12 == 0:
        ix = np.array([[0], [size - 1], [n]][ctx.i // 12 % 3])
    theta = np.zeros(size)
    theta[ix] = model(rng, n, rng.choice([.3, .6]))[ix]
    arg = ix.copy() if rng.random() < .7 else np.concatenate([ix, ix[:1]])
    if rng.random() < .4:
        arg = rng.permutation(arg)               # order and repetitions do not matter
    how = int(rng.integers(0, 3))
    kw = {}
    if how == 0:
        S, p, _, _ = ref.ising_model(theta, n)
        X = np.vstack([S, S[rng.choice(len(S), size=200, p=p)]])
        s = ctx.call(so.SparseEnumerate, X, parameter_ix=arg, iprint=False)
        c, t = ref.ising_obs(X).mean(0)[ix], None
    else:
        s = ctx.call(so.SparseEnumerate, n, parameter_ix=arg, iprint=False)
        c, t = exact(n, theta)[ix], theta
        kw['constraints'] = c
    if how == 2:
        kw['initial_guess'] = theta[ix] * .8
    ctx.note(n=n, ix=arg, theta=theta, how=how)
    x, soln = find(ctx, s, 'sparse', **kw)
    if ctx.eq(np.shape(x), (ix.size,), 'sparse:shape'):
        judge(ctx, s, x, soln, n, c, t, 'sparse', ix=ix)
        if soln['success'] and ctx.i % 4 == 0:
            try:
                y = s.solve(**{**kw, 'scipy_solver_kwargs': {'method': 'hybr'}})
                ctx.check(isinstance(y, np.ndarray) and y.shape == x.shape, 'sparse:brief_output')
                ctx.eq(s.multipliers, y, 'sparse:brief_output_attribute')
            except ValueError as e:
                ctx.check('Jacobian' in str(e), 'sparse:brief_output', str(e))
    ctx.seen(ix, theta, how)


@monitor(48, 300, shards=8)
def hostile(ctx):
    """Constraints at or outside the boundary, far initial guesses, tight bounds: success must be true."""
    rng = ctx.rng
    n = int(rng.integers(2, 5))
    size = n * (n + 1) // 2
    kind = ctx.i % 6
    theta = model(rng, n, rng.choice([.5, 3.]))
    c, kw = exact(n, theta), {}
    if kind == 0:  # a mean beyond one
        c = c.copy()
        c[rng.integers(n)] = rng.choice([-1, 1]) * 1.3
    elif kind == 1:  # inconsistent pair
        c = np.concatenate([np.full(n, .9), np.full(size - n, -.9)])
    elif kind == 2:
        kw['initial_guess'] = rng.normal(size=size) * 4
    elif kind == 3:
        kw['max_param_value'] = np.abs(theta).max() * .7
    elif kind == 4:  # perfectly correlated spins
        c = c.copy()
        c[n] = 1.
    else:
        kw['scipy_solver_kwargs'] = {'method': ['hybr', 'broyden1', 'df-sane'][int(rng.integers(3))]}
    sparse = rng.random() < .3
    if sparse:
        ix = np.sort(rng.choice(size, int(rng.integers(1, size + 1)), replace=False))
        s = so.SparseEnumerate(n, parameter_ix=ix, iprint=False)
        c = c[ix]
        if 'initial_guess' in kw:
            kw['initial_guess'] = kw['initial_guess'][ix]
    else:
        s, ix = so.Enumerate(n, iprint=False), None
    ctx.note(n=n, kind=kind, theta=theta, sparse=sparse, kw=kw)
    try:
        x, soln = s.solve(constraints=c, full_output=True, **kw)
    except Exception:  # a numerical failure that is reported
        ctx.count('reported_exception')
        ctx.nchecks += 1
        ctx.seen(kind, n, theta)
        return
    method = kw.get('scipy_solver_kwargs', {}).get('method', 'krylov')
    # broyden1/df-sane use scipy's own, looser, default tolerances
    judge(ctx, s, x, soln, n, c, None, 'hostile', ix=ix, must=False,
          ftol=1e-7 if method == 'krylov' else 1e-3, bound=kw.get('max_param_value', 50))
    ctx.seen(kind, n, theta)


@monitor(32, 200, shards=8)
def minimiser(ctx):
    """scipy.optimize.minimize instead of root."""
    rng = ctx.rng
    n = int(rng.integers(2, 4))
    theta = model(rng, n, .5)
    size = theta.size
    ix = None
    c = exact(n, theta)
    if ctx.i % 2:
        ix = np.sort(rng.choice(size, int(rng.integers(1, size + 1)), replace=False))
        t = np.zeros(size)
        t[ix] = theta[ix]
        theta = t
        c = exact(n, theta)[ix]
        s = so.SparseEnumerate(n, parameter_ix=ix, iprint=False)
    else:
        s = so.Enumerate(n, iprint=False)
    kw = dict(use_root=False, scipy_solver_kwargs={'method': 'Nelder-Mead', 'options': {'xatol': 1e-9, 'fatol': 1e-9,
                                                                                       'maxiter': 20000, 'maxfev': 40000}})
    if rng.random() < .5:
        kw['max_param_value'] = None
    ctx.note(n=n, theta=theta, ix=ix)
    g = {}
    for t in range(12):  # a simplex may stall, another method or start helps
        if t % 2 and kw['scipy_solver_kwargs']['method'] == 'Nelder-Mead':
            kw['scipy_solver_kwargs'] = {'method': 'BFGS'}
            g = {}
        elif t % 2:
            g = {'initial_guess': rng.normal(size=c.size) * .2}
        x, soln = ctx.call(s.solve, constraints=c, full_output=True, _key='minimiser', **kw, **g)
        full = x
        if ix is not None:
            full = np.zeros(size)
            full[ix] = x
        r = exact(n, full)[ix if ix is not None else slice(None)] - c
        ctx.close(soln['fun'], np.linalg.norm(r), 'minimiser:objective_is_the_error', rtol=1e-6, atol=1e-9)
        ctx.eq(s.multipliers, x, 'minimiser:multipliers_attribute')
        if np.abs(r).max() < 1e-6:
            break
        g = {'initial_guess': x}
    # within bounds, although the solution lies outside of them
    b = float(np.abs(theta).max() * rng.uniform(.3, .9))
    for meth in ('Nelder-Mead', 'Powell'):
        x = ctx.call(s.solve, constraints=c, use_root=False, max_param_value=b, scipy_solver_kwargs={'method': meth, 'options': {'maxfev': 3000}},
                     _key='minimiser')
        ctx.check(isinstance(x, np.ndarray) and x.shape == c.shape, 'minimiser:brief_output')
        ctx.check(np.abs(x).max() <= b, 'minimiser:bound_on_parameters_exceeded', '%r > %g' % (np.abs(x).max(), b))
    ctx.check(np.abs(r).max() < 1e-4, 'minimiser:attainable_constraints_missed', 'by %g' % np.abs(r).max())
    ctx.seen(theta, ix)


@monitor(24, 200, shards=4)
def other_models(ctx):
    """A triplet model and a model defined by the user, for which only expectation values are known."""
    rng = ctx.rng
    if ctx.i % 2:
        n, order = 5, 3
        size = 25
        theta = np.concatenate([rng.normal(size=5) * .3, rng.normal(size=10) * .2, rng.normal(size=10) * .1])
        m = cm.Triplet([np.zeros(5), np.zeros(10), np.zeros(10)])
        obs = cu.define_triplet_helper_functions()[1]
        s = ctx.call(so.Enumerate, n, model=m, calc_observables=obs, iprint=False)
        c = exact(n, theta, 3)
        x, soln = find(ctx, s, 'triplet', constraints=c)
        judge(ctx, s, x, soln, n, c, theta, 'triplet', order=3)
    else:
        n = int(rng.integers(2, 5))
        S = ref.states(n, (0, 1))
        O = np.hstack([S, (S.sum(1)[:, None] == np.arange(1, 3)[None])]).astype(float)  # fields and two counts
        theta = rng.normal(size=O.shape[1]) * .5

        class Mine:
            multipliers = np.zeros(O.shape[1])

            @staticmethod
            def calc_observables(x):
                return ref.boltzmann(O, x)[2]
        s = ctx.call(so.Enumerate, n, model=Mine(), calc_observables=lambda X: X, iprint=False)
        c = Mine.calc_observables(theta)
        x, soln = find(ctx, s, 'own_model', constraints=c)
        if soln['success']:
            ctx.check(np.abs(Mine.calc_observables(x) - c).max() < 1e-8, 'own_model:success_without_solution')
        ctx.check(np.abs(Mine.calc_observables(x) - c).max() < 1e-6, 'own_model:attainable_constraints_missed')
    ctx.note(n=n, theta=theta)
    ctx.seen(theta)
