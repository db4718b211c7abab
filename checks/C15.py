"""C15: pseudolikelihood solutions maximise the pseudolikelihood."""
import numpy as np
from scipy.optimize import OptimizeResult
import coniii.models as cm
import coniii.solvers as so
import coniii.utils as cu
import ref
from core import cache_factories, monitor, settings, Skip

NEED = ('plain',)
cache_factories(cm, so)
settings('The objective handed to the optimiser is observed through scipy\'s own interface for user-supplied methods and '
         'compared, value and gradient, with the conditional probability of each single spin computed from the energy '
         'definition over the alphabet; returned solutions are judged by the same definition (Newton decrement of the '
         'convex negative log pseudolikelihood), and for data whose frequencies are exactly those of a model they must be '
         'its parameters (up to the gauge of the Potts fields).',
         ['the default optimiser reaches its documented tolerance on these small, well conditioned problems'], scale=3)


class Model:
    """Conditional log likelihood from the definition: obs(X) -> features, alphabet values."""
    def __init__(self, obs, values):
        self.obs, self.values = obs, values

    def spin(self, r, X, theta, hess=False):
        alt = []
        for v in self.values:
            Y = X.copy()
            Y[:, r] = v
            alt.append(self.obs(Y))
        alt = np.array(alt)                       # values, samples, parameters
        le = alt.dot(theta)
        m = le.max(0)
        w = np.exp(le - m)
        z = w.sum(0)
        p = w / z
        o = self.obs(X)
        val = (o.dot(theta) - m - np.log(z)).sum()
        mean = (p[:, :, None] * alt).sum(0)
        g = (o - mean).sum(0)
        if not hess:
            return val, g
        d = alt - mean
        H = np.einsum('vs,vsi,vsj->ij', p, d, d)
        return val, g, H

    def total(self, X, theta, hess=False):
        out = [self.spin(r, X, theta, hess) for r in range(X.shape[1])]
        return tuple(sum(o[i] for o in out) for i in range(3 if hess else 2))


def triplet_helpers(n):
    """User-defined functions for a model with all interactions up to third order."""
    sets = [c for k in (1, 2, 3) for c in __import__('itertools').combinations(range(n), k)]

    def get_multipliers_r(r, multipliers):
        ix = [i for i, c in enumerate(sets) if r in c]
        return np.asarray(multipliers)[ix], ix

    def calc_observables_r(r, X):
        ix = [i for i, c in enumerate(sets) if r in c]
        return ref.ising_obs(X, 3)[:, ix]
    return get_multipliers_r, calc_observables_r


def spins_of(kind, n, k):
    return {'ising': (-1, 1), 'general': (-1, 1), 'triplet': (-1, 1), 'potts': tuple(range(k))}[kind]


def build(ctx, kind, X, n, k):
    if kind in ('ising', 'general'):
        s = ctx.call(so.Pseudo, X, iprint=False, _key='Pseudo')
        return s, Model(lambda Y: ref.ising_obs(Y), (-1, 1)), n * (n + 1) // 2
    if kind == 'triplet':
        gm, co = triplet_helpers(n)
        m = cm.Triplet([np.zeros(5), np.zeros(10), np.zeros(10)])
        s = ctx.call(so.Pseudo, X, model=m, calc_observables=lambda Y: ref.ising_obs(Y, 3), get_multipliers_r=gm,
                     calc_observables_r=co, iprint=False, _key='Pseudo')
        return s, Model(lambda Y: ref.ising_obs(Y, 3), (-1, 1)), 25
    gm, co = cu.define_pseudo_potts_helper_functions(n, k)
    m = cm.Potts3(np.zeros(3 * n + n * (n - 1) // 2))
    s = ctx.call(so.Pseudo, X, model=m, calc_observables=cu.define_potts_helper_functions(k)[1], get_multipliers_r=gm,
                 calc_observables_r=co, k=k, iprint=False, _key='Pseudo')
    return s, Model(lambda Y: ref.potts_obs(Y, k), tuple(range(k))), k * n + n * (n - 1) // 2


KINDS = ['ising', 'general', 'potts', 'ising', 'triplet', 'potts']


@monitor(72, 3000, shards=8)
def objective(ctx):
    """Everything the optimiser is given, observed at random parameters."""
    rng = ctx.rng
    kind = KINDS[ctx.i % len(KINDS)]
    k = int(rng.choice([3, 3, 2, 4])) if kind == 'potts' else 2
    n = 5 if kind == 'triplet' else int(rng.integers(2, 7 if kind != 'potts' else 6))
    vals = spins_of(kind, n, k)
    X = rng.choice(vals, size=(int(rng.integers(1, 60)), n)).astype('i8')
    if rng.random() < .3:
        X[:, int(rng.integers(n))] = rng.choice(vals)
    if rng.random() < .3:
        X[:, 0] = X[:, n - 1]
    X0 = X.copy()
    s, M, size = build(ctx, kind, X, n, k)
    guess = rng.normal(size=size) * float(rng.choice([0, .5, 2]))
    if rng.random() < .3:
        guess = rng.integers(-2, 3, size).astype(rng.choice(['i8', 'i4', 'i1', 'f4']))
    g0 = guess.copy()
    scale = float(rng.choice([.1, 1, 4, 300]))
    kw = {}
    cost, jac = (lambda x: 0.), (lambda x: 0.)
    if kind == 'potts' and rng.random() < .5:
        lam = rng.random(size)
        cost, jac = (lambda x: (lam * x**2).sum()), (lambda x: 2 * lam * x)
        kw = {'cost_fcn': cost, 'cost_fcn_jac': jac}
    ctx.note(kind=kind, n=n, k=k, X=X, scale=scale, cost=bool(kw))
    problems = []

    def method(fun, x0, args=(), jac=None, **opt):
        """Stands in for the optimiser: looks at the objective and its derivative at several points."""
        pts = [np.asarray(x0, dtype=float)] + [rng.normal(size=np.size(x0)) * scale for _ in range(3)]
        rec = []
        for x in pts:
            f = fun(x.copy(), *args)
            gr = jac(x.copy(), *args) if callable(jac) else None
            rec.append((x.copy(), float(np.ravel(f)[0]), None if gr is None else np.array(gr, dtype=float)))
        problems.append(rec)
        return OptimizeResult(x=np.array(pts[-1]), fun=rec[-1][1], success=True, nit=0, status=0, message='observed')
    args = {} if kind != 'general' else {'force_general': True}
    if rng.random() < .7:
        args['initial_guess'] = guess
    r = ctx.call(s.solve, solver_kwargs={'method': method}, full_output=bool(rng.random() < .5), _key='objective:solve', **args, **kw)
    del r
    ctx.eq(X, X0, 'objective:data_modified')
    ctx.eq(guess, g0, 'objective:initial_guess_modified')
    if kind == 'ising':
        if not ctx.eq(len(problems), n, 'objective:one_problem_per_spin'):
            return
        pr = list(enumerate(problems))
    else:
        if not ctx.eq(len(problems), 1, 'objective:one_problem'):
            return
        pr = [(None, problems[0])]
        if 'initial_guess' in args:
            ctx.eq(problems[0][0][0], guess, 'objective:start')
    for r, rec in pr:
        for x, f, g in rec:
            if r is None:
                theta = x
                v, d = M.total(X, theta)
                v, d = -v + cost(x), -d + jac(x)
            else:
                P = ref.pairs(n)
                ix = [r] + [n + P.index((min(r, j), max(r, j))) for j in range(n) if j != r]
                theta = np.zeros(size)
                theta[ix] = x
                v, d = M.spin(r, X, theta)
                v, d = -v, -d[ix]
            sc = 1 + len(X) * n
            ctx.close([f], [v], 'objective:%s:value' % kind, rtol=1e-9, atol=1e-9 * sc)
            if g is not None:
                ctx.close(g, d, 'objective:%s:gradient' % kind, rtol=1e-8, atol=1e-8 * sc)
            ctx.count('objective_points')
    ctx.seen(X, scale, kind)


def exact_data(rng, kind, n, k, kmax=2):
    """Parameters in units that make all Boltzmann weights integers, and the sample with exactly these frequencies."""
    vals = spins_of(kind, n, k)
    S = ref.states(n, vals)
    if kind == 'potts':
        o, unit = ref.potts_obs(S, k), np.log(2)
        nf = k * n
    else:
        o, unit = ref.ising_obs(S, 3 if kind == 'triplet' else 2), np.log(2) / 2
        nf = n
    t = np.zeros(o.shape[1])
    t[:nf] = rng.integers(-kmax, kmax + 1, nf)
    if kind == 'potts':
        t[:nf] = np.maximum(t[:nf], 0)
    t[nf:] = rng.integers(-1, 2, t.size - nf) * (rng.random(t.size - nf) < 3. / n)
    if kind == 'triplet':
        t = t * (rng.random(t.size) < .35)
    e = o.dot(t) * unit / np.log(2)
    e = np.round(e - e.min(), 6)
    if e.max() > 9 or not np.allclose(e, np.round(e)):
        return exact_data(rng, kind, n, k, max(kmax - 1, 1))
    return t * unit, np.repeat(S, 2**np.round(e).astype(int), axis=0)


def gauge(theta, n, k):
    t = np.array(theta, dtype=float)
    h = t[:k * n].reshape(k, n)
    t[:k * n] = (h - h.mean(0)).ravel()
    return t


@monitor(36, 700, shards=8, cost=4)
def solution(ctx):
    rng = ctx.rng
    kind = KINDS[ctx.i % len(KINDS)]
    k = 3 if kind == 'potts' else 2
    n = 5 if kind == 'triplet' else int(rng.integers(2, 6 if kind != 'potts' else 4 + ctx.thorough))
    exact = bool(rng.random() < .6)
    vals = spins_of(kind, n, k)
    S = ref.states(n, vals)
    if exact:
        theta, X = exact_data(rng, kind, n, k)
    else:
        X = np.vstack([S, S[rng.choice(len(S), size=int(rng.integers(0, 300)), p=rng.dirichlet(np.ones(len(S))))]])
        theta = None
    X = X[rng.permutation(len(X))]
    X0 = X.copy()
    s, M, size = build(ctx, kind, X, n, k)
    kw = {'force_general': True} if kind == 'general' else {}
    if rng.random() < .5:
        kw['initial_guess'] = rng.normal(size=size) * .5 if rng.random() < .6 else rng.integers(-1, 2, size)
        g0 = kw['initial_guess'].copy()
    if rng.random() < .3:
        kw['solver_kwargs'] = {'method': 'L-BFGS-B', 'options': {'ftol': 1e-15, 'gtol': 1e-7}}
    ctx.note(kind=kind, n=n, k=k, samples=len(X), exact=exact, theta=theta, solve=list(kw))
    x, soln = ctx.call(s.solve, full_output=True, _key='solution', **kw)
    x = np.asarray(x)
    if not ctx.eq(x.shape, (size,), 'solution:shape'):
        return
    ctx.eq(x, s.multipliers, 'solution:multipliers_attribute')
    ctx.eq(X, X0, 'solution:data_modified')
    if 'initial_guess' in kw:
        ctx.eq(kw['initial_guess'], g0, 'solution:initial_guess_modified')

    def dec(g, H):
        w, v = np.linalg.eigh(H)
        c = v.T.dot(g)
        return .5 * (c**2 / np.maximum(w, 1e-6 * w.max())).sum() / len(X), w[0] / w.max()
    if kind == 'ising':
        # every spin has its own estimate of its field and couplings; the couplings are the averages of both estimates
        if not ctx.eq(len(soln), n, 'solution:one_problem_per_spin'):
            return
        P = ref.pairs(n)
        h, J = np.zeros(n), np.zeros((n, n))
        for r in range(n):
            o = [j for j in range(n) if j != r]
            ix = [r] + [n + P.index((min(r, j), max(r, j))) for j in o]
            t = np.zeros(size)
            t[ix] = soln[r]['x']
            v, g, H = M.spin(r, X, t, hess=True)
            d = dec(g[ix], H[np.ix_(ix, ix)])[0]
            ctx.check(d < 1e-6, 'solution:ising:not_a_maximum', 'spin %d can be improved by %g' % (r, d), got=soln[r]['x'])
            h[r] = soln[r]['x'][0]
            J[r, o] = soln[r]['x'][1:]
        want = np.concatenate([h, [(J[i, j] + J[j, i]) / 2 for i, j in P]])
        ctx.close(x, want, 'solution:ising:average_of_the_estimates', atol=1e-12, rtol=1e-12)
        v, g, H = M.total(X, x, hess=True)
        d, wmin = dec(g, H)
    else:
        v, g, H = M.total(X, x, hess=True)
        d, wmin = dec(g, H)
        ctx.check(d < 1e-6, 'solution:%s:not_a_maximum' % kind, 'can be improved by %g' % d, got=x)
        ctx.close([soln['fun']], [-v], 'solution:objective_reported', rtol=1e-8)
    if exact:
        dt = dec(*M.total(X, theta, hess=True)[1:])[0]
        assert dt < 1e-12, dt
        a, b = (gauge(x, n, k), gauge(theta, n, k)) if kind == 'potts' else (x, theta)
        ctx.check(np.abs(a - b).max() < 5e-3, 'solution:%s:exact_data_give_other_parameters' % kind,
                  'off by %g' % np.abs(a - b).max(), got=x, want=theta)
    y = ctx.call(s.solve, _key='solution', **kw)
    ctx.eq(y, x, 'solution:repeatable')
    ctx.count('exact_data', exact)
    ctx.seen(X, kind)


@monitor(24, 600, shards=4)
def older_formulas(ctx):
    """The formulas kept for the {0,1} convention: value, derivatives, and the solution for exact data."""
    rng = ctx.rng
    n = int(rng.integers(2, 6))
    theta, X = exact_data(rng, 'ising', n, 2)
    X = X[rng.permutation(len(X))]
    s = so.Pseudo(X, iprint=False)
    T = (X + 1) // 2
    ctx.note(n=n, samples=len(X), theta=theta)
    # energy convention: p(x_r) = 1 / (1 + exp(sigma_r (J_rr + 2 sum_j J_rj x_j)))
    K = rng.normal(size=(n, n)) * float(rng.choice([.2, 1., 1., 300.]))
    K = (K + K.T) / 2

    def value(r, J):
        o = [j for j in range(n) if j != r]
        return -np.logaddexp(0, (2 * T[:, r] - 1) * (J[r] + 2 * T[:, o].dot(J[o]))).sum()
    for r in range(n):
        v = ctx.call(s.cond_log_likelihood, r, T, K[r])
        ctx.close([v], [value(r, K[r])], 'older:cond_log_likelihood', rtol=1e-10)
        num = np.zeros(n)
        for j in range(n):
            e = np.zeros(n)
            e[j] = 1e-5
            num[j] = (value(r, K[r] + e) - value(r, K[r] - e)) / 2e-5
        g = np.asarray(ctx.call(s.cond_jac, r, T, K[r]))
        ctx.close(g, -num, 'older:cond_jac', rtol=1e-5, atol=1e-5 * len(X))
        Hn = np.array([(np.asarray(s.cond_jac(r, T, K[r] + 1e-5 * np.eye(n)[j])) - s.cond_jac(r, T, K[r] - 1e-5 * np.eye(n)[j])) / 2e-5
                       for j in range(n)])
        H = ctx.call(s.cond_hess, r, T, K[r])
        ctx.close(H, Hn, 'older:cond_hess', rtol=1e-4, atol=1e-5 * len(X))
    v = ctx.call(s.pseudo_log_likelihood, T, K)
    ctx.close([v], [sum(value(r, K[r]) for r in range(n))], 'older:pseudo_log_likelihood', rtol=1e-10)
    x = ctx.call(s._solve_ising_deprecated, _key='older:solve')
    ctx.check(np.abs(x - theta).max() < 5e-3, 'older:exact_data_give_other_parameters', 'off by %g' % np.abs(x - theta).max(),
              got=x, want=theta)
    ctx.seen(X, K)


@monitor(24, 500, shards=4)
def standalone_module(ctx):
    """coniii.pseudo_inverse_ising, {0,1} and optionally only states with at least minSize spins present."""
    import contextlib
    import io
    import coniii.pseudo_inverse_ising as pi
    rng = ctx.rng
    n = int(rng.integers(2, 6))
    low = min(int(rng.choice([0, 0, 1, 2])), n - 2)    # with fewer states the parameters are not determined
    S = ref.states(n, (0, 1))
    S = S[S.sum(1) >= low]
    # p ~ exp(-(sum J_ii x_i + 2 sum J_ij x_i x_j)), all weights integer multiples of the least likely state
    t = np.concatenate([rng.integers(-1, 2, n), rng.integers(-1, 2, n * (n - 1) // 2) * (rng.random(n * (n - 1) // 2) < .5)])
    e = ref.ising_obs(S).dot(t)
    e = e - e.min()
    if e.max() > 8:
        raise Skip()
    exact = bool(rng.random() < .6)
    rep = 2**e.astype(int) if exact else 1 + rng.integers(0, 30, len(S))
    X = np.repeat(S, rep, axis=0)[rng.permutation(rep.sum())].astype(rng.choice(['i8', 'f8']))
    J0 = np.zeros((n, n))
    J0[np.triu_indices(n, 1)] = -t[n:] * np.log(2) / 2
    J0 = J0 + J0.T + np.diag(-t[:n] * np.log(2))
    ctx.note(n=n, minSize=low, exact=exact, samples=len(X), J=J0)

    def value(r, Y, J):
        o = [j for j in range(n) if j != r]
        v = -np.logaddexp(0, (2. * Y[:, r] - 1) * (J[r] + 2 * Y[:, o].dot(J[o])))
        # a spin that cannot be taken away: only this outcome is possible
        sure = (Y[:, r] == 1) & (Y.sum(1) <= low) & (low > 0)
        return v[~sure].sum()

    def slope(r, Y, J, hess=False):
        F = 2. * Y
        F[:, r] = 1
        s = 2. * Y[:, r] - 1
        p = 1 / (1 + np.exp(-s * F.dot(J)))
        keep = ~((Y[:, r] == 1) & (Y.sum(1) <= low) & (low > 0))
        if hess:
            return (F[keep] * (p * (1 - p))[keep, None]).T.dot(F[keep])
        return (F[keep] * (s * p)[keep, None]).sum(0)
    K = rng.normal(size=(n, n)) * float(rng.choice([.2, 1., 3., 1000.]))
    K = (K + K.T) / 2
    X0 = X.copy()
    kw = {'minSize': low} if low or rng.random() < .5 else {}
    for r in range(n):
        ctx.close([ctx.call(pi.conditionalLogLikelihood, r, X, K[r], **kw)], [value(r, X, K[r])], 'module:conditional_likelihood', rtol=1e-9)
        ctx.close(ctx.call(pi.conditionalJacobian, r, X, K[r], **kw), slope(r, X, K[r]), 'module:jacobian', atol=1e-8)
        H = slope(r, X, K[r], True)
        ctx.close(ctx.call(pi.conditionalHessian, r, X, K[r], **kw), H, 'module:hessian', atol=1e-8)
        F = 2. * X
        F[:, r] = 1
        ctx.close(ctx.call(pi.conditionalHessian, r, X, K[r], pairCoocRhat=pi.pairCoocMat(F), **kw), H, 'module:hessian_precalculated', atol=1e-8)
    ctx.close(ctx.call(pi.pairCoocMat, X), np.einsum('si,sj->isj', X, X), 'module:pairCoocMat', atol=0)
    ctx.close([ctx.call(pi.pseudoLogLikelihood, X, K, **kw)], [sum(value(r, X, K[r]) for r in range(n))], 'module:likelihood', rtol=1e-9)
    with contextlib.redirect_stdout(io.StringIO()):
        J = np.asarray(ctx.call(pi.pseudoInverseIsing, X, **kw))
    ctx.eq(X, X0, 'module:data_modified')
    ctx.eq(J, J.T, 'module:symmetric')
    if exact:
        ctx.check(np.abs(J - J0).max() < 5e-3, 'module:exact_data_give_other_parameters', 'off by %g' % np.abs(J - J0).max(), got=J)
    else:
        best = np.zeros((n, n))
        for r in range(n):
            x = np.zeros(n)
            for _ in range(100):
                g, H = slope(r, X, x), slope(r, X, x, True)
                d = np.linalg.lstsq(H, -g, rcond=1e-10)[0]
                a = 1.
                while value(r, X, x + a * d) < value(r, X, x) - 1e-9 and a > 1e-6:
                    a /= 2
                x = x + a * d
            best[r] = x
        best = (best + best.T) / 2
        ctx.check(np.abs(J - best).max() < 5e-3 * (1 + np.abs(best).max()), 'module:not_a_maximum', 'off by %g' % np.abs(J - best).max(), got=J, want=best)
    # data with states below the minimum size: they are left out
    if low:
        extra = np.zeros((int(rng.integers(1, 9)), n))
        with contextlib.redirect_stdout(io.StringIO()):
            J2 = np.asarray(ctx.call(pi.pseudoInverseIsing, np.vstack([extra, X]), **kw))
        ctx.close(J2, J, 'module:small_states_left_out', atol=1e-9)
    ctx.count('module_exact', exact)
    ctx.seen(X, K)
