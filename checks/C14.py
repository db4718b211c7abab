"""C14: minimum probability flow: objective, gradient and optimum are right."""
import numpy as np
import coniii.models as cm
import coniii.solvers as so
import coniii.utils as cu
import ref
from core import cache_factories, monitor, settings, Skip

NEED = ('plain',)
cache_factories(cm, so)
settings('K and logK and their gradients are compared with the definition (sum over data states and their neighbours of '
         'exp((E(s)-E(s\'))/2) / number of data) evaluated directly, for random data, counts, neighbourhoods of equal and '
         'different size, pairwise, triplet and user-defined energies; solutions are judged by the definition in the '
         '{-1,1} convention (Newton decrement of the convex objective), and for data whose frequencies are exactly those '
         'of a model they must be its parameters.',
         ['the default optimiser reaches its documented tolerance on these small, well conditioned problems'], scale=4)


def obs01(order=2):
    return lambda X: ref.ising_obs(X, order)


def flow(obs, X, cnt, adj, theta):
    """Definition: value, gradient, Hessian of K with E = -theta.obs."""
    k, g, H = 0., np.zeros(theta.size), np.zeros((theta.size, theta.size))
    o = obs(X)
    for i in range(len(X)):
        d = .5 * (obs(adj[i]) - o[i])       # minus derivative of (E(s)-E(s'))/2 ... E = -theta.o
        w = cnt[i] * np.exp(d.dot(theta))
        k += w.sum()
        g += w.dot(d)
        H += (d * w[:, None]).T.dot(d)
    N = np.sum(cnt)
    return k / N, g / N, H / N


def neighbours(s, lo=0, hi=1):
    out = np.repeat(np.asarray(s)[None], len(s), 0)
    i = np.arange(len(s))
    out[i, i] = lo + hi - out[i, i]
    return out


def setup(ctx, n, order=2, **kw):
    size = {2: n * (n + 1) // 2, 3: 25}[order]
    if order == 3:
        m = cm.Triplet([np.zeros(5), np.zeros(10), np.zeros(10)])
        return ctx.call(so.MPF, n, model=m, calc_observables=cu.define_triplet_helper_functions()[1], iprint=False, **kw), size
    return ctx.call(so.MPF, n, iprint=False, **kw), size


def de(order):
    if order == 2:
        return cu.calc_de
    return lambda s, i: -ref.ising_obs(s, 3)[:, i]


def draw(rng, n, values=(0, 1), few=False):
    S = ref.states(n, values)
    k = int(rng.integers(1, min(len(S), 12 if few else 40) + 1))
    X = S[np.sort(rng.choice(len(S), k, replace=False))]
    cnt = rng.integers(1, 50, k)
    if rng.random() < .4:
        cnt = cnt * rng.random(k)
    return X, cnt


@monitor(192, 3000, shards=8)
def objective(ctx):
    rng = ctx.rng
    order = 3 if ctx.i % 6 == 5 else 2
    n = 5 if order == 3 else int(rng.integers(2, 7))
    kw = {'calc_de': de(order)} if rng.random() < .6 else {}
    s, size = setup(ctx, n, order, **kw)
    X, cnt = draw(rng, n)
    theta = rng.normal(size=size) * rng.choice([.1, 1, 4])
    ragged = rng.random() < .5
    adj = [neighbours(x) for x in X]
    if ragged:
        adj = [a[np.sort(rng.choice(n, int(rng.integers(1, n + 1)), replace=False))] for a in adj]
    elif rng.random() < .3:  # more than the single flips
        adj = [np.vstack([a, np.array([ref.states(n)[int(rng.integers(2**n))] for _ in range(2)])]) for a in adj]
    ctx.note(n=n, order=order, states=len(X), ragged=ragged, gradient=bool(kw), theta=theta)
    k, g, _ = flow(obs01(order), X, cnt, adj, theta)
    rk = ctx.call(s.K, X, cnt, adj, theta)
    rl = ctx.call(s.logK, X, cnt, adj, theta)
    if kw:
        (rk, gk), (rl, gl) = rk, rl
        ctx.close(gk, g, 'objective:gradient_K', rtol=1e-8, atol=1e-9 * (1 + abs(k)))
        ctx.close(gl, g / k, 'objective:gradient_logK', rtol=1e-8, atol=1e-9)
    ctx.close(np.ravel(rk), [k], 'objective:K', rtol=1e-9)
    ctx.close(np.ravel(rl), [np.log(k)], 'objective:logK', rtol=1e-9, atol=1e-9)
    # large parameters must not overflow the logarithmic version
    big = theta / np.abs(theta).max() * 2000
    r = ctx.call(s.logK, X, cnt, adj, big)
    o = obs01(order)
    pw = np.concatenate([.5 * (o(adj[i]) - o(X)[i]).dot(big) + np.log(cnt[i] / cnt.sum()) for i in range(len(X))])
    m = pw.max()
    ctx.close(np.ravel(r[0] if kw else r), [m + np.log(np.exp(pw - m).sum())], 'objective:logK_large_parameters', rtol=1e-9, atol=1e-7)
    if kw:
        ctx.check(np.isfinite(r[1]).all(), 'objective:gradient_large_parameters')
    ctx.seen(X, cnt, theta)


@monitor(96, 1000, shards=8)
def adjacency(ctx):
    """list_adjacent_states: all single flips, or only those that lead out of the data; user-supplied neighbourhoods."""
    rng = ctx.rng
    n = int(rng.integers(2, 7))
    X, _ = draw(rng, n, few=True)
    X0 = X.copy()
    own = rng.random() < .5
    f = neighbours if not own else (lambda s: np.vstack([neighbours(s), 1 - s]) if s.sum() % 2 else neighbours(s)[:1])
    s, _ = setup(ctx, n, adj=f) if own else setup(ctx, n)
    ctx.note(n=n, X=X, own=own)
    want = [f(x) for x in X]
    got = ctx.call(s.list_adjacent_states, X, True)
    canon = lambda A: sorted(map(tuple, np.asarray(A).tolist()))
    ctx.check(len(got) == len(X) and all(canon(a) == canon(b) for a, b in zip(got, want)), 'adjacency:all', 'got %s' % (got[:2],))
    data = set(map(tuple, X.tolist()))
    out = [[t for t in w.tolist() if tuple(t) not in data] for w in want]
    if any(len(o) == 0 for o in out):
        ctx.raises(s.list_adjacent_states, 'adjacency:enclosed_state_accepted', X, False)
    else:
        got = ctx.call(s.list_adjacent_states, X, False)
        ctx.check(len(got) == len(X) and all(canon(a) == canon(b) for a, b in zip(got, out)), 'adjacency:outside_data')
    ctx.eq(X, X0, 'adjacency:data_modified')
    ctx.seen(X, own)


def dyadic(rng, n, order=2, kmax=2):
    """Parameters (multiples of log(2)/2) and a sample with exactly the frequencies of the model."""
    size = n * (n + 1) // 2
    k = np.zeros(size)
    k[:n] = rng.integers(-kmax, kmax + 1, n)
    k[n:] = rng.integers(-1, 2, size - n) * (rng.random(size - n) < 3. / n)
    S = ref.states(n, (-1, 1))
    e = ref.ising_obs(S).dot(k) / 2.
    e = np.round(e - e.min()).astype(int)
    if e.max() > 11:
        return dyadic(rng, n, order, max(1, kmax - 1))
    cnt = 2**e
    X = np.repeat(S, cnt, axis=0)
    return k * np.log(2) / 2, X


def decrement(theta11, X, adjf=neighbours, order=2):
    """Suboptimality of theta in the log objective, straight from the definition in the {-1,1} convention."""
    U, cnt = np.unique(X, axis=0, return_counts=True)
    adj = [adjf(u, -1, 1) for u in U]
    k, g, H = flow(obs01(order), U, cnt, adj, theta11)
    gl = g / k
    Hl = H / k - np.outer(gl, gl)
    w, v = np.linalg.eigh(Hl)
    c = v.T.dot(gl)
    return .5 * (c**2 / np.maximum(w, 1e-9)).sum(), np.log(k), w[0]


@monitor(64, 600, shards=8, cost=3)
def solution(ctx):
    """solve() minimises the flow of its data; exact model data give back the model."""
    rng = ctx.rng
    n = int(rng.integers(2, 5 if not ctx.thorough else 6))
    exact = bool(ctx.i % 2)
    if exact:
        theta, X = dyadic(rng, n)
    else:
        theta = rng.normal(size=n * (n + 1) // 2) * .4
        S, p, _, _ = ref.ising_model(theta, n)
        X = np.vstack([S, S[rng.choice(len(S), size=int(rng.integers(50, 500)), p=p)]])
    X = X[rng.permutation(len(X))].astype('i8')
    X0 = X.copy()
    kw, skw = {}, {}
    if rng.random() < .5:
        kw['calc_de'] = cu.calc_de
    if rng.random() < .3:
        kw['adj'] = neighbours
    if rng.random() < .5:
        skw['uselog'] = False
    if rng.random() < .5:
        skw['initial_guess'] = rng.normal(size=theta.size) * .3
        g0 = skw['initial_guess'].copy()
    if rng.random() < .3:
        skw['method'] = 'SLSQP'
        skw['solver_kwargs'] = {'maxiter': 500, 'ftol': 1e-14}
    s = ctx.call(so.MPF, X, iprint=False, **kw)
    ctx.note(n=n, theta=theta, samples=len(X), exact=exact, dtype=str(X.dtype), init=list(kw), solve=skw)
    x, soln = ctx.call(s.solve, full_output=True, _key='solution', **skw)
    x = np.asarray(x)
    if not ctx.eq(x.shape, theta.shape, 'solution:shape'):
        return
    d, lk, wmin = decrement(x, X)
    val = lk if skw.get('uselog', True) else np.exp(lk)
    ctx.close(np.ravel(soln['fun']), [val], 'solution:objective_reported', rtol=1e-7, atol=1e-8)
    ctx.check(d < 1e-5, 'solution:not_a_minimum', 'objective can be lowered by %g' % d, got=x)
    if exact and wmin > 1e-3:
        ctx.check(np.abs(x - theta).max() < 2e-2 and decrement(theta, X)[0] < 1e-12, 'solution:exact_data_give_other_parameters',
                  'off by %g' % np.abs(x - theta).max(), got=x, want=theta)
    ctx.eq(x, s.multipliers, 'solution:multipliers_attribute')
    ctx.eq(X, X0, 'solution:data_modified')
    if 'initial_guess' in skw:
        ctx.eq(skw['initial_guess'], g0, 'solution:initial_guess_modified')
    y = ctx.call(s.solve, **skw)
    ctx.eq(y, x, 'solution:repeatable')
    ctx.count('suboptimality_below_1e-8', d < 1e-8)
    ctx.seen(X, x)


@monitor(32, 300, shards=8, cost=3)
def restricted(ctx):
    """Bounds on the parameters and flow only into states outside of the data."""
    rng = ctx.rng
    n = int(rng.integers(3, 6))
    bound = bool(ctx.i % 2)
    skw = {}
    if bound:
        theta, X = dyadic(rng, min(n, 4))
        n = min(n, 4)
        lim = float(rng.choice([.05, .3]))
        skw['parameter_limits'] = lim
        s = so.MPF(X, iprint=False, calc_de=cu.calc_de)
    else:
        lim = 100
        n = 5
        S = ref.states(n, (-1, 1))
        for _ in range(50):
            U = S[rng.choice(len(S), int(rng.integers(3, 9)), replace=False)]
            data = set(map(tuple, U.tolist()))
            if all(any(tuple(t) not in data for t in neighbours(u, -1, 1).tolist()) for u in U):
                break
        else:
            raise Skip()
        X = np.repeat(U, rng.integers(1, 20, len(U)), axis=0)
        skw['all_connected'] = False
        s = so.MPF(X, iprint=False)
        skw['parameter_limits'] = lim = 2.
    ctx.note(n=n, samples=len(X), **skw)
    x, soln = ctx.call(s.solve, full_output=True, _key='restricted', **skw)
    x = np.asarray(x)
    # {-1,1} -> {0,1}: E = -sum h s - sum J s s with s = 2 t - 1
    J = np.zeros((n, n))
    J[np.triu_indices(n, 1)] = x[n:]
    J = J + J.T
    x01 = np.concatenate([2 * x[:n] - 2 * J.sum(1), 4 * x[n:]])
    ctx.check(np.abs(x01).max() < lim + 1e-6, 'restricted:bound_exceeded', 'by %g' % (np.abs(x01).max() - lim))
    U, cnt = np.unique(X, axis=0, return_counts=True)
    T = (U + 1) // 2
    data = set(map(tuple, T.tolist()))
    adj = [neighbours(t) for t in T]
    if not bound:
        adj = [np.array([a for a in A.tolist() if tuple(a) not in data]) for A in adj]
    k, g, _ = flow(obs01(), T, cnt, adj, x01)
    ctx.close(np.ravel(soln['fun']), [np.log(k)], 'restricted:objective_reported', rtol=1e-6, atol=1e-7)
    g = g / k
    free = np.where(x01 >= lim - 1e-6, np.maximum(g, 0), np.where(x01 <= -lim + 1e-6, np.minimum(g, 0), g))
    ctx.check(np.abs(free).max() < 2e-3, 'restricted:not_a_minimum', 'projected gradient %g' % np.abs(free).max())
    ctx.seen(X)


@monitor(24, 200, shards=4, cost=3)
def stationary(ctx):
    """With data frequencies equal to the model's, the true parameters are stationary, whatever the model."""
    rng = ctx.rng
    order = 3 if ctx.i % 3 == 2 else 2
    n = 5 if order == 3 else int(rng.integers(2, 6))
    s, size = setup(ctx, n, order, calc_de=de(order))
    theta = rng.normal(size=size) * rng.choice([.2, 1.])
    S, p, _, _ = ref.ising_model(theta, n, (0, 1), order)
    adj = ctx.call(s.list_adjacent_states, S, True)
    ctx.note(n=n, order=order, theta=theta)
    k, g = ctx.call(s.K, S, p, adj, theta)
    ctx.close(g, np.zeros(size), 'stationary:K', atol=1e-8 * (1 + k))
    lk, g = ctx.call(s.logK, S, p, adj, theta)
    ctx.close(g, np.zeros(size), 'stationary:logK', atol=1e-8)
    for _ in range(5):
        t = theta + rng.normal(size=size) * .1
        ctx.check(ctx.call(s.K, S, p, adj, t)[0] >= k, 'stationary:not_minimal')
    ctx.seen(theta)
