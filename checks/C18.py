"""C18: mean-field formulas equal their definitions and expansions."""
from itertools import combinations
import numpy as np
from scipy.optimize import minimize_scalar
from scipy.special import comb, gammaln, logsumexp
import coniii.models as cm
import coniii.solvers as so
import coniii.mean_field_ising as mf
import ref
from core import cache_factories, monitor, settings, Skip

NEED = ('plain',)
cache_factories(cm, so)
settings('Every function of the mean-field module against its definition: flattenings against index loops, exact {0,1} '
         'expectations against enumeration, mean-field couplings against the inverse covariance (and its regularised '
         'form, eigenvalue by eigenvalue), homogeneous systems against exact sums over the magnetisation, derivatives '
         'against differences, first-order exactness by shrinking couplings; the regularised solver through the recorded '
         'samplings of its model.',
         ['correlation matrices come from data containing every state, or from models, so that they are positive definite'], scale=2)


def cooc_of_model(rng, n, scale):
    S = ref.states(n)
    t = rng.normal(size=n * (n + 1) // 2) * scale
    p, _, m = ref.boltzmann(ref.ising_obs(S), t)
    C = np.zeros((n, n))
    C[np.diag_indices(n)] = m[:n]
    C[np.triu_indices(n, 1)] = m[n:]
    return t, p, C


def regularised(C, gamma=0., ind=True, idx=None):
    """Definition: entropy, {0,1} parameter matrix (fields on the diagonal, half couplings)."""
    n = len(C)
    C = np.triu(C) + np.triu(C, 1).T
    f = np.diag(C).copy()
    v = f * (1 - f)
    c = C - np.outer(f, f)
    D = np.sqrt(np.outer(v, v))
    q, u = np.linalg.eigh(c / D)
    # (the optimiser may try negative strengths for which no solution exists: what the formula then gives)
    qh = .5 * (q - gamma + np.lib.scimath.sqrt((q - gamma)**2 + 4 * gamma))
    J = ((u / qh).dot(u.T) / D).real
    J -= np.diag(np.diag(J))
    sind = -(f * np.log(f) + (1 - f) * np.log(1 - f)).sum() if ind else 0.
    ent = (sind + .5 * (np.log(qh) + 1 - qh).sum()).real
    h = (J * (c * ((f - .5) / v)[:, None] - f[None])).sum(1) - (np.log(f / (1 - f)) if ind else 0)
    return ent, J / 2 + np.diag(h)


@monitor(36, 600, shards=4)
def packing(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 9))
    M = rng.normal(size=(n, n))
    M0 = M.copy()
    ctx.note(n=n, M=M)
    order = [(i, i + d) for d in range(n) for i in range(n - d)]
    flat = ctx.call(mf.aboveDiagFlat, M, keepDiag=True)
    ctx.eq(flat, [M[a] for a in order], 'packing:aboveDiagFlat')
    if n > 1:
        ctx.eq(ctx.call(mf.aboveDiagFlat, M), [M[a] for a in order[n:]], 'packing:aboveDiagFlat_without_diagonal')
        ctx.close(ctx.call(mf.aboveDiagFlat, M, keepDiag=True, offDiagMult=2.), [M[a] * (1 + (a[0] != a[1])) for a in order], 'packing:offDiagMult')
    ctx.eq([mf.diagFlatIndex(i, j, n) for i, j in order], np.arange(len(order)), 'packing:diagFlatIndex')
    U = np.zeros((n, n))
    for a, x in zip(order, flat):
        U[a] = x
    ctx.eq(ctx.call(mf.unflatten, flat, n), U, 'packing:unflatten')
    ctx.close(ctx.call(mf.unflatten, flat, n, symmetrize=True), .5 * (U + U.T), 'packing:unflatten_symmetric', atol=1e-15)
    sym = np.triu(M) + np.triu(M, 1).T
    ctx.close(ctx.call(mf.symmetrizeUsingUpper, M), sym, 'packing:symmetrizeUsingUpper', atol=1e-12)
    d = rng.normal(size=n)
    w = M.copy()
    w[np.diag_indices(n)] = d
    ctx.close(ctx.call(mf.replaceDiag, M, d), w, 'packing:replaceDiag', atol=1e-12)
    w[np.diag_indices(n)] = 0
    ctx.close(ctx.call(mf.zeroDiag, M), w, 'packing:zeroDiag', atol=1e-12)
    ctx.raises(mf.replaceDiag, 'packing:wrong_length', M, np.zeros(n + 1))
    ctx.raises(mf.replaceDiag, 'packing:matrix_as_diagonal', M, M)
    ctx.raises(mf.symmetrizeUsingUpper, 'packing:not_square', np.zeros((n, n + 1)))
    N = n + int(rng.integers(0, 4))
    cl = [int(i) for i in rng.permutation(N)[:n]]
    F = ctx.call(mf.JfullFromCluster, M, cl, N)
    w = np.zeros((N, N))
    w[np.ix_(cl, cl)] = M
    ctx.eq(F, w, 'packing:JfullFromCluster')
    ctx.eq(ctx.call(mf.coocCluster, F, cl), M, 'packing:coocCluster')
    ctx.eq(M, M0, 'packing:modified')
    ctx.seen(M)


@monitor(40, 800, shards=4)
def exact01(ctx):
    """Exact expectations in the {0,1} convention with fields on the diagonal, external field, minimum number of ones."""
    rng = ctx.rng
    n = int(rng.integers(1, 8))
    J = rng.normal(size=(n, n)) * float(rng.choice([.2, 1., 3., 300., 3000.], p=[.25, .25, .25, .15, .1]))
    if rng.random() < .5:
        J = (J + J.T) / 2
    low = int(rng.integers(0, n)) if rng.random() < .4 else 0
    hext = float(rng.normal()) if rng.random() < .4 else (rng.normal(size=n) if rng.random() < .3 else 0)
    ctx.note(n=n, J=J, minSize=low, hext=hext)
    S = ref.states(n)
    S = S[S.sum(1) >= low]
    ctx.eq(np.asarray(ctx.call(mf.fightPossibilities, n, low)), S, 'exact01:states')
    le = -S.dot(np.diag(J) - hext) - np.einsum('ki,ij,kj->k', S, J - np.diag(np.diag(J)), S)
    ctx.close(ctx.call(mf.unsummedLogZ, J, hext=hext, minSize=low), le, 'exact01:unsummedLogZ', atol=1e-9)
    if np.abs(le).max() < 500:
        ctx.close(ctx.call(mf.unsummedZ, J, hext=hext, minSize=low), np.exp(le), 'exact01:unsummedZ', rtol=1e-9)
    p = np.exp(le - logsumexp(le))
    C = np.einsum('k,ki,kj->ij', p, S, S)
    ctx.close(ctx.call(mf.coocExpectations, J, hext=hext, minSize=low), np.triu(C), 'exact01:coocExpectations', atol=1e-10)
    ctx.close(ctx.call(mf.coocExpectations, J, hext=hext, minSize=low, zeroBelowDiag=False), C, 'exact01:coocExpectations_full', atol=1e-10)
    if low == 0:
        l0 = -ref.states(n).dot(np.diag(J)) - np.einsum('ki,ij,kj->k', ref.states(n), J - np.diag(np.diag(J)), ref.states(n))
        q = np.exp(l0 - logsumexp(l0))
        ctx.close([ctx.call(mf.analyticEntropy, J)], [-(q * (l0 - logsumexp(l0))).sum()], 'exact01:entropy', atol=1e-9)
    # the fit gives the model back
    if n <= 5:
        t, p, Cm = cooc_of_model(rng, n, .6)
        kw = {}
        if rng.random() < .4:
            kw['Jinit'] = np.diag(rng.normal(size=n))
        low2 = int(rng.integers(0, 2)) if n > 3 else 0   # with all but the empty state
        if low2:
            T = ref.states(n)
            T = T[T.sum(1) >= low2]
            o = ref.ising_obs(T)
            m = ref.boltzmann(o, t)[2]
            Cm = np.diag(m[:n])
            Cm[np.triu_indices(n, 1)] = m[n:]
            kw['minSize'] = low2
        G = ctx.call(mf.findJmatrixAnalytic_CoocMat, Cm, **kw)
        W = np.diag(-t[:n]).astype(float)
        W[np.triu_indices(n, 1)] = -t[n:] / 2
        W = np.triu(W) + np.triu(W, 1).T
        ctx.close(mf.coocExpectations(G, minSize=low2), Cm, 'exact01:fit_reproduces_correlations', atol=1e-6)
        ctx.close(G, W, 'exact01:fit_parameters', atol=2e-3, rtol=1e-3)
        N = int(rng.integers(10, 1000))
        G = ctx.call(mf.findJmatrixAnalytic_CoocMat, Cm, bayesianMean=True, numSamples=N, **kw)
        ctx.close(mf.coocExpectations(G, minSize=low2), np.triu((Cm * N + 1) / (N + 2)), 'exact01:fit_bayesian_mean', atol=1e-6) \
            if not low2 and N > 200 else None
    ctx.seen(J, low)


@monitor(60, 1500, shards=4)
def estimates(ctx):
    """Mean-field entropy and parameters against the definition; exactness without and with weak interactions."""
    rng = ctx.rng
    N = int(rng.integers(2, 9))
    kind = ['model', 'independent', 'equal', 'data'][ctx.i % 4]
    if kind == 'model':
        t, p, C = cooc_of_model(rng, N, float(rng.choice([.1, .5, 1.])))
    elif kind == 'independent':
        f = rng.uniform(.05, .95, N)
        C = np.triu(np.outer(f, f), 1) + np.diag(f)
    elif kind == 'equal':
        f = float(rng.uniform(.3, .6))
        C = np.triu(np.full((N, N), f * f + f * (1 - f) * float(rng.uniform(0, .3))), 1) + np.eye(N) * f
    else:
        S = ref.states(min(N, 6))
        N = S.shape[1]
        X = np.vstack([S, S[rng.integers(0, len(S), 100)]]).astype(float)
        C = np.triu(X.T.dot(X) / len(X))
    given = C if rng.random() < .6 else C + np.triu(C, 1).T
    g0 = given.copy()
    cl = [int(i) for i in rng.permutation(N)[:int(rng.integers(1, N + 1))]]
    num = int(rng.integers(20, 1000))
    lam = float(10**rng.uniform(-2, 2)) if rng.random() < .5 else 0.
    ind = bool(rng.random() < .8)
    ctx.note(N=N, kind=kind, cluster=cl, C=C, prior=lam, samples=num)
    ix = sorted(cl)
    sub = (np.triu(C) + np.triu(C, 1).T)[np.ix_(ix, ix)]
    we, wJ = regularised(sub, lam / num, ind)
    full = np.zeros((N, N))
    full[np.ix_(ix, ix)] = wJ
    e, J = ctx.call(mf.SmeanField, cl, given, lam, num, indTerm=ind)
    ctx.close([e], [we], 'estimates:entropy', atol=1e-8, rtol=1e-8)
    ctx.close(J, full, 'estimates:parameters', atol=1e-7, rtol=1e-7)
    ctx.eq(np.asarray(J), np.asarray(J).T, 'estimates:symmetric')
    if lam == 0:
        e2, J2 = ctx.call(mf.SmeanField, cl, given, indTerm=ind, useRegularizedEq=False)
        ctx.close(J2, full, 'estimates:parameters_without_regularisation', atol=1e-7, rtol=1e-7)
        ctx.close([e2], [we], 'estimates:entropy_without_regularisation', atol=1e-7, rtol=1e-7)
        inv = np.linalg.inv(sub - np.outer(np.diag(sub), np.diag(sub)))
        off = ~np.eye(len(ix), dtype=bool)
        ctx.close(2 * np.asarray(J)[np.ix_(ix, ix)][off], inv[off], 'estimates:inverse_covariance', atol=1e-6, rtol=1e-6)
    e3, J3 = ctx.call(mf.SmeanField, cl, given, lam, num, indTerm=ind, alternateEnt=True)
    S = ref.states(len(ix))
    le = -np.einsum('ki,ij,kj->k', S, wJ, S)
    lp = le - logsumexp(le)
    ctx.close([e3], [-(np.exp(lp) * lp).sum()], 'estimates:alternative_entropy', atol=1e-7)
    JJ = ctx.call(mf.JmeanField, given, meanFieldPriorLmbda=lam, numSamples=num)
    ctx.close(JJ, regularised(C, lam / num)[1], 'estimates:JmeanField', atol=1e-7, rtol=1e-7)
    ctx.eq(given, g0, 'estimates:modified')
    if kind == 'independent' and lam == 0 and ind:
        f = np.diag(C)
        w = np.zeros((N, N))
        w[ix, ix] = -np.log(f[ix] / (1 - f[ix]))
        ctx.close(J, w, 'estimates:exact_for_independent_spins', atol=1e-8)
    # stability: spectral radius of the linearised self consistency
    f = np.diag(C)
    Js = JJ
    K = -2 * (Js - np.diag(np.diag(Js))) * (f * (1 - f))[None]
    ctx.close([ctx.call(mf.meanFieldStability, np.asarray(Js), f)], [np.abs(np.linalg.eigvals(K)).max()], 'estimates:stability', atol=1e-8)
    ctx.seen(C, cl, lam)


@monitor(12, 200, shards=2)
def weak_interactions(ctx):
    """To first order in the interactions the mean-field couplings are those of the model."""
    rng = ctx.rng
    n = int(rng.integers(2, 7))
    S = ref.states(n)
    o = ref.ising_obs(S)
    h, K = rng.normal(size=n) * .5, rng.normal(size=n * (n - 1) // 2)
    err, erh, ent = [], [], []
    for eps in (.02, .01):
        t = np.concatenate([h, eps * K])
        p, _, m = ref.boltzmann(o, t)
        C = np.diag(m[:n])
        C[np.triu_indices(n, 1)] = m[n:]
        e, J = ctx.call(mf.SmeanField, list(range(n)), C)
        J = np.asarray(J)
        err.append(np.abs(-2 * J[np.triu_indices(n, 1)] - t[n:]).max())
        erh.append(np.abs(-np.diag(J) - t[:n]).max())
        ent.append(abs(e + (p * np.log(p)).sum()))
    ctx.note(n=n, h=h, K=K, errors=[err, erh, ent])
    big = np.abs(K).max()
    ctx.check(err[1] < .3 * err[0] + 2e-5 * (1 + big**2) and err[0] < .01 * n * big + 1e-9, 'weak:couplings', got=err)
    ctx.check(erh[1] < .35 * erh[0] + 2e-5 * (1 + big**2) and erh[0] < .01 * n * big**2 + 1e-6, 'weak:fields', got=erh)
    ctx.check(ent[1] < .2 * ent[0] + 2e-7 * (1 + big**3), 'weak:entropy', got=ent)
    ctx.seen(h, K)


@monitor(32, 500, shards=4)
def homogeneous(ctx):
    """Equal couplings and fields, {-1,1}, p ~ exp(h M + J M^2): exact sums over the magnetisation."""
    rng = ctx.rng
    N = int(rng.integers(2, 40))
    J = float(10**rng.uniform(-1.5, 0)) / N
    h = float(rng.normal() * .5)
    ctx.note(N=N, J=J, h=h)
    up = np.arange(N + 1)
    M = 2. * up - N
    lw = gammaln(N + 1) - gammaln(up + 1) - gammaln(N - up + 1) + h * M + J * M**2
    lz = logsumexp(lw)
    w = np.exp(lw - lz)
    x = w.dot(M) / N
    S = lz - w.dot(h * M + J * M**2)
    g = np.linspace(-40, 40, 400001)
    ctx.close([logsumexp(-mf.FHomogeneous(h, J, N, g)) + np.log(g[1] - g[0])], [lz], 'homogeneous:F_integrates_to_logZ', atol=1e-6)
    ctx.close([ctx.call(mf.avgxHomogeneous, h, J, N)], [x], 'homogeneous:avgx', atol=1e-5)
    ctx.close([ctx.call(mf.avgmHomogeneous, h, J, N)], [x], 'homogeneous:avgm', atol=1e-5)
    ctx.close([ctx.call(mf.SHomogeneous, h, J, N)], [S], 'homogeneous:entropy', atol=1e-4)
    p = (1 + x) / 2
    si = -N * (p * np.log(p) + (1 - p) * np.log(1 - p))
    ctx.close([ctx.call(mf.independentEntropyHomogeneous, h, J, N)], [si], 'homogeneous:independent_entropy', atol=1e-4)
    ctx.close([ctx.call(mf.independentEntropyHomogeneous2, h, J, N)], [si], 'homogeneous:independent_entropy_2', atol=1e-4)
    ctx.close([ctx.call(mf.multiInfoHomogeneous, h, J, N)], [si - S], 'homogeneous:multi_information', atol=2e-4)
    # derivative of F/T ... with respect to T at T = 1: F depends on h/T and J/T
    m = float(rng.normal())
    T = 1e-5
    num = (mf.FHomogeneous(h / (1 + T), J / (1 + T), N, m) - mf.FHomogeneous(h / (1 - T), J / (1 - T), N, m)) / (2 * T)
    ctx.close([ctx.call(mf.dFdT, h, J, N, m)], [num], 'homogeneous:dFdT', atol=1e-5 * N, rtol=1e-6)
    y = rng.normal(size=5) * 10**rng.uniform(-2, 3, 5)
    ctx.close(ctx.call(mf.logCosh, y), np.logaddexp(y, -y) - np.log(2), 'homogeneous:logCosh', atol=1e-10)
    # self-consistent mean of one of ell equal {0,1} spins
    ell, Jm, T = int(rng.integers(2, 20)), float(rng.uniform(0, .5)), float(rng.uniform(.5, 3))
    mm = ctx.call(mf.m, h, Jm, ell, T)
    ctx.close([mm], [1 / (1 + np.exp((h + 2 * (ell - 1) * mm * Jm) / T))], 'homogeneous:self_consistent_mean', atol=1e-9)
    num = (mf.m(h, Jm, ell, T + 1e-4) - mf.m(h, Jm, ell, T - 1e-4)) / 2e-4
    ctx.close([ctx.call(mf.dmdT, h, Jm, ell, T)], [num], 'homogeneous:dmdT', atol=1e-6)
    ctx.seen(N, J, h)


@monitor(32, 500, shards=4)
def statistics(ctx):
    rng = ctx.rng
    n, N = int(rng.integers(1, 7)), int(rng.choice([rng.integers(2, 80), rng.integers(80, 1000)]))
    X = (rng.random((N, n)) < rng.random(n)).astype(rng.choice(['f8', 'f4', 'i8', 'i4', 'i1', 'u1', '?']))
    X0 = X.copy()
    ctx.note(n=n, N=N, X=X)
    F = X.astype(float)
    C = np.triu(F.T.dot(F) / N)
    ctx.close(ctx.call(mf.cooccurrence_matrix, X), C, 'statistics:cooccurrence', atol=1e-12)
    ctx.close(ctx.call(mf.cooccurrence_matrix, X, keep_diag=False), np.triu(C, 1), 'statistics:cooccurrence_without_diagonal', atol=1e-12)
    order = [(i, i + d) for d in range(n) for i in range(n - d)]
    prod = np.array([F[:, i] * F[:, j] for i, j in order])
    four = prod.dot(prod.T) / N
    ctx.close(ctx.call(mf.fourthOrderCoocMat, X), four, 'statistics:fourth_order', atol=1e-12)
    ctx.close(ctx.call(mf.coocMatBayesianMean, C, N), (C * N + 1) / (N + 2), 'statistics:bayesian_mean', atol=1e-12)
    b = (C * N + 1) / (N + 2)
    ctx.close(ctx.call(mf.coocStdevsFlat, C, N), [np.sqrt(b[a] * (1 - b[a]) / N) for a in order], 'statistics:standard_deviations', atol=1e-12)
    Y = rng.integers(0, 2, (int(rng.integers(2, 500)), n)).astype(rng.choice(['f8', 'i8', 'i1', '?']))
    D = Y.T.astype(float).dot(Y) / len(Y)
    ctx.close(ctx.call(mf.isingDeltaCooc, Y, C), [D[a] - C[a] for a in order], 'statistics:difference', atol=1e-12)
    four2 = four.copy()
    four2[np.diag_indices(len(four))] = (np.diag(four) * N + 1) / (N + 2)
    for bm in (True, False):
        w = four2 * (1 - four2) if bm else four * (1 - four)
        c = ctx.call(mf.coocSampleCovariance, X, bayesianMean=bm, includePrior=False)
        ctx.close(c, w, 'statistics:sample_covariance', atol=1e-12)
        c = np.asarray(ctx.call(mf.coocSampleCovariance, X, bayesianMean=bm))
        k = len(w)
        ctx.check(c.shape == (k + n * (n - 1) // 2,) * 2 and np.allclose(c[:k, :k], w) and not c[:k, k:].any()
                  and np.array_equal(c[k:, k:], np.eye(n * (n - 1) // 2)), 'statistics:prior_block')
    ctx.eq(X, X0, 'statistics:data_modified')
    ctx.seen(X)


def to01(t, n):
    """{-1,1} parameters -> {0,1} matrix in the module's convention."""
    J = np.zeros((n, n))
    J[np.triu_indices(n, 1)] = t[n:]
    J = J + J.T
    h = 2 * t[:n] - 2 * J.sum(1)
    return np.diag(-h) - 4 * J / 2


@monitor(16, 300, shards=8, cost=4)
def regularised_solver(ctx):
    rng = ctx.rng
    n = int(rng.integers(2, 6))
    S = ref.states(n, (-1, 1))
    t = rng.normal(size=n * (n + 1) // 2) * float(rng.choice([.1, .3, .5]))
    N = int(rng.choice([60, 300, 3000]))
    X = np.vstack([S, S[rng.choice(len(S), N, p=ref.ising_model(t, n)[1])]])
    X0 = X.copy()
    seed = int(rng.integers(2**31))
    s = so.RegularizedMeanField(X, iprint=False, sample_size=int(rng.integers(500, 2000)), rng=np.random.RandomState(seed))
    log = []
    inner = s.model.generate_sample

    def generate_sample(*a, **k):
        r = inner(*a, **k)
        log.append((np.array(s.model.sampler.theta), np.array(s.model.sample)))
        return r
    s.model.generate_sample = generate_sample
    kw = {'reset_rng': bool(rng.random() < .7)}
    if rng.random() < .5:
        kw.update(bracket=(0., float(rng.choice([.2, 2.]))), n_grid_points=int(rng.integers(5, 25)))
    ctx.note(n=n, N=len(X), theta=t, **kw)
    try:
        x = s.solve(**kw)
    except Exception as e:
        # refusals of objectives without an inner minimum (ties and noise included)
        if 'Minimum at boundary' in str(e) or 'Bracketing values' in str(e):
            ctx.count('refused')
            raise Skip()
        raise
    x = np.asarray(x)
    ctx.eq(x, s.multipliers, 'regularised:multipliers_attribute')
    ctx.eq(X, X0, 'regularised:data_modified')
    T = (X + 1) / 2
    C = T.T.dot(T) / len(X)
    b = (C * len(X) + 1) / (len(X) + 2)
    sd = np.sqrt(b * (1 - b) / len(X))
    up = np.triu_indices(n)

    def mismatch(Y):
        Y = (Y + 1) / 2
        return ((((Y.T.dot(Y) / len(Y)) - C) / sd)[up]**2).sum()
    z = np.array([mismatch(Y) for _, Y in log])
    if not ctx.check(len(z) > 2, 'regularised:no_sampling'):
        return
    # the parameters returned are among those tried, and no model the optimiser had in hand was better: those of the
    # grid, or without a grid its two starting points (its search for a bracket may drop others), and the last ones
    near = np.array([np.abs(y - x).max() / (1 + np.abs(x).max()) for y, _ in log])
    mine = z[near < 1e-4]
    if ctx.check(len(mine) > 0, 'regularised:not_one_of_the_models_tried', 'off by %g' % near.min()) and kw['reset_rng']:
        rivals = z if 'bracket' in kw else np.concatenate([z[:2], z[-12:]])
        ctx.check(mine.min() <= rivals.min() + 1e-9, 'regularised:not_the_best_of_the_models_tried', mismatches=z, returned=mine.min())
    # everything tried, and the result, is a mean-field solution for some strength of the prior
    for y in [x] + [log[int(i)][0] for i in rng.integers(0, len(log), 3)]:
        G = to01(y, n)

        def dist(g):
            with np.errstate(all='ignore'):
                d = np.abs(regularised(C, g)[1] - G).max()
            return d if np.isfinite(d) else 1e3
        # negative strengths are possible down to some point, near which the solution changes ever faster
        f = np.diag(C)
        q = np.linalg.eigvalsh((C - np.outer(f, f)) / np.sqrt(np.outer(f * (1 - f), f * (1 - f)))).min()
        end = (1 - np.sqrt(max(1 - q, 0.)))**2
        grid = np.unique(np.concatenate([-end + end * np.logspace(-14, 0, 150), -end * np.logspace(-7, 0, 60), -end * np.logspace(0, 3, 150), [0], np.logspace(-7, 3, 200)]))
        d = np.array([dist(g) for g in grid])
        off = np.inf
        for k in np.argsort(d)[:4]:
            r = minimize_scalar(dist, bounds=(grid[max(k - 1, 0)], grid[min(k + 1, len(grid) - 1)]), method='bounded', options={'xatol': 1e-16})
            off = min(off, r.fun, d[k])
        ctx.check(off < 1e-4 * (1 + np.abs(G).max()), 'regularised:not_a_mean_field_solution', 'off by %g' % off, got=y)
    # sample and parameters belong together
    th, Y = log[-1]
    p, _, m = ref.boltzmann(ref.ising_obs(S), th)
    o = ref.ising_obs(S)
    v = np.sqrt(p.dot((o - m)**2) / len(Y))
    ctx.check((np.abs(ref.ising_obs(Y).mean(0) - m) < 9 * v + 1e-2).all(), 'regularised:sample_of_other_parameters')
    if kw['reset_rng']:
        s2 = so.RegularizedMeanField(X, iprint=False, sample_size=s.sampleSize, rng=np.random.RandomState(seed))
        ctx.eq(ctx.call(s2.solve, **kw), x, 'regularised:repeatable')
    ctx.count('models_tried', len(log))
    ctx.seen(X)
