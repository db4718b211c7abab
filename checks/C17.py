"""C17: the cluster expansion telescopes to the exact entropy and parameters."""
import contextlib
import io
from itertools import combinations
import numpy as np
from scipy.optimize import least_squares
import coniii.models as cm
import coniii.solvers as so
import coniii.mean_field_ising as mf
import ref
from core import cache_factories, monitor, settings, Skip

NEED = ('plain',)
cache_factories(cm, so)
settings('Cluster entropies and couplings are compared with an independent maximum entropy fit of the cluster\'s own means '
         'and coincidences (Newton iteration on all 2^k states), contributions are compared with the inclusion-exclusion '
         'sum of those, for clusters in any order of labels, with and without reference and stored results; the expansion '
         'must give the exact model without threshold and independent spins with infinite threshold, and in between '
         'include only clusters whose contribution exceeds the threshold and whose parts are included.',
         ['data contain every state at least once, so that all maximum entropy fits exist and are well conditioned'], scale=4)


def data(rng, n):
    S = ref.states(n, (-1, 1))
    th = rng.normal(size=n * (n + 1) // 2) * float(rng.choice([.1, .3, .5]))
    p = ref.boltzmann(ref.ising_obs(S), th)[0]
    X = np.vstack([S, S[rng.choice(len(S), int(rng.integers(50, 2000)), p=p)]])
    return X[rng.permutation(len(X))]


def maxent(C, ix):
    """Entropy and {0,1} parameters (E = sum h x + sum_{i<j} J x x) of the pairwise model of C restricted to ix."""
    k = len(ix)
    S = ref.states(k, (0, 1))
    o = ref.ising_obs(S)
    target = np.array([C[i, i] for i in ix] + [C[min(i, j), max(i, j)] for i, j in combinations(ix, 2)])
    t = np.concatenate([np.log(target[:k] / (1 - target[:k])), np.zeros(o.shape[1] - k)])
    for _ in range(200):
        p, lz, m = ref.boltzmann(o, t)
        d = target - m
        if np.abs(d).max() < 1e-13:
            break
        H = (o - m).T.dot((o - m) * p[:, None])
        step = np.linalg.solve(H, d)
        a = 1.
        f0 = lz - t.dot(target)
        while a > 1e-8 and ref.boltzmann(o, t + a * step)[1] - (t + a * step).dot(target) > f0 + 1e-14:
            a /= 2
        t = t + a * step
    if np.abs(d).max() > 1e-9:
        raise Skip()
    return -(p * np.log(p)).sum(), -t


def jmat(t, ix, N):
    """The package's layout: fields on the diagonal, half the coupling on both sides, zero elsewhere."""
    k = len(ix)
    J = np.zeros((N, N))
    for a, i in enumerate(ix):
        J[i, i] = t[a]
    for a, (i, j) in enumerate(combinations(ix, 2)):
        J[i, j] = J[j, i] = t[k + a] / 2
    return J


def mean_field(C, ix):
    """Mean field entropy and couplings from their definitions."""
    ix = sorted(ix)
    C = np.triu(C) + np.triu(C, 1).T
    c = C[np.ix_(ix, ix)]
    p = np.diag(c).copy()
    cov = c - np.outer(p, p)
    cov[np.diag_indices(len(p))] = p * (1 - p)
    inv = np.linalg.inv(cov)
    J = inv - np.diag(np.diag(inv))
    s = np.sqrt(p * (1 - p))
    ent = -(p * np.log(p) + (1 - p) * np.log(1 - p)).sum() + .5 * np.linalg.slogdet(cov / np.outer(s, s))[1]
    h = (J * (cov * ((p - .5) / (p * (1 - p)))[:, None] - p[None])).sum(1) - np.log(p / (1 - p))
    N = len(C)
    out = np.zeros((N, N))
    out[np.ix_(ix, ix)] = J / 2
    out[ix, ix] = h
    return ent, out


class Oracle:
    def __init__(self, C, ref_):
        self.C, self.ref, self.memo = C, ref_, {}

    def S(self, cl):
        ix = sorted(cl)
        e, t = maxent(self.C, ix)
        return e, jmat(t, ix, len(self.C))

    def S0(self, cl):
        ix = sorted(cl)
        if self.ref == 'meanfield':
            return mean_field(self.C, ix)
        p = np.array([self.C[i, i] for i in ix])
        J = np.zeros_like(self.C)
        J[ix, ix] = -np.log(p / (1 - p))
        return -(p * np.log(p) + (1 - p) * np.log(1 - p)).sum(), J

    def delta(self, cl):
        key = tuple(sorted(cl))
        if key not in self.memo:
            e, J = self.S(key)
            e0, J0 = self.S0(key)
            e, J = e - e0, J - J0
            for k in range(1, len(key)):
                for sub in combinations(key, k):
                    d = self.delta(sub)
                    e, J = e - d[0], J - d[1]
            self.memo[key] = (e, J)
        return self.memo[key]


def to11(J):
    """From the matrix layout in {0,1} to parameters in {-1,1}, E = -h s - J s s."""
    n = len(J)
    h, K = -np.diag(J), -2 * (J - np.diag(np.diag(J)))
    P = ref.pairs(n)
    return np.concatenate([h / 2 + K.sum(1) / 4, [K[i, j] / 4 for i, j in P]])


def refkw(r):
    return {'meanFieldRef': r == 'meanfield', 'independentRef': r == 'independent'}


TOL = dict(atol=3e-5, rtol=1e-5)


@monitor(96, 1200, shards=8)
def contributions(ctx):
    """S, Sindependent and deltaS for clusters in any order, from scratch and from stored results."""
    rng = ctx.rng
    n = int(rng.integers(2, 8))
    X = data(rng, n)
    s = so.ClusterExpansion(X, iprint=False)
    C = mf.cooccurrence_matrix((X + 1) / 2)
    Cw = np.triu(((X + 1) / 2).T.dot((X + 1) / 2) / len(X))
    ctx.close(C, Cw, 'contributions:cooccurrence', atol=1e-12)
    given = C if rng.random() < .6 else C + np.triu(C, 1).T
    g0 = given.copy()
    r = ['independent', 'meanfield'][int(rng.integers(2))]
    O = Oracle(Cw, r)
    cl = [int(i) for i in rng.permutation(n)[:int(rng.integers(1, min(n, 5) + 1))]]
    if rng.random() < .3:
        cl = sorted(cl)
    cl0 = list(cl)
    ctx.note(n=n, cluster=cl, ref=r, samples=len(X), symmetric=given is not C)
    e, J = ctx.call(s.S, cl, given)
    we, wJ = O.S(cl)
    ctx.close([e], [we], 'contributions:entropy', **TOL)
    ctx.close(J, wJ, 'contributions:couplings', atol=1e-3, rtol=1e-3)
    if len(cl) <= 2:
        e, J = ctx.call(s.S, cl, given, useAnalyticResults=True)
        ctx.close([e], [we], 'contributions:analytic_entropy', atol=1e-9)
        ctx.close(J, wJ, 'contributions:analytic_couplings', atol=1e-7, rtol=1e-7)
    Oi = Oracle(Cw, 'independent')
    e, J = ctx.call(s.Sindependent, cl, given)
    we, wJ = Oi.S0(cl)
    ctx.close([e], [we], 'contributions:independent_entropy', atol=1e-10)
    ctx.close(J, wJ, 'contributions:independent_fields', atol=1e-9)
    dS, dJ = {}, {}
    for k in range(2):
        e, J = ctx.call(s.deltaS, cl, given, dS, dJ, iprint=False, **refkw(r))
        we, wJ = O.delta(cl)
        ctx.close([e], [we], 'contributions:delta_entropy', atol=1e-4, rtol=1e-4)
        ctx.close(J, wJ, 'contributions:delta_couplings', atol=4e-3, rtol=2e-3)
    subs = [tuple(sorted(c)) for k in range(1, len(cl) + 1) for c in combinations(cl, k)]
    if ctx.check(sorted(dS) == sorted(subs) and sorted(dJ) == sorted(subs), 'contributions:stored_clusters', got=sorted(dS)):
        # telescoping, exact up to rounding whatever the accuracy of the fits
        e, J = s.S(cl, given)
        e0 = O.S0(cl)
        ctx.close([sum(dS.values()) + e0[0]], [e], 'contributions:telescoping_entropy', atol=1e-9)
        ctx.close(sum(dJ.values()) + e0[1], J, 'contributions:telescoping_couplings', atol=1e-7)
        for c in subs:
            ctx.close([dS[c]], [O.delta(c)[0]], 'contributions:stored_entropy', atol=1e-4, rtol=1e-4)
    # starting from stored results gives the same
    keep = {c: dS[c] for c in dS if rng.random() < .5}
    keepJ = {c: dJ[c].copy() for c in keep}
    e2, J2 = ctx.call(s.deltaS, cl[::-1], given, dict(keep), keepJ, iprint=False, **refkw(r))
    ctx.close([e2], [dS[tuple(sorted(cl))]], 'contributions:order_of_labels', atol=1e-4, rtol=1e-4)
    # no tables given: every call stands alone, whatever was computed before it
    if len(cl) <= 3:
        Y = data(rng, n)
        D = mf.cooccurrence_matrix((Y + 1) / 2)
        Dw = np.triu(((Y + 1) / 2).T.dot((Y + 1) / 2) / len(Y))
        for corr, corrw, q in ((given, Cw, r), (D, Dw, r), (given, Cw, 'independent' if r == 'meanfield' else 'meanfield')):
            e3, J3 = ctx.call(s.deltaS, cl, corr, iprint=False, **refkw(q))
            we, wJ = Oracle(corrw, q).delta(cl)
            ctx.close([e3], [we], 'contributions:alone_entropy', atol=1e-4, rtol=1e-4)
            ctx.close(J3, wJ, 'contributions:alone_couplings', atol=4e-3, rtol=2e-3)
    ctx.check(cl == cl0, 'contributions:cluster_modified')
    ctx.eq(given, g0, 'contributions:correlations_modified')
    ctx.raises(s.deltaS, 'contributions:both_references', cl, given, {}, {}, iprint=False, meanFieldRef=True, independentRef=True)
    ctx.raises(s.deltaS, 'contributions:no_reference', cl, given, {}, {}, iprint=False, meanFieldRef=False, independentRef=False)
    ctx.count('clusters', len(subs))
    ctx.seen(X, cl, r)


@monitor(64, 700, shards=8, cost=2)
def expansion(ctx):
    rng = ctx.rng
    n = int(rng.integers(2, 7 if not ctx.thorough else 8))
    X = data(rng, n)
    X0 = X.copy()
    s = so.ClusterExpansion(X, iprint=False)
    T = ((X + 1) / 2)
    C = np.triu(T.T.dot(T) / len(X))
    r = ['independent', 'independent', 'meanfield'][int(rng.integers(3))]
    O = Oracle(C, r)
    mode = ['none', 'infinite', 'between'][ctx.i % 3]
    th = {'none': -1., 'infinite': np.inf, 'between': float(10**rng.uniform(-6, -2))}[mode]
    if mode == 'none' and n > 5:
        n = 5
        X = X[:, :n]
        X0 = X.copy()
        s = so.ClusterExpansion(X, iprint=False)
        O = Oracle(C[:n, :n], r)
    labels = list(range(n))
    kw = dict(refkw(r), iprint=False, full_output=True)
    if rng.random() < .3 and n > 2:
        labels = [int(i) for i in rng.permutation(n)[:int(rng.integers(1, n))]]
        kw['cluster'] = list(labels)
    ctx.note(n=n, samples=len(X), ref=r, threshold=th, cluster=labels)
    mult, ent, clusters, dS, dJ = ctx.call(s.solve, th, **kw)
    ctx.eq(mult, s.multipliers, 'expansion:multipliers_attribute')
    ctx.eq(X, X0, 'expansion:data_modified')
    inc = sorted(tuple(sorted(c)) for k in clusters for c in clusters[k])
    ctx.check(len(set(inc)) == len(inc), 'expansion:cluster_repeated', got=inc)
    ctx.check(all(len(c) == k for k in clusters for c in clusters[k]), 'expansion:cluster_size')
    # which clusters belong: singles, then unions of two included clusters sharing all but one, if above the threshold
    want, level, unclear = [(i,) for i in labels], [(i,) for i in labels], False
    while level:
        nxt = set()
        for a, b in combinations(level, 2):
            u = tuple(sorted(set(a) | set(b)))
            if len(u) == len(a) + 1 and u not in nxt:
                d = abs(O.delta(u)[0])
                unclear |= abs(d - th) < 2e-4 * (1 + d) if np.isfinite(th) and th > 0 else False
                if d > th:
                    nxt.add(u)
        want += sorted(nxt)
        level = sorted(nxt)
    if not unclear:
        ctx.check(sorted(want) == inc, 'expansion:clusters', got=inc, want=sorted(want))
    e0, J0 = O.S0(labels)
    # sums over what was included, with contributions from the independent fits
    e = e0 + sum(O.delta(c)[0] for c in inc)
    J = J0 + sum(O.delta(c)[1] for c in inc)
    ctx.close([ent], [e], 'expansion:entropy', atol=2e-4 * (1 + len(inc)), rtol=1e-4)
    ctx.close(mult, to11(J), 'expansion:parameters', atol=4e-3 * (1 + len(inc))**.5, rtol=2e-3)
    ctx.close([ent], [e0 + sum(dS[c] for c in inc)], 'expansion:entropy_of_its_own_contributions', atol=1e-9)
    ctx.close(mult, to11(J0 + sum(dJ[c] for c in inc)), 'expansion:parameters_of_its_own_contributions', atol=1e-8)
    if mode == 'none':
        # exact: the model reproduces the correlations of the data
        we, wt = maxent(O.C, sorted(labels))
        ctx.close([ent], [we], 'expansion:exact_entropy', **TOL)
        if len(labels) == n:
            m = ref.ising_model(mult, n)[3]
            ctx.close(m, ref.ising_obs(X).mean(0), 'expansion:exact_correlations', atol=1e-5)
    elif mode == 'infinite':
        ctx.check(all(len(c) == 1 for c in inc), 'expansion:infinite_threshold')
        if r == 'independent' and len(labels) == n:
            w = np.concatenate([np.arctanh(X.mean(0)), np.zeros(n * (n - 1) // 2)])
            ctx.close(mult, w, 'expansion:independent_spins', atol=1e-5)
            p = T.mean(0)
            ctx.close([ent], [-(p * np.log(p) + (1 - p) * np.log(1 - p)).sum()], 'expansion:independent_entropy', atol=1e-6)
    # relabelling the spins relabels the result
    if len(labels) == n:
        perm = rng.permutation(n)
        s2 = so.ClusterExpansion(np.ascontiguousarray(X[:, perm]), iprint=False)
        m2, e2, c2, _, _ = ctx.call(s2.solve, th, **kw)
        inc2 = sorted(tuple(sorted(int(perm[i]) for i in c)) for k in c2 for c in c2[k])
        if inc2 == inc:
            P = ref.pairs(n)
            back = np.concatenate([mult[perm], [mult[n + P.index((min(perm[i], perm[j]), max(perm[i], perm[j])))] for i, j in P]])
            ctx.close(m2, back, 'expansion:labelling', atol=4e-3, rtol=2e-3)
            ctx.close([e2], [ent], 'expansion:labelling_entropy', atol=1e-4)
        else:
            ctx.check(unclear or mode == 'between', 'expansion:labelling_clusters', got=inc2, want=inc)
    ctx.count('clusters', len(inc))
    ctx.seen(X, th, r)


@monitor(48, 400, shards=4)
def subsets(ctx):
    rng = ctx.rng
    s = so.ClusterExpansion(3, iprint=False)
    m = int(rng.integers(1, 8))
    S = [int(i) for i in rng.choice(30, m, replace=False)]
    S0 = list(S)
    ctx.note(set=S)
    for k in range(-1, m + 2):
        got = ctx.call(s.subsets, S, k)
        want = sorted(tuple(sorted(c)) for c in combinations(S, k)) if 0 < k <= m else []
        ctx.check(sorted(tuple(sorted(int(i) for i in c)) for c in got) == want, 'subsets:all_once', 'size %d' % k, got=got)
        if 0 < k <= m:
            ctx.check(sorted(tuple(sorted(int(i) for i in c)) for c in s.subsets(S, k, sort=True)) == want, 'subsets:sorted')
    ctx.check(S == S0, 'subsets:modified')
    ctx.raises(s.subsets, 'subsets:repeated_element', S + [S[0]], 1)
    ctx.check(len({s.clusterID([S[i] for i in rng.permutation(m)]) for _ in range(5)}) == 1, 'subsets:clusterID')
    ctx.seen(S)


def penalized(C, ix, lam):
    """Misfit and penalty of the fit with the prior: squares of the differences of the correlations, and of
    lam f_i (1 - f_i) f_j (1 - f_j) J_ij^2."""
    k = len(ix)
    o = ref.ising_obs(ref.states(k, (0, 1)))
    f = np.array([C[i, i] for i in ix])
    target = np.concatenate([f, [C[i, j] for i, j in combinations(ix, 2)]])
    F = np.array([f[i] * (1 - f[i]) * f[j] * (1 - f[j]) for i, j in combinations(range(k), 2)])

    def parts(J):
        h, K = np.diag(J), np.array([J[i, j] + J[j, i] for i, j in combinations(range(k), 2)])
        m = ref.boltzmann(o, -np.concatenate([h, K]))[2]
        return m - target, lam * F * K**2
    return parts


@monitor(64, 600, shards=8, cost=2)
def prior(ctx):
    """The prior for weak couplings: what it minimizes, what it depends on, and that it reaches every cluster."""
    rng = ctx.rng
    n = int(rng.integers(2, 6))
    X = data(rng, n)
    s = so.ClusterExpansion(X, iprint=False)
    T = (X + 1) / 2
    C = np.triu(T.T.dot(T) / len(X))
    N = len(X)
    lam = float(10**rng.uniform(-1, 2))
    cl = [int(i) for i in rng.permutation(n)[:int(rng.integers(2, min(n, 4) + 1))]]
    ix = sorted(cl)
    ctx.note(n=n, samples=N, cluster=cl, strength=lam)
    e0, J0 = ctx.call(s.S, cl, C)
    eN, JN = ctx.call(s.S, cl, C, priorLmbda=0., numSamples=N)
    ctx.eq(JN, J0, 'prior:zero_strength')
    e, J = ctx.call(s.S, cl, C, priorLmbda=lam * N, numSamples=N)
    e2, J2 = ctx.call(s.S, cl, C, priorLmbda=lam * 2 * N, numSamples=2 * N)
    ctx.close(J2, J, 'prior:strength_per_sample', atol=1e-8)
    ctx.close(J, J.T, 'prior:symmetric', atol=1e-12)
    parts = penalized(C, ix, lam)
    sub = np.ix_(ix, ix)
    (m0, p0), (m1, p1) = parts(J0[sub]), parts(J[sub])
    ctx.check((p1**2).sum() <= (p0**2).sum() + 1e-8, 'prior:couplings_not_weaker', got=(p1**2).sum(), want=(p0**2).sum())
    ctx.check((m1**2).sum() >= (m0**2).sum() - 1e-8, 'prior:closer_than_the_best_fit')
    # nothing nearby is better
    k = len(ix)

    def f(v):
        A = np.zeros((k, k))
        A[np.diag_indices(k)] = v[:k]
        A[np.triu_indices(k, 1)] = v[k:]
        return np.concatenate(parts(A))
    sol = least_squares(f, np.concatenate([np.diag(J[sub]), 2 * J[sub][np.triu_indices(k, 1)]]), xtol=1e-14, ftol=1e-14, gtol=1e-14)
    got, best = (m1**2).sum() + (p1**2).sum(), 2 * sol.cost
    ctx.check(got <= best * (1 + 1e-3) + 1e-9, 'prior:not_minimal', got=got, want=best)
    Z = ref.boltzmann(ref.ising_obs(ref.states(k, (0, 1))), -np.concatenate([np.diag(J[sub]), 2 * J[sub][np.triu_indices(k, 1)]]))[0]
    ctx.close([e], [-(Z * np.log(Z)).sum()], 'prior:entropy', atol=1e-9)
    # the expansion in all clusters adds up to the fit of everything, with the prior
    r = ['independent', 'meanfield'][int(rng.integers(2))]
    kw = dict(refkw(r), priorLmbda=lam * N, numSamples=N)
    if r == 'meanfield' and rng.random() < .5:
        kw['meanFieldPriorLmbda'] = float(rng.choice([0., 3., 50.]))
    dS, dJ = {}, {}
    iprint = bool(rng.random() < .3)
    with contextlib.redirect_stdout(io.StringIO()):
        e1, J1 = ctx.call(s.deltaS, cl, C, dS, dJ, iprint=iprint, **kw)
    if r == 'independent':
        z, zJ = s.Sindependent(cl, C)
    else:
        z, zJ = mf.SmeanField(cl, C, meanFieldPriorLmbda=kw.get('meanFieldPriorLmbda', lam * N), numSamples=N)
    if ctx.check(len(dS) == 2**k - 1, 'prior:stored_clusters'):
        ctx.close([sum(dS.values()) + z], [e], 'prior:telescoping_entropy', atol=1e-9)
        ctx.close(sum(dJ.values()) + zJ, J, 'prior:telescoping_couplings', atol=1e-7)
        # and so does the expansion in the parts of any one of them
        for c in sorted(dS):
            cS, cJ = s.S(list(c), C, priorLmbda=lam * N, numSamples=N)
            inside = [x for x in dS if set(x) <= set(c)]
            if r == 'independent':
                z, zJ = s.Sindependent(list(c), C)
            else:
                z, zJ = mf.SmeanField(list(c), C, meanFieldPriorLmbda=kw.get('meanFieldPriorLmbda', lam * N), numSamples=N)
            ctx.close([sum(dS[x] for x in inside) + z], [cS], 'prior:telescoping_part_entropy', atol=1e-8)
            ctx.close(sum(dJ[x] for x in inside) + zJ, cJ, 'prior:telescoping_part_couplings', atol=1e-5)
    q, qJ = ctx.call(s.deltaS, cl[:1], C, {}, {}, iprint=False, **kw)
    ctx.close([dS[(cl[0],)]], [q], 'prior:single', atol=1e-8)
    with contextlib.redirect_stdout(io.StringIO()):
        mult, ent, clusters, dS, dJ = ctx.call(s.solve, -1., cluster=list(cl), full_output=True, iprint=iprint,
                                               veryVerbose=bool(rng.random() < .3), **kw)
        alone = ctx.call(s.solve, -1., cluster=list(cl), full_output=False, iprint=not iprint, **kw)
    ctx.eq(alone, mult, 'prior:what_is_returned')
    ctx.close([ent], [e], 'prior:expansion_entropy', atol=1e-8)
    ctx.close(mult, to11(J), 'prior:expansion_parameters', atol=1e-6)
    ctx.count('clusters', len(dS))
    ctx.seen(X, cl, lam)
