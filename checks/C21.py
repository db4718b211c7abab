"""C21: parallel tempering keeps its replicas consistent."""
import numpy as np
import coniii.samplers as cs
import coniii.utils as cu
import mcstat
import ref
from core import monitor, settings

NEED = ('plain',)
settings('Every exchange round is observed: the replicas are photographed when the last simulation step before the '
         'exchanges is over and again afterwards, the sequence of exchanges is decoded from where each state went, and '
         'held against the exact exchange probability from energies evaluated independently; single exchange '
         'probabilities, the update of the temperatures, the trajectory returned and the samples of every level (exact '
         'Boltzmann probabilities at its temperature) are checked likewise. Processes are real in one monitor and '
         'replaced by a serial stand-in, which pickles what it is given and what it returns, in the others.',
         ['samples of a level are taken after the documented number of Metropolis steps between exchanges, chosen large '
          'enough that consecutive samples are independent to 1e-3 in total variation'], scale=3)
CALC = cu.define_ising_helper_functions()[0]


class SerialPool:
    """What a pool of processes does to its arguments and results, in this process."""
    def __init__(self, *a, **k):
        pass

    def map(self, f, args):
        import dill
        return [dill.loads(dill.dumps(f(dill.loads(dill.dumps(a))))) for a in args]

    def close(self):
        pass

    terminate = join = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class serial:
    def __enter__(self):
        self.p = cs.Pool
        cs.Pool = SerialPool

    def __exit__(self, *a):
        cs.Pool = self.p


def energy(theta, X):
    return -ref.ising_obs(X).dot(theta)


def draw(rng, nmax=6):
    n = int(rng.integers(2, nmax))
    theta = rng.normal(size=n * (n + 1) // 2) * float(rng.choice([.3, 1., 2.]))
    R = int(rng.integers(2, 6))
    lo = float(rng.uniform(.5, 2))
    T = (lo, lo * float(rng.uniform(1.2, 6)))
    return n, theta, R, T


def build(ctx, n, theta, R, T, **kw):
    return ctx.call(cs.ParallelTempering, n, theta, CALC, R, T, rng=np.random.RandomState(int(ctx.rng.integers(2**31))),
                    _key='ParallelTempering', **kw)


def consistent(ctx, pt, theta, what, T=None):
    """Invariants of the set of replicas that must hold at any time."""
    b = np.asarray(pt.beta)
    R = pt.nReplicas
    ctx.check(b.shape == (R,) and np.isfinite(b).all() and (np.diff(b) > 0).all(), 'state:temperatures_not_increasing:' + what, got=b)
    if T is not None:
        ctx.close([b[-1]], [1 / T[0]], 'state:coldest_moved:' + what, rtol=1e-12)
    ctx.eq(len(pt.replicas), R, 'state:number_of_replicas:' + what)
    for k, r in enumerate(pt.replicas):
        ctx.close(r.theta, theta * b[k], 'state:parameters_of_another_temperature:' + what, rtol=1e-10, level=k)
        X = np.asarray(r.sample)
        if ctx.check(X.shape == (1, pt.n) and np.isin(X, (-1, 1)).all(), 'state:sample:' + what):
            ctx.close(np.ravel(r.E), energy(theta, X) * b[k], 'state:energy_of_another_state:' + what, rtol=1e-7, atol=1e-7, level=k)
            ctx.eq(np.asarray(r._samples), X, 'state:chain_does_not_continue_from_the_sample:' + what)
    ctx.eq(sorted(r.index for r in pt.replicas), list(range(R)), 'state:replica_lost_or_duplicated:' + what)


def photo(pt):
    return [(int(r.index), np.array(r.sample).copy(), float(np.ravel(r.E)[0])) for r in pt.replicas]


@monitor(40, 600, shards=8, cost=2)
def exchanges(ctx):
    rng = ctx.rng
    n, theta, R, T = draw(rng)
    t0 = theta.copy()
    ctx.note(n=n, theta=theta, R=R, T=T)
    acc, prob = [], []
    with serial():
        pt = build(ctx, n, theta, R, T, replica_burnin=20, rep_ex_burnin=int(rng.integers(1, 2 * n + 2)))
        consistent(ctx, pt, theta, 'start', T)
        shots = []
        inner = pt.burn_in_replicas

        def burn_in_replicas(*a, **k):
            before = photo(pt)
            r = inner(*a, **k)
            shots.append((before, photo(pt)))
            return r
        pt.burn_in_replicas = burn_in_replicas
        for step in range(12 if not ctx.thorough else 25):
            pt.repExBurnin = int(rng.integers(1, 2 * n + 2))
            del shots[:]
            ctx.call(pt.burn_and_exchange, SerialPool())
            consistent(ctx, pt, theta, 'exchange', T)
            if not ctx.check(len(shots) > 0, 'exchange:no_simulation_before_exchanges'):
                return
            before, cur = shots[-1]
            # simulation itself must not exchange anything
            ctx.eq([c[0] for c in cur], [c[0] for c in before], 'exchange:indices_changed_by_simulation')
            after = photo(pt)
            # the states are carried along with their index
            state = {c[0]: c[1] for c in cur}
            for c in after:
                ctx.eq(c[1], state.get(c[0]), 'exchange:state_does_not_belong_to_replica', index=c[0])
            # decode neighbouring exchanges (0,1), (1,2), ... from the final order
            want = [c[0] for c in after]
            order = [c[0] for c in cur]
            E = {c[0]: float(energy(theta, c[1])[0]) for c in cur}
            for i in range(R - 1):
                a, b = order[i], order[i + 1]
                x = (pt.beta[i] - pt.beta[i + 1]) * (E[a] - E[b])
                p = float(np.exp(min(0., x)))
                if want[i] == a:
                    hit = 0
                elif want[i] == b:
                    hit = 1
                    order[i], order[i + 1] = b, a
                else:
                    ctx.count('undecodable_order')
                    break
                if p >= 1 - 1e-12:
                    ctx.check(hit, 'exchange:certain_exchange_refused', pair=i, exponent=x)
                elif p < 1e-12:
                    ctx.check(not hit, 'exchange:impossible_exchange_accepted', pair=i, exponent=x)
                else:
                    acc.append(hit)
                    prob.append(p)
    ctx.eq(theta, t0, 'exchange:parameters_modified')
    acc, prob = np.array(acc), np.array(prob)
    if len(acc):
        for lo, hi in ((0, 1), (0, .3), (.3, .7), (.7, 1)):
            m = (prob >= lo) & (prob < hi)
            pv = mcstat.bernstein_p((acc[m] - prob[m]).sum(), (prob[m] * (1 - prob[m])).sum())
            ctx.check(float(pv) > mcstat.ALPHA, 'exchange:acceptance_probability', 'p-value bound %g: accepted %d, expected %.1f of %d' % (
                float(pv), acc[m].sum(), prob[m].sum(), m.sum()), range=(lo, hi))
        ctx.count('random_exchanges', len(acc))
        ctx.count('accepted', acc.sum())
    ctx.seen(theta, acc.tobytes())


@monitor(6, 60, shards=6, cost=8)
def exchange_frequency(ctx):
    """Many exchange rounds on one pair of replicas put in chosen states: frequency against the exact probability."""
    rng = ctx.rng
    n = int(rng.integers(2, 5))
    theta = rng.normal(size=n * (n + 1) // 2)
    with serial():
        pt = build(ctx, n, theta, 2, (1., float(rng.uniform(1.5, 4))), replica_burnin=10)
        # no simulation in between: the states are those put there
        pt.burn_in_replicas = lambda *a, **k: None
        S = ref.states(n, (-1, 1))
        E = energy(theta, S)
        N = 250 if not ctx.thorough else 1500
        b = np.asarray(pt.beta)
        todo = []
        for i in range(len(S)):
            for j in range(len(S)):
                p = np.exp(min(0, (b[0] - b[1]) * (E[i] - E[j])))
                todo.append((abs(p - .5), i, j, p))
        todo.sort()
        pick = todo[:4] + todo[-2:]
        ctx.note(n=n, theta=theta, beta=b)
        for _, i, j, p in pick:
            hits = 0
            for _ in range(N):
                for r, k, q in ((pt.replicas[0], i, 0), (pt.replicas[1], j, 1)):
                    r.sample = S[[k]].copy()
                    r._samples = S[[k]].copy()
                    r.E = np.array([E[k] * b[q]])
                    r.index = q
                pt.burn_and_exchange(None)
                hits += pt.replicas[0].index == 1
            pv = mcstat.bernstein_p(hits - N * p, N * p * (1 - p))
            ctx.check(float(pv) > mcstat.ALPHA, 'frequency:acceptance_probability', 'bound %g: %d of %d, expected %.1f' % (float(pv), hits, N, N * p),
                      states=(i, j))
            if p >= 1 - 1e-12:
                ctx.eq(hits, N, 'frequency:certain_exchange_refused')
            ctx.count('exchange_attempts', N)
    ctx.seen(theta)


@monitor(30, 600, shards=6)
def temperatures(ctx):
    rng = ctx.rng
    # the update of the temperatures from given acceptance ratios
    for _ in range(20):
        m = int(rng.integers(2, 9))
        b = np.sort(rng.uniform(.05, 2, m))
        if (np.diff(b) < 1e-3).any():
            continue
        a = rng.uniform(.01, 1, m - 1)
        if rng.random() < .3:
            a[:] = a[0]
        b0, a0 = b.copy(), a.copy()
        c = np.asarray(ctx.call(cs.ParallelTempering.iterate_beta, b, a))
        ctx.eq(b, b0, 'temperatures:argument_modified')
        ctx.eq(a, a0, 'temperatures:argument_modified')
        if not ctx.eq(c.shape, b.shape, 'temperatures:shape'):
            return
        ctx.eq(c[-1], b[-1], 'temperatures:coldest_moved')
        ctx.check((np.diff(c) > 0).all(), 'temperatures:not_increasing', got=c)
        # levels that exchange rarely move together, in proportion to the acceptance ratio
        w = np.diff(b) * a / a.mean()
        if w.sum() < b[-1] * (1 - 1e-9):
            ctx.close(np.diff(c), w, 'temperatures:spacing', rtol=1e-9, atol=1e-12)
        # all temperatures stay positive and distinct
        ctx.check(c[0] > 0, 'temperatures:negative', got=c, acceptance=a)
        a[rng.random(m - 1) < .5] = 0
        c = np.asarray(ctx.call(cs.ParallelTempering.iterate_beta, b, a))
        ctx.check((np.diff(c) > 0).all(), 'temperatures:coincide', got=c, acceptance=a)
        ctx.check(c[0] > 0 and c[-1] == b[-1], 'temperatures:negative', got=c, acceptance=a)
    m = int(rng.integers(2, 9))
    lo, hi = sorted(rng.uniform(.05, 2, 2))
    b = np.asarray(ctx.call(cs.ParallelTempering.initialize_beta, lo, hi, m))
    ctx.check(b.shape == (m,) and abs(b[0] - lo) < 1e-12 and abs(b[-1] - hi) < 1e-12 and (np.diff(b) > 0).all(), 'temperatures:initial', got=b)
    n, theta, R, T = draw(rng, 5)
    for bad in ((T[1], T[0]), (0., T[1]), (-1., T[1]), (T[0], T[0])):
        ctx.raises(cs.ParallelTempering, 'temperatures:bad_range_accepted', n, theta, CALC, R, bad)
    ctx.raises(cs.ParallelTempering, 'temperatures:single_replica_accepted', n, theta, CALC, 1, T)
    # optimisation: the temperatures in use are the ones the replicas are simulated with, all along
    if rng.random() < .5:   # frozen replicas that do not exchange, or temperatures close to infinity
        theta = theta * float(rng.choice([.1, 10., 50.]))
        T = (T[0], T[0] * float(10**rng.uniform(1, 5)))
    ctx.note(n=n, theta=theta, R=R, T=T)
    with serial():
        pt = build(ctx, n, theta, R, T, replica_burnin=10, rep_ex_burnin=5)
        consistent(ctx, pt, theta, 'start', T)
        steps = []
        inner = pt._acceptance_ratio

        def acceptance(*a, **k):
            b = np.array(pt.beta)
            for q, r in enumerate(pt.replicas):
                ctx.close(r.theta, theta * b[q], 'optimise:simulated_with_parameters_of_another_temperature', rtol=1e-10, level=q)
            r = inner(*a, **k)
            steps.append((b, np.array(r)))
            return r
        pt._acceptance_ratio = acceptance
        for _ in range(2):
            import contextlib
            import io
            with contextlib.redirect_stdout(io.StringIO()):
                ctx.call(pt.optimize_beta, int(rng.integers(1, 6)), int(rng.integers(1, 3 * n)), **({} if rng.random() < .5 else {'max_iter': 3, 'tol': 1e-3}))
            ctx.check((np.diff(pt.beta) > 0).all(), 'optimise:not_increasing', got=pt.beta)
            ctx.check(pt.beta[0] > 0, 'optimise:negative', got=pt.beta)
            ctx.close([pt.beta[-1]], [1 / T[0]], 'optimise:coldest_moved', rtol=1e-12)
            for q, r in enumerate(pt.replicas):
                ctx.close(r.theta, theta * pt.beta[q], 'optimise:parameters', rtol=1e-10)
            ctx.call(pt.burn_and_exchange, SerialPool())
            consistent(ctx, pt, theta, 'after_optimisation', T)
        ctx.check(all((a[1] <= 1).all() and (a[1] >= 0).all() and len(a[1]) == R - 1 for a in steps if len(a[1]) == R - 1), 'optimise:acceptance_ratio_range')
        ctx.count('temperature_updates', len(steps))
        # acceptance ratio of the states held, after simulation and without any
        del pt._acceptance_ratio
        K = int(rng.integers(1, 4))
        seen = []
        burn = pt.burn_in_replicas

        def burn_in(*a, **k):
            r = burn(*a, **k)
            E = [float(energy(theta, q.sample)[0]) for q in pt.replicas]
            seen.append([np.exp(min(0, (pt.beta[i] - pt.beta[i + 1]) * (E[i] - E[i + 1]))) for i in range(R - 1)])
            return r
        pt.burn_in_replicas = burn_in
        got = np.ravel(ctx.call(pt._acceptance_ratio, K, int(rng.integers(1, 2 * n))))
        del pt.burn_in_replicas
        if len(seen) == K:
            ctx.close(got, np.mean(seen, axis=0), 'optimise:acceptance_ratio', rtol=1e-7)
            ctx.count('ratios_recomputed', K)
        E = [float(energy(theta, r.sample)[0]) for r in pt.replicas]
        for i in range(R - 1):
            p = np.exp(min(0, (pt.beta[i] - pt.beta[i + 1]) * (E[i] - E[i + 1])))
            ctx.close(np.ravel(ctx.call(pt._acceptance_ratio, 1, 0, pairs=[(i, i + 1)])), [p], 'optimise:exchange_probability', rtol=1e-7)
    ctx.seen(theta)


@monitor(6, 80, shards=6, cost=10)
def levels(ctx):
    """Samples of every level against the Boltzmann distribution at its temperature."""
    rng = ctx.rng
    n = int(rng.integers(2, 4))
    theta = rng.normal(size=n * (n + 1) // 2) * float(rng.choice([.4, .8]))
    R, T = int(rng.integers(2, 4)), (1., float(rng.uniform(1.5, 3)))
    S = ref.states(n, (-1, 1))
    o = ref.ising_obs(S)
    N = 250 if not ctx.thorough else 1000
    with serial():
        pt = build(ctx, n, theta, R, T, replica_burnin=40 * n, rep_ex_burnin=20 * n)
        ctx.note(n=n, theta=theta, beta=pt.beta)
        hist = bool(rng.random() < .5)
        traj = ctx.call(pt.generate_sample, N, save_exchange_trajectory=hist)
    ctx.eq(len(pt.sample), R, 'levels:number')
    for k in range(R):
        X = np.asarray(pt.sample[k])
        if not ctx.eq(X.shape, (N, n), 'levels:shape') or not ctx.check(np.isin(X, (-1, 1)).all(), 'levels:alphabet'):
            return
        p = ref.boltzmann(o, theta * pt.beta[k])[0]
        c = np.bincount(ref.state_ix(X, (-1, 1)), minlength=len(S))
        # draws are independent up to 1e-3 and the exchanges: every second sweep of 40 n single-spin updates
        v, i = mcstat.worst(c - N * p, N * p * (1 - p) * 1.5 + .02 * N * .05)
        ctx.check(v > mcstat.ALPHA, 'levels:distribution', 'level %d, state %d: %d of %d, expected %.1f, bound %g' % (k, i, c[i], N, N * p[i], v))
        m, om = (o[ref.state_ix(X, (-1, 1))]).mean(0), p.dot(o)
        va = p.dot((o - om)**2)
        v, i = mcstat.worst((m - om) * N / 2, N * (va * 1.5 + .001) / 4)
        ctx.check(v > mcstat.ALPHA, 'levels:moments', 'level %d, moment %d: %g, expected %g' % (k, i, m[i], om[i]))
    if hist:
        traj = np.asarray(traj)
        if ctx.eq(traj.shape, (N, R), 'levels:trajectory_shape'):
            ctx.eq(np.sort(traj, axis=1), np.tile(np.arange(R), (N, 1)), 'levels:trajectory_not_a_permutation')
            ctx.eq(traj[-1], [r.index for r in pt.replicas], 'levels:trajectory_end')
            ctx.count('moves', (traj[1:] != traj[:-1]).any(1).sum())
            ctx.check((traj[1:] != traj[:-1]).any(), 'levels:never_exchanged')
    for k in range(R):
        ctx.eq(np.asarray(pt.sample[k])[-1], np.asarray(pt.replicas[k].sample)[0], 'levels:last_sample_is_the_state_held', level=k)
    ctx.count('samples', N * R)
    ctx.seen(pt.sample[0])


@monitor(3, 20, shards=3, cost=10)
def real_processes(ctx):
    """The same invariants with the processes the package really uses."""
    rng = ctx.rng
    n, theta, R, T = draw(rng, 5)
    ctx.note(n=n, theta=theta, R=R, T=T)
    pt = build(ctx, n, theta, R, T, replica_burnin=20, rep_ex_burnin=10)
    consistent(ctx, pt, theta, 'processes', T)
    N = int(rng.integers(1, 30))
    traj = np.asarray(ctx.call(pt.generate_sample, N, save_exchange_trajectory=True))
    consistent(ctx, pt, theta, 'processes', T)
    ctx.eq(np.sort(traj, axis=1), np.tile(np.arange(R), (N, 1)), 'processes:trajectory')
    ctx.eq(np.array(pt.sample).shape, (R, N, n), 'processes:shape')
    X = np.array(pt.sample)
    ctx.check(np.isin(X, (-1, 1)).all(), 'processes:alphabet')
    # replicas have random streams of their own
    a = [r.rng.randint(2**31 - 1) for r in pt.replicas]
    ctx.eq(len(set(a)), R, 'processes:replicas_share_a_random_stream')
    ctx.seen(X)
