"""C19: model objects answer consistently however they are configured."""
import importlib.util
import os
import sys
import numpy as np
import coniii.models as cm
import coniii.enumerate_potts as ep
import coniii.ising.utils as iu
from coniii.ising.utils import Ising as FrontEnd
import ref
from core import cache_factories, monitor, settings

NEED = ('plain',)
cache_factories(cm, iu)
settings('The same parameters handed over in every accepted format, and random histories of replacing parameters, '
         'setting up samplers, replacing random generators and asking for expectation values, probabilities, energies '
         'and samples (drawn in this process and in parallel); after every operation all answers are compared with '
         'direct enumeration for the parameters now in force, and the calls reaching the sampler are recorded. The '
         'front end for exact Ising models is compared with enumeration, its descent step by step.',
         ['samples are judged by parameters whose ground state carries all but 1e-6 of the probability'], scale=2)


def pack(t, n):
    M = np.zeros((n, n))
    M[np.triu_indices(n, 1)] = t[n:]
    return M + M.T + np.diag(t[:n])


def obs_of(kind, X):
    if kind == 'potts':
        return ref.potts_obs(X, 3)
    return ref.ising_obs(X, 3 if kind == 'triplet' else 2)


VALS = {'ising': (-1, 1), 'triplet': (-1, 1), 'potts': (0, 1, 2)}


def nparam(kind, n):
    return {'ising': n + n * (n - 1) // 2, 'triplet': n + n * (n - 1) // 2 + n * (n - 1) * (n - 2) // 6,
            'potts': 3 * n + n * (n - 1) // 2}[kind]


def answers(ctx, m, kind, n, t, exact, what):
    """Everything the model can be asked, for the parameters t in force."""
    ctx.eq(m.n, n, what + ':system_size')
    ctx.eq(np.asarray(m.multipliers, dtype=float), t, what + ':multipliers')
    big = n > 8 or (kind == 'potts' and n > 4)
    X = ref.states(n, VALS[kind]) if not big else ctx.rng.choice(VALS[kind], (20, n))
    o = obs_of(kind, X)
    ctx.close(ctx.call(m.calc_e, X, np.asarray(m.multipliers, dtype=float)), -o.dot(t), what + ':energies', rtol=1e-9, atol=1e-9 * (1 + np.abs(t).sum()))
    if not exact:
        ctx.check(m.calc_observables is None and m.calc_p is None, what + ':exact_results_offered_for_a_size_that_has_none')
        return
    if big:
        X = ref.states(n, VALS[kind])
        o = obs_of(kind, X)
    p, _, e = ref.boltzmann(o, t)
    ctx.close(ctx.call(m.calc_observables), e, what + ':expectation_values', rtol=1e-7, atol=1e-9)
    got = np.asarray(ctx.call(m.calc_p))
    ctx.close(np.sort(got), np.sort(p), what + ':probabilities', rtol=1e-6, atol=1e-11)
    # another vector can be asked about without changing the model
    u = ctx.rng.normal(size=len(t))
    u0 = u.copy()
    p, _, e = ref.boltzmann(o, u)
    ctx.close(ctx.call(m.calc_observables, u), e, what + ':expectation_values_of_other_parameters', rtol=1e-7, atol=1e-9)
    ctx.close(np.sort(ctx.call(m.calc_p, u)), np.sort(p), what + ':probabilities_of_other_parameters', rtol=1e-6, atol=1e-11)
    ctx.eq(u, u0, what + ':argument_modified')
    ctx.eq(np.asarray(m.multipliers, dtype=float), t, what + ':changed_by_asking')


@monitor(120, 3000, shards=4)
def formats(ctx):
    rng = ctx.rng
    n = int(rng.integers(2, 15))
    t = ref.theta_scales(rng, n * (n + 1) // 2)
    if rng.random() < .2:
        t = rng.integers(-2, 3, t.size).astype(float)
    t = np.clip(t, -6, 6)
    exact = n <= 9
    ctx.note(n=n, theta=t)
    M = pack(t, n)
    forms = {'vector': t.copy(), 'list': [t[:n].copy(), t[n:].copy()], 'tuple': (t[:n].copy(), t[n:].copy()), 'matrix': M.copy()}
    if np.array_equal(t, np.round(t)):
        forms['integers'] = t.astype(int)
        forms['integer_matrix'] = M.astype(int)
    forms['fortran'] = np.asfortranarray(M)
    forms['strided'] = np.repeat(t, 2)[::2]
    for name, f in forms.items():
        keep = [x.copy() for x in f] if isinstance(f, (list, tuple)) else f.copy()
        m = ctx.call(cm.Ising, f, _key='Ising:' + name)
        ctx.check(all(np.array_equal(a, b) for a, b in zip(f, keep)), 'formats:argument_modified', name)
        answers(ctx, m, 'ising', n, t, exact, 'formats:' + name)
    m = ctx.call(cm.Ising, n, _key='Ising:int')
    answers(ctx, m, 'ising', n, np.zeros_like(t), exact, 'formats:size')
    ctx.check(cm.PairwiseMaxent is cm.Ising, 'formats:alias')
    # not a model of any size
    bad = [t[:-1] if (n, t.size - 1) != (2, 2) and not any(k * (k + 1) // 2 == t.size - 1 for k in range(2, n)) else None,
           [t[:n], t[n:][:-1]], [t[:n], np.append(t[n:], 0.)], 1, None, 'abc']
    A = M.copy()
    A[0, -1] += 1
    bad.append(A)
    if n > 2:   # two rows of three are the fields and couplings of three spins
        bad.append(rng.normal(size=(n, n + 1)))
    for b in bad:
        if b is not None:
            ctx.raises(cm.Ising, 'formats:ill_formed_parameters_accepted', b)
    ctx.seen(n, t)


@monitor(40, 800, shards=4)
def other_models(ctx):
    rng = ctx.rng
    # triplets: exact results only for the size shipped
    n = int(rng.choice([3, 4, 5, 5, 6, 7]))
    k = [n, n * (n - 1) // 2, n * (n - 1) * (n - 2) // 6]
    t = np.clip(ref.theta_scales(rng, sum(k)), -4, 4)
    parts = np.split(t, np.cumsum(k)[:-1])
    keep = [x.copy() for x in parts]
    m = ctx.call(cm.Triplet, parts, _key='Triplet')
    answers(ctx, m, 'triplet', n, t, n == 5, 'triplet')
    ctx.check(all(np.array_equal(a, b) for a, b in zip(parts, keep)), 'triplet:argument_modified')
    ctx.raises(cm.Triplet, 'triplet:ill_formed_parameters_accepted', [parts[0], parts[1], parts[2][:-1]])
    ctx.raises(cm.Triplet, 'triplet:ill_formed_parameters_accepted', [parts[0], parts[1][:-1], parts[2]])
    # Potts: exact results once equations have been written for the size
    n = int(rng.choice([2, 3, 3, 4, 5]))
    t = np.clip(ref.theta_scales(rng, nparam('potts', n)), -4, 4)
    name = 'coniii.ising_eqn.ising_eqn_%d_potts' % n
    own = n == 3
    if own:
        d = os.path.join(ctx.scratch, 'w%d' % ctx.i)
        os.makedirs(d, exist_ok=True)
        sp = importlib.util.spec_from_file_location(name, write_potts(ctx, n, d))
        mod = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(mod)
        sys.modules[name] = mod
    try:
        for what, f in (('vector', t.copy()), ('list', [t[:3 * n].copy(), t[3 * n:].copy()])):
            m = ctx.call(cm.Potts3, f, _key='Potts3:' + what)
            answers(ctx, m, 'potts', n, t, own, 'potts:' + what)
            u = np.clip(ref.theta_scales(rng, t.size), -4, 4)
            ctx.call(m.set_multipliers, u)
            answers(ctx, m, 'potts', n, u, own, 'potts:replaced')
    finally:
        sys.modules.pop(name, None)
    ctx.raises(cm.Potts3, 'potts:ill_formed_parameters_accepted', [t[:3 * n], t[3 * n:][:-1]])
    ctx.raises(cm.Potts3, 'potts:ill_formed_parameters_accepted', np.append(t, 0.))
    ctx.note(n=n, theta=t)
    ctx.seen(t)


def write_potts(ctx, n, d):
    f = os.path.join(d, 'potts.py')
    ctx.call(ep.SpecificFieldGenericCouplings(n, 3).write, f, _key='potts_writer')
    return f


def strong(rng, kind, n):
    """Parameters with one state carrying nearly all of the probability, reached by single-spin updates."""
    t = np.zeros(nparam(kind, n))
    if kind == 'potts':
        g = rng.integers(0, 3, n)
        t[g * n + np.arange(n)] = rng.uniform(18, 22, n)
        t[3 * n:] = rng.normal(size=n * (n - 1) // 2) * .1
    else:
        g = rng.choice([-1, 1], n)
        t[:n] = g * rng.uniform(9, 12, n)
        t[n:] = rng.normal(size=t.size - n) * .1
    return t, g


@monitor(56, 800, shards=8, cost=3)
def histories(ctx):
    rng = ctx.rng
    kind = str(rng.choice(['ising', 'ising', 'triplet', 'potts']))
    n = {'ising': int(rng.integers(2, 12)), 'triplet': int(rng.integers(3, 7)), 'potts': int(rng.integers(2, 6))}[kind]
    exact = {'ising': n <= 9, 'triplet': n == 5, 'potts': False}[kind]

    def new(t, **k):
        if kind == 'ising':
            return cm.Ising(t, **k)
        if kind == 'triplet':
            a, b = n, n + n * (n - 1) // 2
            return cm.Triplet([t[:a], t[a:b], t[b:]], **k)
        return cm.Potts3(t, **k)
    t, g = strong(rng, kind, n)
    seed = int(rng.integers(2**31))
    rngs = [np.random.RandomState(seed)]
    m = ctx.call(new, t.copy(), rng=rngs[0], _key='model')
    twin = new(t.copy(), rng=np.random.RandomState(seed))
    ready, history, size = False, [], None
    for step in range(12):
        op = str(rng.choice(['set', 'set', 'setup', 'sample', 'sample', 'sample', 'sample_other', 'rng', 'ask', 'alter']))
        history.append(op)
        ctx.note(kind=kind, n=n, history=list(history))
        if op == 'set':
            t, g = strong(rng, kind, n)
            v = t.copy()
            m.set_multipliers(v)
            twin.set_multipliers(t.copy())
            ctx.eq(v, t, 'histories:argument_modified')
        elif op == 'setup':
            size = int(rng.integers(1, 25))
            kw = {'boost': bool(rng.random() < .6)}
            if kind == 'potts':
                kw['n_cpus'] = 3
            else:
                kw['iprint'] = False
            if rng.random() < .4:   # both with the defaults
                kw = None
            given = {} if kw is None else {'sampler_kwargs': kw}
            keep = dict(kw or {})
            for x in (m, twin):
                ctx.call(x.setup_sampler, sample_size=size, **given, _key='setup_sampler')
            ctx.check((kw or {}) == keep, 'histories:sampler_kwargs_modified')
            ctx.eq(m.setup_sampler.__defaults__[-1], {}, 'histories:defaults_modified')
            procs = 3 if kw is not None else getattr(m.sampler, 'nCpus', 3)
            ready = True
            ctx.check(m.sample is None, 'histories:sample_of_an_earlier_sampler_kept')
            ctx.check(m.sampler.rng is m.rng, 'histories:generator_of_the_sampler')
        elif op == 'rng':
            s = int(rng.integers(2**31))
            r = np.random.RandomState(s)
            ctx.call(m.set_rng, r)
            twin.set_rng(np.random.RandomState(s))
            ctx.check(m.rng is r, 'histories:set_rng')
            if ready:
                ctx.check(m.sampler.rng is r, 'histories:set_rng_does_not_reach_the_sampler')
        elif op in ('sample', 'sample_other'):
            if not ready:
                ctx.raises(m.generate_sample, 'histories:sample_without_sampler', 10, 10)
                continue
            par = bool(rng.random() < .3)
            it, burn = int(rng.integers(30, 60)) * n, int(rng.integers(40, 80)) * n
            gk = {'systematic_iter': True} if rng.random() < .5 else {}
            k = {'parallel': par, 'generate_kwargs': dict(gk)}
            N = size
            if rng.random() < .4:
                N = k['sample_size'] = int(rng.integers(1, 25))
            if par and kind == 'potts' and N <= procs:
                N = k['sample_size'] = procs + 1   # fewer samples than processors are refused
            u, ug = t, g
            if op == 'sample_other':
                u, ug = strong(rng, kind, n)
                k['multipliers'] = u.copy()
            log = []
            name = 'generate_sample_parallel' if par else 'generate_sample'
            inner = getattr(m.sampler, name)
            other = 'generate_sample' if par else 'generate_sample_parallel'
            inner2 = getattr(m.sampler, other)

            def spy(*a, **kk):
                log.append((name, a, dict(kk), np.array(m.sampler.theta)))
                return inner(*a, **kk)

            def spy2(*a, **kk):
                log.append((other, a, dict(kk), np.array(m.sampler.theta)))
                return inner2(*a, **kk)
            setattr(m.sampler, name, spy)
            setattr(m.sampler, other, spy2)
            try:
                ctx.call(m.generate_sample, it, burn, **k)
            finally:
                setattr(m.sampler, name, inner)
                setattr(m.sampler, other, inner2)
            ctx.call(twin.generate_sample, it, burn, **k)
            ctx.eq([x[0] for x in log][:1], [name], 'histories:parallel_option')
            if log:
                ctx.close(log[0][3], u, 'histories:sampled_with_other_parameters', rtol=1e-12)
                for a, b in gk.items():
                    ctx.check(log[0][2].get(a) == b, 'histories:generate_kwargs_ignored', a)
                v = list(log[0][1]) + list(log[0][2].values())
                ctx.check(log[0][2].get('n_iters', it) == it and log[0][2].get('burn_in', burn) == burn and N in v, 'histories:sampling_options', v)
            X = np.asarray(m.sample)
            if ctx.eq(X.shape, (N, n), 'histories:sample_shape'):
                ctx.check(np.isin(X, VALS[kind]).all(), 'histories:sample_alphabet')
                wrong = (X != ug).any(1).sum()
                ctx.check(wrong <= 1 + .02 * N, 'histories:sample_of_other_parameters', '%d of %d rows' % (wrong, N))
                ctx.eq(X, twin.sample, 'histories:not_reproducible')
            ctx.eq(m.generate_sample.__defaults__[-1], {}, 'histories:defaults_modified')
            ctx.count('samples')
        elif op == 'alter':
            # what was handed out or in earlier is not part of the model's state any more: a fresh model is unaffected
            a, b = strong(rng, kind, n)
            m2 = new(a.copy())
            m2.set_multipliers(a.copy())
            answers(ctx, m2, kind, n, a, exact and n < 7, 'histories:second_model') if exact == (exact and n < 7) else None
        answers(ctx, m, kind, n, t, exact, 'histories:' + op)
        if ready:
            ctx.eq(m.sampler.n, n, 'histories:sampler_size')
    ctx.seen(kind, history, t)


@monitor(80, 3000, shards=4)
def front_end(ctx):
    rng = ctx.rng
    n = int(rng.integers(2, 10))
    form = str(rng.choice(['arrays', 'lists', 'numbers', 'ints', 'none', 'tuples']))
    h, J = rng.normal(size=n) * float(rng.choice([.2, 1.])), rng.normal(size=n * (n - 1) // 2) * float(rng.choice([.2, 1., 2.]))
    if form == 'numbers':
        h[:], J[:] = h[0], J[0]
        a = {'h': float(h[0]), 'J': float(J[0])}
    elif form == 'ints':
        h[:], J[:] = int(rng.integers(-2, 3)), int(rng.integers(-1, 2))
        a = {'h': int(h[0]), 'J': int(J[0])}
    elif form == 'none':
        a = {'h': h.copy(), 'J': J.copy()}
        if rng.random() < .6:
            a.pop('h')
            h[:] = 0
        if rng.random() < .6:
            a.pop('J')
            J[:] = 0
    elif form == 'lists':
        a = {'h': h.tolist(), 'J': J.tolist()}
    elif form == 'tuples':
        a = {'h': tuple(h), 'J': tuple(J)}
    else:
        a = {'h': h.copy(), 'J': J.copy()}
    ctx.note(n=n, form=form, h=h, J=J)
    m = ctx.call(FrontEnd, n, **a, _key='front_end:' + form)
    t = np.concatenate([h, J])
    S = ref.states(n, (-1, 1))
    o = ref.ising_obs(S)
    p, _, e = ref.boltzmann(o, t)
    ctx.close(m.hJ, t, 'front_end:parameters', atol=0, rtol=0)
    ctx.close(ctx.call(m.correlations), e, 'front_end:correlations', rtol=1e-7, atol=1e-9)
    ctx.close(ctx.call(m.correlations, '1'), e, 'front_end:correlations', rtol=1e-7, atol=1e-9)
    T = (S + 1) / 2
    ctx.close(ctx.call(m.correlations, '0'), p.dot(ref.ising_obs(T)), 'front_end:correlations_01', rtol=1e-7, atol=1e-9)
    ctx.close(ctx.call(m.fields), h, 'front_end:fields')
    ctx.close(ctx.call(m.couplings), J, 'front_end:couplings')
    t01 = np.concatenate([ctx.call(m.fields, '0'), ctx.call(m.couplings, '0')])
    q = ref.boltzmann(ref.ising_obs(T), t01)[0]
    ctx.close(q, p, 'front_end:parameters_01_define_another_model', rtol=1e-7, atol=1e-10)
    # neighbours and descent
    E = -o.dot(t)
    lut = {s.tobytes(): k for k, s in enumerate(S)}

    def nb(k):
        return [lut[(S[k] * np.where(np.arange(n) == i, -1, 1)).tobytes()] for i in range(n)]
    for k in rng.integers(0, len(S), 12):
        s = S[k].astype(rng.choice(['i8', 'f8', 'i1']))
        s0 = s.copy()
        ctx.close(ctx.call(m.neighbor_dE, s), E[nb(k)] - E[k], 'front_end:energy_differences', rtol=1e-8, atol=1e-9)
        ctx.close(ctx.call(m.calc_e, s[None].astype(int), m.hJ), [E[k]], 'front_end:energy', atol=1e-9)
        b = np.asarray(ctx.call(m.find_basin, s))
        ctx.eq(s, s0, 'front_end:state_modified')
        if not ctx.check(b.shape == (n,) and np.isin(b, (-1, 1)).all(), 'front_end:basin_not_a_state'):
            continue
        kb = lut[b.astype(S.dtype).tobytes()]
        ctx.check((E[nb(kb)] - E[kb] >= -1e-9).all(), 'front_end:basin_is_not_a_local_minimum', got=b)
        # steepest descent, unambiguous when all energies met are different
        c, unique = k, True
        while True:
            d = E[nb(c)] - E[c]
            srt = np.sort(d)
            if abs(srt[0]) < 1e-9 or (n > 1 and srt[0] < 0 and srt[1] - srt[0] < 1e-9):
                unique = False
            if not (d < -1e-9).any():
                break
            c = nb(c)[int(d.argmin())]
        if unique:
            ctx.eq(kb, c, 'front_end:basin_of_another_minimum', start=s, state=b, descent=S[c])
            ctx.count('descents_determined')
        b2 = np.asarray(ctx.call(m.find_basin, b))
        ctx.eq(b2, b, 'front_end:minimum_is_not_its_own_basin')
        ctx.eq(np.asarray(m.find_basin(s)), b, 'front_end:basin_not_repeatable')
    ctx.raises(FrontEnd, 'front_end:ill_formed_accepted', n, h=np.zeros(n + 1))
    ctx.raises(FrontEnd, 'front_end:ill_formed_accepted', n, J=np.zeros(n * (n - 1) // 2 + 1))
    ctx.raises(FrontEnd, 'front_end:ill_formed_accepted', 1)
    ctx.seen(t, form)
