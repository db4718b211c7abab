"""Workload for the compiled samplers, run in child processes under AddressSanitizer/UBSan, under
valgrind, and with perturbed heaps.   native.py MODE FIRST N SEED EXT
MODE native: only the extension module at path EXT.  MODE public: through the package.
Prints 'CASE i what' before and 'DONE i digest' after every case; digests cover every array returned."""
import hashlib
import importlib.util
import sys

import numpy as np


def load(path):
    s = importlib.util.spec_from_file_location('samplers_ext', path)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


def layouts(rng, v):
    """The values of v in some type and memory layout, all exactly representable."""
    c = int(rng.integers(0, 12))
    if c == 0:
        return v.copy(), 'f8'
    if c == 1:
        a = np.full((v.size, 3), 7.25)
        a[:, 1] = v
        return a[:, 1], 'column'
    if c == 2:
        return v[::-1].copy()[::-1], 'reversed'
    if c == 3:
        return v.astype(np.float32), 'f4'
    if c == 4:
        return v.astype('>f8'), 'big endian'
    if c == 5:
        a = v.copy()
        a.flags.writeable = False
        return a, 'read only'
    if c == 6:
        b = np.zeros(v.size * 8 + 3, np.uint8)
        b[3:] = np.frombuffer(v.tobytes(), np.uint8)
        return b[3:].view('f8'), 'unaligned'
    if c == 7:
        return np.repeat(v, 2)[::2], 'strided'
    if c == 8:
        return np.round(v * 4).astype(np.int64), 'i8'
    if c == 9:
        return np.round(v * 4).astype(np.int8), 'i1'
    if c == 10:
        return np.round(v * 4).astype(object), 'object'
    return v.astype(np.float16), 'f2'


def rounded(rng, size):
    return np.round(rng.normal(size=size) * rng.choice([.5, 1, 4]) * 8) / 8


def fixed(rng, n, all_=False):
    m = n if all_ else int(rng.integers(1, n + 1))
    ix = np.sort(rng.choice(n, m, replace=False)).astype(np.int32)
    return ix, rng.choice([-1, 1], m).astype(np.int32)


def native_case(E, rng, small):
    n = int(rng.choice([1, 1, 2, 3, 4, 5, 8] if small else [1, 1, 2, 3, 5, 8, 17, 40, 101]))
    S = int(rng.choice([0, 1, 2, 7, 40]))
    burn, it = (int(x) for x in rng.choice([0, 1, 2, 9, 60], 2))
    sy = bool(rng.integers(2))
    seed = int(rng.integers(0, 2**31 - 1))
    out, what = [], dict(n=n, S=S, burn_in=burn, n_iters=it, systematic=sy, seed=seed)
    c = int(rng.integers(0, 6))
    if c < 3:
        th, lay = layouts(rng, rounded(rng, n + n * (n - 1) // 2))
        what.update(model='Ising', layout=lay, op=('sample', 'cond', 'readin')[c])
    else:
        th, lay = layouts(rng, rounded(rng, 3 * n + n * (n - 1) // 2))
        what.update(model='Potts3', layout=lay, op=('sample', 'reduce', 'wrong length')[c - 3])
    yield what
    if c < 3:
        s = E.BoostIsing(n, th, seed)
        if c == 0:
            for _ in range(int(rng.integers(1, 4))):
                s.generate_sample(S, burn, it, sy)
                out.append(s.fetch_sample())
            out.append(s.fetch_sample())
        elif c == 1:
            for _ in range(int(rng.integers(1, 4))):
                ix, val = fixed(rng, n, rng.random() < .3)
                s.generate_cond_sample(ix, val, S, burn, it, sy)
                out.append(s.fetch_sample())
        else:
            for _ in range(3):
                s.generate_sample(S, burn, it, sy)
                out.append(s.fetch_sample())
                th2, _ = layouts(rng, rounded(rng, n + n * (n - 1) // 2))
                s.readin_multipliers(th2)
                del th2
            s.generate_sample(S, burn, it, sy)
            out.append(s.fetch_sample())
    elif c == 3:
        s = E.BoostPotts3(n, th, seed)
        for _ in range(int(rng.integers(1, 4))):
            s.generate_sample(S, burn, it, sy)
            out.append(s.fetch_sample())
    elif c == 4:
        s = E.BoostPotts3(n, th, seed)
        s.generate_sample(S, burn, it, sy)
        r = s.__reduce__()
        keep = s.__getinitargs__()
        want = np.array(th, dtype=float)
        del s
        junk = [np.full(want.size, 3.) for _ in range(20)]
        for a in (r[1], keep):
            assert a[0] == n and (np.asarray(a[1]) == want).all(), 'parameters of the pickled sampler differ'
        t = E.BoostPotts3(*r[1])
        t.generate_sample(S, burn, it, sy)
        assert np.isin(t.fetch_sample(), (0, 1, 2)).all()
        out += [np.asarray(keep[1]), np.array(len(junk))]
    else:
        cls = E.BoostIsing if rng.integers(2) else E.BoostPotts3
        size = (n if cls is E.BoostIsing else 3 * n) + n * (n - 1) // 2
        for bad in (np.zeros(max(0, size - int(rng.integers(1, size + 1)))), np.zeros((1, size)) if size > 1 else np.zeros(0)):
            try:
                cls(n, bad, seed).generate_sample(3, 5, 5, sy)
            except Exception:
                pass
        s = cls(n, np.zeros(size), seed)
        s.generate_sample(S, burn, it, sy)
        out.append(s.fetch_sample())
    for o in out:
        if o.dtype == np.int32:
            assert o.shape == (S, n), 'shape %s' % (o.shape,)
    yield out


def public_case(mods, rng):
    cs, cm, cu = mods
    n = int(rng.choice([1, 2, 3, 4, 7, 20]))
    S = int(rng.choice([1, 2, 9, 33]))
    kw = dict(n_iters=int(rng.choice([0, 1, 3, 40])), burn_in=int(rng.choice([0, 1, 3, 40])))
    rs = np.random.RandomState(int(rng.integers(2**31)))
    c = int(rng.integers(0, 9))
    what = dict(n=n, S=S, **kw)
    k = n + n * (n - 1) // 2
    th, lay = layouts(rng, rounded(rng, k))
    if c in (3, 4, 5):
        th, lay = layouts(rng, rounded(rng, k + 2 * n))
    what.update(layout=lay, op=['Metropolis', 'Metropolis parallel', 'Metropolis conditional', 'Potts3', 'Potts3 parallel',
                                'Potts3 model', 'Ising model', 'sample_ising', 'update'][c])
    yield what
    sy = bool(rng.integers(2))
    if c in (0, 8):
        m = cs.Metropolis(n, th, rng=rs, iprint=False)
        m.generate_sample(S, systematic_iter=sy, **kw)
        out = [m.sample]
        if c == 8:
            for _ in range(3):
                m.update_parameters(layouts(rng, rounded(rng, k))[0])
                m.generate_sample(S, systematic_iter=sy, **kw)
                out.append(m.sample)
    elif c == 1:
        m = cs.Metropolis(n, th, rng=rs, iprint=False)
        m.generate_sample_parallel(S, systematic_iter=sy, **kw)
        out = [m.sample]
    elif c == 2:
        m = cs.Metropolis(n, th, rng=rs, iprint=False)
        out = []
        for par in (False, False, True):
            ix, val = fixed(rng, n, rng.random() < .3)
            m.generate_cond_sample(S, list(zip(ix.tolist(), val.tolist())), systematic_iter=sy, parallel=par, **kw)
            out.append(m.sample)
    elif c in (3, 4):
        m = cs.Potts3(n, th, rng=rs, n_cpus=3)
        (m.generate_sample if c == 3 or S <= 3 else m.generate_sample_parallel)(S, systematic_iter=sy, **kw)
        out = [m.sample]
    elif c == 5:
        m = cm.Potts3(np.array(th, dtype=float), rng=rs)
        m.setup_sampler(sample_size=S)
        m.generate_sample(kw['n_iters'], kw['burn_in'], parallel=False)
        out = [m.sample]
    elif c == 6:
        m = cm.Ising(rounded(rng, max(n, 3) * (max(n, 3) + 1) // 2), rng=rs)
        m.setup_sampler(sample_size=S, sampler_kwargs={'iprint': False})
        m.generate_sample(kw['n_iters'], kw['burn_in'], parallel=sy)
        out = [m.sample]
    else:
        out = [cs.sample_ising(th, S, seed=int(rng.integers(2**31 - 1)), parallel=bool(rng.integers(2)), generate_sample_kw=dict(systematic_iter=sy, **kw))]
    yield [np.asarray(o) for o in out]


def long_case(E, rng, i):
    """More updates than an int can count; without fields and couplings every update flips its spin."""
    n = int(rng.integers(2, 4)) + i % 2
    T = 2**31 + int(rng.integers(0, 1000))
    burn_in = int(rng.integers(1200, 3000))
    seed = int(rng.integers(2**31 - 1))
    fix = (np.array([int(rng.integers(n))], np.int32), np.array([int(rng.choice([-1, 1]))], np.int32)) if i % 2 else None
    yield dict(n=n, updates=T, burn_in=burn_in, seed=seed, fixed=repr(fix))

    def go(*a):
        b = E.BoostIsing(n, np.zeros(n * (n + 1) // 2), seed)
        b.generate_sample(1, *a, True) if fix is None else b.generate_cond_sample(fix[0], fix[1], 1, *a, True)
        return b.fetch_sample()
    start, end = go(0, 0)[0], go(burn_in, T - burn_in)
    free = [k for k in range(n) if fix is None or k != fix[0][0]]
    want = start.copy()
    for j, k in enumerate(free):
        if ((T - j + len(free) - 1) // len(free)) % 2:
            want[k] *= -1
    if not np.array_equal(end, [want]):
        print('WRONG got %s expected %s from %s' % (end.tolist(), want.tolist(), start.tolist()), flush=True)
    yield [end]


def main():
    mode, first, num, seed, ext = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
    if mode == 'public':
        import warnings
        warnings.simplefilter('ignore')
        import coniii.samplers as cs
        import coniii.models as cm
        import coniii.utils as cu
        assert cs.IMPORTED_SAMPLERS_EXT
    else:
        E = load(ext)
    for i in range(first, first + num):
        rng = np.random.default_rng([seed, 77 if mode == 'public' else 78, i])
        g = (public_case((cs, cm, cu), rng) if mode == 'public' else long_case(E, rng, i) if mode == 'long' else
             native_case(E, rng, mode == 'small'))
        print('CASE %d %r' % (i, next(g)), flush=True)
        out = next(g)
        h = hashlib.sha1()
        for o in out:
            h.update(repr((o.shape, str(o.dtype))).encode() + np.ascontiguousarray(o).tobytes())
        print('DONE %d %s %d' % (i, h.hexdigest()[:16], sum(o.size for o in out)), flush=True)
    print('END', flush=True)


main()
