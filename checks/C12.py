"""C12: the compiled samplers are memory safe and read exactly what they are given."""
import copy
import glob
import json
import os
import pickle
import re
import subprocess

import dill
import numpy as np
import coniii.samplers as cs
import coniii.utils as cu
import ref
from core import monitor, settings, Skip

NEED = ('plain', 'asan')
settings('The compiled samplers are driven in child processes built with AddressSanitizer, UndefinedBehaviorSanitizer and '
         'checked containers, under valgrind memcheck (uninitialised values; thorough tier and a small part in quick), and '
         'with differently filled heaps (results must not differ), through the extension classes and through the '
         'package, over sizes from one spin up, empty requests, every fixed set, twelve array layouts, repeated '
         'parameter updates, pickling and wrong-length arrays.  In process, the same values in every layout must give '
         'the same sample for the same seed and pickled samplers must go on like the original.',
         ['the sanitizer runtimes and valgrind report what they are documented to report',
          'signed overflow is checked although the shipped build defines it (-fwrapv)'])

WORK = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'work', 'native.py')
PATHS = json.loads(os.environ['VERIF_OVERLAYS'])
PY = '/opt/venv/bin/python'


def ext(kind):
    return glob.glob(os.path.join(PATHS[kind], 'coniii', 'samplers_ext*.so'))[0]


def lib(name):
    return subprocess.run(['g++', '-print-file-name=' + name], stdout=subprocess.PIPE).stdout.decode().strip()


def child(ctx, cmd, mode, first, num, kind, env, limit=250):
    e = dict(os.environ, PYTHONPATH=PATHS[kind], **env)
    out = os.path.join(ctx.scratch, 'out%d' % first)
    with open(out, 'wb') as f:
        try:
            rc = subprocess.run(cmd + [PY, '-P', WORK, mode, str(first), str(num), str(ctx.seed), ext(kind)], env=e,
                                stdout=f, stderr=subprocess.STDOUT, timeout=limit).returncode
        except subprocess.TimeoutExpired:
            rc = 'timeout'
    txt = open(out, errors='replace').read()
    os.unlink(out)
    return rc, txt


def outcome(ctx, rc, txt, key):
    """Judge a child's log: every case done, no sanitizer report."""
    done = dict((int(a), (b, int(c))) for a, b, c in re.findall(r'^DONE (\d+) (\w+) (\d+)', txt, re.M))
    what = re.findall(r'^CASE (\d+) (.*)', txt, re.M)
    for i, w in what:
        ctx.seen(w)
    ctx.count('cases_observed', len(done))
    ctx.nchecks += len(done)
    m = re.search(r'AddressSanitizer: ([\w-]+)', txt)
    u = re.search(r'runtime error: (.*)', txt)
    g = re.search(r"Assertion '(.*)' failed", txt)
    cpp = re.search(r'in (\w+::\w+)\(.*cpp/\w+\.(?:cpp|hpp)', txt)
    at = ':' + cpp.group(1) if cpp else ''
    last = what[-1] if what else None
    if m and m.group(1) not in ('CHECK',):
        ctx.fail('%s:%s%s' % (key, m.group(1), at), 'in case %s: %s' % (last, txt[m.start():m.start() + 1500]))
    elif u:
        ctx.fail('%s:undefined%s' % (key, at), 'in case %s: %s' % (last, txt[u.start():u.start() + 1500]))
    elif g:
        ctx.fail('%s:container_bounds%s' % (key, at), 'in case %s: %s' % (last, txt[max(0, g.start() - 500):g.end() + 500]))
    elif rc == 'timeout':
        ctx.fail(key + ':hang', 'in case %s' % (last,))
    elif 'END' not in txt.split('\n')[-2:] or rc != 0:
        if isinstance(rc, int) and rc < 0:
            ctx.fail('%s:died' % key, 'signal %d in case %s' % (-rc, last))
        elif 'Error' in txt and (('coniii' in txt.split('Traceback')[-1]) or last):
            ctx.fail('%s:raises' % key, 'in case %s: %s' % (last, txt[-1500:]))
        else:
            raise RuntimeError('child ended with %r: %s' % (rc, txt[-2000:]))
    return done


SAN = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=1',
       'UBSAN_OPTIONS': 'print_stacktrace=1', 'PYTHONMALLOC': 'malloc'}


@monitor(16, 160, cost=3, shards=8)
def sanitized_native(ctx):
    e = dict(SAN, LD_PRELOAD=lib('libasan.so') + ' ' + lib('libstdc++.so'))
    ctx.note(first=ctx.i * 250, num=250)
    outcome(ctx, *child(ctx, [], 'native', ctx.i * 250, 250, 'asan', e), key='native')


@monitor(6, 60, cost=25, shards=6)
def sanitized_public(ctx):
    e = dict(SAN, LD_PRELOAD=lib('libasan.so') + ' ' + lib('libstdc++.so'))
    ctx.note(first=ctx.i * 40, num=40)
    outcome(ctx, *child(ctx, [], 'public', ctx.i * 40, 40, 'asan', e), key='public')


@monitor(2, 8, cost=60, shards=8)
def long_chains(ctx):
    """More than 2^31 updates in turn: the spin to come next is still the right one.  Plain build; some with sanitizers."""
    kind = 'asan' if ctx.i >= 6 else 'plain'
    e = dict(SAN, LD_PRELOAD=lib('libasan.so') + ' ' + lib('libstdc++.so')) if kind == 'asan' else {}
    ctx.note(case=ctx.i, build=kind)
    rc, txt = child(ctx, [], 'long', ctx.i, 1, kind, e, limit=1500 if ctx.thorough else 220)
    if rc == 'timeout' and not ctx.thorough:
        ctx.count('too_slow_here')  # a loaded machine; no verdict
        raise Skip()
    outcome(ctx, rc, txt, key='long')
    w = re.search('^WRONG (.*)', txt, re.M)
    if w:
        ctx.fail('long:other_spins_updated', w.group(1))


@monitor(2, 40, cost=30, shards=2)
def uninitialised(ctx):
    """valgrind memcheck: no value that was never written decides anything in the extension."""
    num = 30
    ctx.note(first=ctx.i * num, num=num)
    rc, txt = child(ctx, ['valgrind', '-q', '--error-limit=no', '--num-callers=20'], 'small', ctx.i * num, num, 'plain',
                    {'PYTHONMALLOC': 'malloc'})
    if 'valgrind:' in txt and 'CASE' not in txt:
        raise Skip()
    for block in re.split(r'\n==\d+== \n', txt):
        if 'samplers_ext' in block and re.search(r'==\d+== +(at|by) ', block):
            kind = re.search(r'==\d+== (\w.*)', block)
            ctx.fail('uninitialised:memcheck', block[:1500], kind=kind.group(1) if kind else '')
            break
    outcome(ctx, rc, txt, 'uninitialised')


@monitor(8, 80, cost=5, shards=8)
def heap_contents(ctx):
    """Freshly allocated and freed memory filled with different patterns must not change any result."""
    res = []
    for fill in ('0', '85', '170'):
        rc, txt = child(ctx, [], 'native', 10**6 + ctx.i * 200, 200, 'plain', {'MALLOC_PERTURB_': fill, 'PYTHONMALLOC': 'malloc'})
        res.append(outcome(ctx, rc, txt, 'heap_contents'))
    for r in res[1:]:
        bad = [i for i in set(r) & set(res[0]) if r[i] != res[0][i]]
        ctx.check(not bad, 'heap_contents:result_depends_on_unwritten_memory', 'cases %s' % bad[:5])


def layouts(rng, v):
    out = {'float32': v.astype(np.float32), 'big_endian': v.astype('>f8'), 'float16': v.astype(np.float16),
           'object': v.astype(object), 'longdouble': v.astype(np.longdouble)}
    a = np.full((v.size, 3), 7.)
    a[:, 1] = v
    out['column'] = a[:, 1]
    out['fortran_row'] = np.asfortranarray(np.vstack([v * 0 + 3, v, v * 0 - 4]))[1]
    out['reversed'] = v[::-1].copy()[::-1]
    r = v.copy()
    r.flags.writeable = False
    out['read_only'] = r
    b = np.zeros(v.size * 8 + 5, np.uint8)
    b[5:] = np.frombuffer(v.tobytes(), np.uint8)
    out['unaligned'] = b[5:].view('f8')
    if (v == v.astype(int)).all():
        for t in ('i1', 'i2', 'i4', 'i8', '>i4'):
            out['int_' + t] = v.astype(t)
        if ((v == 0) | (v == 1)).all():
            out['bool'] = v.astype(bool)
        if (v >= 0).all():
            out['uint8'] = v.astype(np.uint8)
    return out


@monitor(160, 4000, shards=8)
def same_values(ctx):
    """The same values in any type and layout, the same seed: the same sample."""
    rng = ctx.rng
    kind = ('ising', 'cond', 'update', 'potts', 'front')[ctx.i % 5] if ctx.i % 25 < 20 or ctx.i % 5 < 4 else 'ising'
    n = int(rng.integers(1, 12))
    size = (3 * n if kind == 'potts' else n) + n * (n - 1) // 2
    c = rng.integers(4)
    v = (rng.integers(-3, 4, size) if c == 0 else rng.integers(0, 2, size) if c == 1 else
         np.round(rng.normal(size=size) * rng.choice([.5, 3]) * 8) / 8).astype(float)
    seed, S = int(rng.integers(2**31)), int(rng.integers(1, 60))
    kw = dict(n_iters=int(rng.integers(1, 30)), burn_in=int(rng.integers(0, 30)), systematic_iter=bool(rng.integers(2)))
    fix = sorted(rng.choice(n, int(rng.integers(1, n + 1)), replace=False).tolist())
    fs = list(zip(fix, rng.choice([-1, 1], len(fix)).tolist()))
    ctx.note(kind=kind, n=n, values=v, seed=seed, S=S, **kw)

    def go(theta):
        rs = np.random.RandomState(seed)
        if kind == 'potts':
            m = cs.Potts3(n, theta, rng=rs)
            m.generate_sample(S, **kw)
        elif kind == 'front':
            return cs.sample_ising(theta, S, seed=seed, parallel=False, generate_sample_kw=kw)
        else:
            m = cs.Metropolis(n, np.zeros(size) if kind == 'update' else theta, rng=rs, iprint=False)
            if kind == 'update':
                m.update_parameters(theta)
            if kind == 'cond':
                m.generate_cond_sample(S, fs, parallel=False, **kw)
            else:
                m.generate_sample(S, **kw)
        return np.asarray(m.sample)
    want = ctx.call(go, v.copy(), _key='same_values:' + kind)
    ctx.seen(v, want)
    for name, th in layouts(rng, v).items():
        before = np.array(th)
        ctx.eq(ctx.call(go, th, _key='same_values:%s:%s' % (kind, name)), want, 'same_values:%s:%s' % (kind, name))
        ctx.eq(th, before, 'same_values:input_modified')
        if kind == 'front' and name == 'object':  # compiles its energy function every time
            break
        ctx.count('layouts')


@monitor(60, 1000, shards=8)
def exact_values(ctx):
    """Every single parameter is used for what it stands for: one huge parameter at a time."""
    rng = ctx.rng
    potts = bool(ctx.i % 2)
    n = int(rng.integers(2, 15))
    base = rng.normal(size=(3 * n if potts else n) + n * (n - 1) // 2) * .1
    nf = 3 * n if potts else n
    k = int(rng.integers(0, base.size)) if rng.random() < .5 else int(rng.integers(nf, base.size))
    big = 70. * rng.choice([-1, 1])
    base[k] = big
    cls = cs.Potts3 if potts else cs.Metropolis
    name, th = list(layouts(rng, base).items())[int(rng.integers(3))] if rng.random() < .4 else ('f8', base)
    m = cls(n, th, rng=np.random.RandomState(int(rng.integers(2**31))), **({} if potts else {'iprint': False}))
    ctx.note(potts=potts, n=n, parameter=k, value=big, layout=name)
    ctx.call(m.generate_sample, 20, n_iters=60 * n, burn_in=400 * n)
    X = np.asarray(m.sample)
    obs = (ref.potts_obs(X, 3) if potts else ref.ising_obs(X))[:, k]
    ctx.eq(obs, np.full(20, (1. if big > 0 else 0.) if potts else np.sign(big)), 'exact_values:%s' % ('potts' if potts else 'ising'))
    ctx.seen(k, n, big, X)


@monitor(48, 800, shards=8)
def pickles(ctx):
    """A restored sampler goes on like the original."""
    rng = ctx.rng
    kind = ('ising', 'potts', 'ising_py', 'potts_py', 'wolff', 'native')[ctx.i % 6]
    n = int(rng.integers(2, 7))
    th = rng.normal(size=(3 * n if kind in ('potts', 'potts_py', 'native') else n) + n * (n - 1) // 2)
    rs = np.random.RandomState(int(rng.integers(2**31)))
    S, kw = int(rng.integers(5, 60)), dict(n_iters=int(rng.integers(1, 9)), burn_in=int(rng.integers(1, 9)))
    ctx.note(kind=kind, n=n, theta=th, S=S, **kw)
    if kind == 'native':
        E = cs.BoostPotts3
        th[rng.choice(3 * n, n, replace=False)] += 80
        a = E(n, th.copy(), int(rng.integers(2**31)))
        for b in (pickle.loads(pickle.dumps(a, int(rng.integers(2, 6)))), copy.copy(a), copy.deepcopy(a)):
            b.generate_sample(10, 500 * n, 60 * n, False)
            X = b.fetch_sample()
            ctx.check(np.isin(X, (0, 1, 2)).all() and X.shape == (10, n), 'pickles:native:alphabet')
            f = th[:3 * n].reshape(3, n)
            strong = (f > 40).sum(0) == 1
            ctx.eq(X[:, strong], np.tile(np.argmax(f, 0)[strong], (10, 1)), 'pickles:native:parameters')
        ctx.seen(th)
        return
    if kind == 'wolff':
        h = rng.normal(size=n) * .3
        J = rng.normal(size=(n, n)) * .3
        J = J + J.T
        np.fill_diagonal(J, 0)
        a = cs.WolffIsing(J, h)
        a.rng = rs
        go = lambda m: m.generate_sample(S, kw['n_iters'])
        ways = [lambda m: dill.loads(dill.dumps(m)), copy.deepcopy]
    else:
        boost = not kind.endswith('py')
        if kind.startswith('potts'):
            a = cs.Potts3(n, th, cu.define_potts_helper_functions(3)[0], rng=rs, boost=boost)
        else:
            a = cs.Metropolis(n, th, cu.define_ising_helper_functions()[0], rng=rs, boost=boost, iprint=False)
        go = lambda m: m.generate_sample(S, **kw)
        ways = [lambda m: dill.loads(dill.dumps(m)), copy.deepcopy]
        if kind.startswith('ising'):
            ways.append(lambda m: pickle.loads(pickle.dumps(m)))
    bs = [ctx.call(w, a, _key='pickles:%s' % kind) for w in ways]
    out = (lambda m, r: r) if kind == 'wolff' else (lambda m, r: m.sample)
    A = out(a, go(a))
    for b in bs:
        r = ctx.call(go, b, _key='pickles:%s:restored' % kind)
        ctx.eq(out(b, r), A, 'pickles:%s:continues_like_the_original' % kind)
        if kind != 'wolff':
            ctx.eq(b.theta, th, 'pickles:%s:parameters' % kind)
    ctx.seen(th, A)


@monitor(48, 400, shards=4)
def refused(ctx):
    """Parameter vectors of the wrong length are refused, never read past their end."""
    rng = ctx.rng
    n = int(rng.integers(2, 9))
    potts = bool(ctx.i % 2)
    size = (3 * n if potts else n) + n * (n - 1) // 2
    cls = cs.BoostPotts3 if potts else cs.BoostIsing
    bad = size - int(rng.integers(1, size + 1)) if rng.random() < .7 else size + int(rng.integers(1, 5))
    ctx.note(n=n, size=size, given=bad, potts=potts)
    ctx.raises(lambda: cls(n, np.zeros(bad), 1), 'refused:native_length')
    if not potts:
        s = cls(n, np.zeros(size), 1)
        ctx.raises(lambda: s.readin_multipliers(np.zeros(bad)), 'refused:readin_length')
        m = cs.Metropolis(n, np.zeros(size), iprint=False)
        ctx.raises(lambda: m.update_parameters(np.zeros(bad)), 'refused:update_length')
    else:
        ctx.raises(lambda: cs.Potts3(n, np.zeros(bad)), 'refused:potts_length')
    ctx.seen(n, bad, potts)
