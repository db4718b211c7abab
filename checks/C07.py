"""C07: enumeration of the state space and of neighbours is complete and free of repetitions."""
from itertools import product

import numpy as np
import coniii.utils as cu
from core import monitor, settings

NEED = ()
settings('State generators for all system sizes that fit in memory, number bases 2 to 36 around the rounding-prone '
         'powers, and neighbour generators on random states; the oracle is the lexicographic product and exact integer '
         'arithmetic.', scale=3)
DIG = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'


@monitor(36, 44, shards=4)
def binary_states(ctx):
    n, sym = 1 + ctx.i // 2 % 16, bool(ctx.i % 2)
    if ctx.tier == 'quick':
        n = 1 + ctx.i // 2 % 14
    ctx.note(n=n, sym=sym)
    S = np.asarray(ctx.call(cu.bin_states, n, sym=sym))
    ctx.check(S.shape == (2**n, n), 'binary_states:shape', str(S.shape))
    bits = ((np.arange(2**n)[:, None] >> np.arange(n - 1, -1, -1)) & 1)
    want = bits * 2 - 1 if sym else bits
    ctx.eq(S, want, 'binary_states:list')
    g = np.array([s for s in ctx.call(cu.xbin_states, n, sym=sym)])
    ctx.eq(g, want, 'binary_states:generator')
    # rows handed out stay valid after the generator moves on
    it = cu.xbin_states(n, sym=sym)
    first = next(it)
    f0 = first.copy()
    list(it)
    ctx.eq(first, f0, 'binary_states:rows_independent')
    ctx.count('states', 2**n)
    ctx.seen(n, sym)
    ctx.raises(cu.bin_states, 'binary_states:too_large', 31)
    ctx.raises(cu.bin_states, 'binary_states:negative', -1)


@monitor(2, 12, shards=3, cost=4)
def many_states(ctx):
    """More states than fit 16-bit numbers (and lists of more than 2^18 rows in the thorough tier)."""
    n, sym = [17, 16, 18, 19, 15, 20][ctx.i % (6 if ctx.thorough else 3)], bool(ctx.i // 3 % 2)
    ctx.note(n=n, sym=sym)
    S = np.asarray(ctx.call(cu.bin_states, n, sym=sym))
    if ctx.check(S.shape == (2**n, n), 'many_states:shape', str(S.shape)):
        low = -1 if sym else 0
        for j in range(n):
            ctx.check(np.array_equal(S[:, j], np.where(np.arange(2**n) >> (n - 1 - j) & 1, 1, low)), 'many_states:list', 'digit %d' % j)
    ctx.count('states', 2**n)
    ctx.seen(n, sym)


@monitor(24, 60, shards=4)
def potts_states(ctx):
    opts = [(n, k) for k in range(2, 37) for n in range(1, 12) if k**n <= (3e5 if ctx.thorough else 2e4)]
    n, k = opts[int(ctx.rng.integers(len(opts)))]
    if ctx.i < 12:
        n, k = [(1, 36), (2, 36), (2, 35), (2, 20), (3, 19), (3, 11), (4, 10), (3, 3), (9, 2), (8, 3), (5, 5), (6, 4)][ctx.i]
    ctx.note(n=n, k=k)
    got = [''.join(s) for s in cu.xpotts_states(n, k)]
    want = [''.join(t) for t in product(DIG[:k], repeat=n)]
    ctx.check(len(got) == len(want), 'potts_states:count', '%d of %d' % (len(got), len(want)))
    bad = [(a, b) for a, b in zip(got, want) if a != b]
    ctx.check(not bad, 'potts_states:order', 'n=%d k=%d first difference %r' % (n, k, bad[:1]))
    ctx.check(len(set(got)) == len(got), 'potts_states:distinct')
    ctx.count('states', len(got))
    ctx.seen(n, k)


def rep(i, b):
    s = ''
    while True:
        s = DIG[i % b] + s
        i //= b
        if i == 0:
            return s


@monitor(70, 70, shards=4)
def digits(ctx):
    """Numbers in every base, exhaustively at first and then around all powers of the base."""
    base = 2 + ctx.i % 35
    rng = ctx.rng
    ctx.note(base=base)
    nums = list(range(0, 2000 if ctx.tier == 'quick' else 40000)) if ctx.i < 35 else []
    e = 1
    while base**e * (base + 1) < 2**63:
        nums += [max(base**e + d, 0) for d in (-2, -1, 0, 1, 2)]
        nums += [base**e * (base - 1) + d for d in (-1, 0, 1)]
        nums += [int(rng.integers(base**e)) for _ in range(10)]
        e += 1
    bad = []
    for i in nums:
        r = ''.join(ctx.call(cu.base_repr, i, base))
        if r != rep(i, base):
            bad.append((i, r, rep(i, base)))
    ctx.check(not bad, 'digits:' + ('small_base' if base <= 10 else 'large_base'),
              'base %d: %d of %d wrong, e.g. %r' % (base, len(bad), len(nums), bad[:3]))
    ctx.count('numbers', len(nums))
    ctx.seen(base, ctx.i // 35)


@monitor(1, 1)
def digits_refused(ctx):
    for a in ((-1, 2), (3, 1), (3, 37), (5, 0)):
        ctx.raises(cu.base_repr, 'digits_refused', *a)
    ctx.seen(0)


@monitor(120, 1200, shards=3)
def neighbours(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 16)) if ctx.i % 6 else int(rng.integers(16, 120))
    sym = bool(ctx.i % 2)
    r = int(rng.choice([0, 0, 1, 3, 20]))
    s = rng.integers(0, 2, size=n).astype(float)
    if rng.random() < .3:
        s[:] = rng.integers(0, 2)
    if sym:
        s = 2 * s - 1
    if rng.random() < .5:
        s = s.astype(np.int64)
    vals = {-1., 1.} if sym else {0., 1.}
    ctx.note(n=n, sym=sym, random_neighbours=r, s=s)
    s0 = s.copy()
    f = cu.adj_sym if sym else cu.adj
    N = np.asarray(ctx.call(f, s, r) if r else ctx.call(f, s))
    ctx.check((s == s0).all(), 'neighbours:state_restored')
    ctx.check(N.shape == (n + r, n), 'neighbours:count', str(N.shape))
    flipped = N[:n] != s0
    ctx.eq(flipped, np.eye(n, dtype=bool), 'neighbours:one_flip_each')
    ctx.check(set(np.unique(N)) <= vals, 'neighbours:alphabet', str(np.unique(N)))
    ctx.check(all((x != s0).any() for x in N[n:]), 'neighbours:random_differs')
    if r == 20 and n >= 8:
        ctx.check(len({tuple(x) for x in N[n:]}) > 1, 'neighbours:random_varies')
    ctx.seen(n, sym, r, s)


@monitor(24, 200, shards=4)
def random_neighbours(ctx):
    """Random neighbours: every other state of a small system, all equally often."""
    rng = ctx.rng
    n, sym = int(rng.integers(1, 5)), bool(ctx.i % 2)
    s = rng.integers(0, 2, size=n)
    s0 = s.copy()
    if sym:
        s = 2 * s - 1
    s = s.astype([float, np.int64][ctx.i // 2 % 2])
    R = 6000
    N = np.asarray(ctx.call(cu.adj_sym if sym else cu.adj, s, R))[n:]
    ctx.note(n=n, sym=sym, s=s)
    bits = ((N + 1) / 2 if sym else N).astype(int)
    code = bits.dot(2**np.arange(n))
    cnt = np.bincount(code, minlength=2**n)
    me = int(s0.dot(2**np.arange(n)))
    ctx.check(cnt[me] == 0, 'random_neighbours:given_state')
    p = 1 / max(2**n - 1, 1)
    half = np.sqrt(2 * p * (1 - p) * R * 25) + 25
    others = np.delete(cnt, me)
    ctx.check((np.abs(others - R * p) <= half).all(), 'random_neighbours:uniform', str(cnt))
    ctx.seen(n, sym, s)
    ctx.count('random_neighbours', R)


@monitor(30, 60, shards=2)
def large_systems(ctx):
    """The beginning of the list for systems that cannot be listed completely."""
    from itertools import islice
    n = 15 + ctx.i % 30 if ctx.i < 30 else int(ctx.rng.integers(15, 62))
    sym = bool(ctx.i % 2)
    m = 70
    want = (np.arange(m)[:, None] >> np.minimum(np.arange(n - 1, -1, -1), 60)) & 1
    if sym:
        want = 2 * want - 1
    got = np.array(list(islice(ctx.call(cu.xbin_states, n, sym=sym), m)))
    ctx.eq(got, want, 'large_systems:binary')
    k = int(ctx.rng.integers(2, 37))
    n = int(min(n, np.floor(61 / np.log2(k))))
    got = [''.join(s) for s in islice(cu.xpotts_states(n, k), m)]
    ctx.check(got == [rep(i, k).rjust(n, '0') for i in range(m)], 'large_systems:potts', 'n=%d k=%d' % (n, k))
    ctx.note(n=n, k=k, sym=sym)
    ctx.seen(n, k, sym)
