"""C01: flattened indices and parameter packing are exact bijections."""
import signal
from itertools import combinations
from math import comb, factorial

import numpy as np
import coniii.enumerate as ce
import coniii.utils as cu
from core import monitor, settings

NEED = ()
settings('System sizes, index tuples and parameter vectors over a wide range of sizes; every position of the '
         'enumerated layouts is compared with the lexicographic order of index combinations.',
         ['the packing order is the lexicographic order of index combinations, as itertools.combinations gives it'], scale=12)


@monitor(60, 400, shards=2)
def pair_index(ctx):
    n = 2 + ctx.i if ctx.i < 45 else int(ctx.rng.integers(2, 160 if ctx.thorough else 90))
    ctx.note(n=n)
    for k, (i, j) in enumerate(combinations(range(n), 2)):
        a = ctx.call(cu.sub_to_ind, n, i, j)
        b = ctx.call(cu.sub_to_ind, n, j, i)
        c = ctx.call(cu.ind_to_sub, n, k)
        if not (a == k and b == k and tuple(c) == (i, j)):
            ctx.check(False, 'pair_index', 'n=%d pair %r at %d: sub_to_ind %r/%r ind_to_sub %r' % (n, (i, j), k, a, b, c))
            break
    else:
        ctx.check(True, 'pair_index')
    ctx.count('pairs', comb(n, 2))
    ctx.seen(n)
    i = int(ctx.rng.integers(n))
    ctx.raises(cu.sub_to_ind, 'pair_index:diagonal', n, i, i)


@monitor(12, 100, shards=2, cost=3)
def pair_index_large(ctx):
    """Positions of single pairs of large systems, by exact integer arithmetic."""
    rng = ctx.rng
    n = int(10**rng.uniform(2, 4.1))
    ctx.note(n=n)
    for k in range(8):
        i = int(rng.integers(n - 1)) if k else int(rng.integers(min(n - 1, 5)))
        j = (i + 1, n - 1, int(rng.integers(i + 1, n)))[k % 3]
        pos = i * n - i * (i + 1) // 2 + j - i - 1
        ctx.check(ctx.call(cu.sub_to_ind, n, i, j) == pos == ctx.call(cu.sub_to_ind, n, j, i), 'pair_index:large')
        got = tuple(ctx.call(cu.ind_to_sub, n, pos))
        ctx.check(got == (i, j), 'pair_index:large', 'n=%d: pair at %d is %r, got %r' % (n, pos, (i, j), got))
        ctx.check(ctx.call(cu.unravel_index, (i, j), n) == pos, 'pair_index:large_tuple')
        ctx.seen(n, i, j)


@monitor(60, 400, shards=2)
def tuple_index(ctx):
    n = int(ctx.rng.integers(2, 13)) if ctx.i % 2 else 2 + (ctx.i // 2) % 10
    K = int(ctx.rng.integers(1, min(n, 7) + 1))
    ctx.note(n=n, order=K)
    bad = None
    for k, c in enumerate(combinations(range(n), K)):
        got = ctx.call(cu.unravel_index, c, n)
        if got != k:
            bad = (c, got, k)
            break
    ctx.check(bad is None, 'tuple_index:order%d' % K, 'n=%d: unravel_index(%r)=%r, position is %r' % ((n,) + (bad or (0, 0, 0))))
    ctx.count('tuples', comb(n, K))
    ctx.seen(n, K)
    ctx.check(ctx.call(cu.unravel_index, 3, n) == 3, 'tuple_index:scalar')
    if K == 2:
        for k, c in enumerate(combinations(range(n), 2)):
            ctx.check(cu.unravel_index(c, n) == cu.sub_to_ind(n, *c), 'tuple_index:agrees_with_pair_index')
    # not strictly increasing or out of range tuples are refused
    if n >= 3:
        ctx.raises(cu.unravel_index, 'tuple_index:unsorted', (2, 1), n)
        ctx.raises(cu.unravel_index, 'tuple_index:out_of_range', (0, n), n)


@monitor(120, 2000)
def tuple_index_large(ctx):
    """Positions of single tuples where enumeration is out of reach, by exact integer arithmetic."""
    rng = ctx.rng
    n = int(rng.integers(3, 45) if ctx.i % 2 else rng.integers(45, 400))
    K = int(rng.integers(1, min(n, (20, 6)[ctx.i % 3 > 0]) + 1))
    for _ in range(6):
        c = tuple(sorted(rng.choice(n, size=K, replace=False).tolist()))
        if ctx.i % 5 == 0:
            c = tuple(range(n - K, n))
        # tuples before c: those that agree up to position d and are smaller there
        pos = sum(sum(comb(n - 1 - v, K - d - 1) for v in range(c[d - 1] + 1 if d else 0, c[d])) for d in range(K))
        got = ctx.call(cu.unravel_index, c, n)
        if pos < 2**53:
            ctx.check(got == pos, 'tuple_index:large', 'n=%d: unravel_index(%r)=%r, position is %r' % (n, c, got, pos))
            ctx.seen(n, c)
        if K == 1:
            break
    ctx.note(n=n, order=K)


@monitor(80, 600)
def packing(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 40)) if ctx.i % 8 else int(rng.integers(100, 260))
    v = rng.normal(size=n + n * (n - 1) // 2)
    if ctx.i % 4 == 0:
        v = rng.integers(-9, 9, size=v.size)      # integer vectors too
    ctx.note(n=n, dtype=str(v.dtype))
    v0 = v.copy()
    m = ctx.call(cu.vec2mat, v)
    ctx.check(m.shape == (n, n), 'packing:shape')
    ctx.eq(np.diag(m), v[:n], 'packing:diagonal')
    ctx.eq(m, m.T, 'packing:symmetric')
    ctx.eq([m[i, j] for i, j in combinations(range(n), 2)], v[n:], 'packing:offdiagonal')
    ctx.eq(ctx.call(cu.mat2vec, m), v, 'packing:roundtrip')
    h, J = ctx.call(cu.vec2mat, v, separate_fields=True)
    ctx.eq(h, v[:n], 'packing:separate:h')
    ctx.eq(J, m - np.diag(np.diag(m)), 'packing:separate:J')
    A = rng.normal(size=(n, n))
    A = A + A.T
    A0 = A.copy()
    w = ctx.call(cu.mat2vec, A)
    ctx.eq(w, np.concatenate([np.diag(A), A[np.triu_indices(n, 1)]]), 'packing:mat2vec')
    ctx.eq(ctx.call(cu.vec2mat, w), A, 'packing:roundtrip_mat')
    ctx.check((A == A0).all() and (v == v0).all(), 'packing:inputs_untouched')
    d = rng.normal(size=n)
    B = rng.normal(size=(n, n))          # need not be symmetric
    R = ctx.call(cu.replace_diag, B, d)
    ctx.close(np.diag(R), d, 'packing:replace_diag', atol=1e-12)
    off = ~np.eye(n, dtype=bool)
    ctx.eq(R[off], B[off], 'packing:replace_diag_off')
    Z = ctx.call(cu.zero_diag, B)
    ctx.close(np.diag(Z), np.zeros(n), 'packing:zero_diag', atol=1e-12)
    ctx.eq(Z[off], B[off], 'packing:zero_diag_off')
    ctx.seen(n, v)


@monitor(60, 300)
def packing_refused(ctx):
    """A vector that is not n fields and n(n-1)/2 couplings has no matrix form."""
    size = 2 + ctx.i
    n = int((np.sqrt(1 + 8 * size) - 1) // 2)
    ctx.note(size=size)
    ctx.seen(size)
    v = ctx.rng.normal(size=size)
    if n * (n + 1) // 2 == size:
        for sep in (False, True):
            ctx.call(cu.vec2mat, v, separate_fields=sep)
        ctx.nchecks += 1
    else:
        for sep in (False, True):
            ctx.raises(cu.vec2mat, 'packing_refused', v, separate_fields=sep)
    if size > 2:
        ctx.raises(cu.replace_diag, 'packing_refused:replace_diag', np.zeros((size, size)), np.zeros(size - 1))


class Late(BaseException):
    pass


@monitor(60, 400)
def split_by_order(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 11))
    K = int(rng.integers(1, min(n, 5) + 1))
    if ctx.i % 4 == 0:
        K = n = int(rng.integers(1, 13))        # up to the single interaction of all spins
    elif ctx.i % 4 == 1:
        n, K = int(rng.integers(12, 70)), int(rng.integers(1, 4))
    parts = [rng.normal(size=comb(n, k)) for k in range(1, K + 1)]
    ctx.note(n=n, orders=K)
    got = ctx.call(cu.split_concat_params, np.concatenate(parts), n)
    ctx.check(len(got) == K and all(len(a) == len(b) and (np.asarray(a) == b).all() for a, b in zip(got, parts)),
              'split_by_order', 'split into sizes %r' % [len(g) for g in got])
    # vectors of a length that no set of orders has are refused, and at once
    full = sum(comb(n, k) for k in range(1, n + 1)) if n < 20 else None
    possible = set(np.cumsum([comb(n, k) for k in range(1, n + 1)]).tolist()) if n < 20 else set()
    size = sum(map(len, parts)) + int(rng.choice([-1, 1, 2, 5]))
    if full is not None and rng.random() < .4:
        size = full + int(rng.integers(1, 5))
    if full is not None and size > 0 and size not in possible:
        def late(*a):
            raise Late
        old = signal.signal(signal.SIGALRM, late)
        signal.alarm(10)
        try:
            ctx.raises(cu.split_concat_params, 'split_by_order:impossible_length', np.zeros(size), n)
        except Late:
            ctx.fail('split_by_order:does_not_return', 'length %d for %d spins' % (size, n))
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
    ctx.seen(n, K)


@monitor(80, 600)
def multinomial_exact(ctx):
    rng = ctx.rng
    tot = int(rng.integers(1, 19 if ctx.i % 3 else 60))
    k = int(rng.integers(1, 6))
    cuts = np.sort(rng.integers(0, tot + 1, size=k - 1))
    parts = np.diff(np.concatenate([[0], cuts, [tot]])).astype(int).tolist()
    want = factorial(tot)
    for p in parts:
        want //= factorial(p)
    ctx.note(args=[tot] + parts)
    got = ctx.call(cu.multinomial, tot, *parts)
    ctx.check(got == want, 'multinomial' + ('' if want < 10**12 else ':large'), 'got %r want %r' % (got, want))
    ctx.seen(tot, tuple(parts))
    ctx.raises(cu.multinomial, 'multinomial:inconsistent', tot + 1, *parts)


@monitor(30, 120)
def index_arrays(ctx):
    """Index arrays of all interactions of one order."""
    n = 2 + ctx.i % 8
    k = int(ctx.rng.integers(1, n + 1))
    ctx.note(n=n, order=k)
    want = np.array(list(combinations(range(n), k))).T
    ctx.eq(ctx.call(ce.get_nidx, k, n), want, 'index_arrays:any_order')
    if n >= 3:
        ctx.eq(np.array(np.where(ctx.call(ce.get_3idx, n))), np.array(list(combinations(range(n), 3))).T, 'index_arrays:triplets')
    ctx.seen(n, k)
