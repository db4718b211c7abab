"""Monitor registry, per-case context and oracle recording used by every check."""
import hashlib
import json
import math
import traceback
import zlib

import numpy as np

MONITORS = []
SETTINGS = {'rule': '', 'assumptions': []}


class Mon:
    def __init__(self, fn, quick, thorough, minimum, shards, cost):
        self.fn, self.name = fn, fn.__name__
        self.n = {'quick': quick, 'thorough': thorough}
        self.minimum, self.shards, self.cost = minimum, shards, cost

    def need(self, tier):
        n = self.n[tier]
        if self.minimum is not None:
            return min(self.minimum, n)
        return int(math.ceil(n * .5)) if tier == 'quick' else int(math.ceil(self.n['quick'] * .5)) if self.n['quick'] else 1


def monitor(quick, thorough=None, minimum=None, shards=1, cost=1.):
    """quick/thorough: number of generated cases; shards: number of parallel pieces."""
    def deco(fn):
        full = quick * 10 if thorough is None else thorough
        k = SETTINGS.get('scale', 1)
        if quick and k > 1:
            n = max(quick, min(int(quick * k), full))
            MONITORS.append(Mon(fn, n, full, minimum, min(8, max(shards, int(np.ceil(shards * n / quick)))), cost))
        else:
            MONITORS.append(Mon(fn, quick, full, minimum, shards, cost))
        return fn
    return deco


def settings(rule, assumptions=(), scale=1):
    """scale: factor for the number of cases of the quick tier, up to that of the thorough one."""
    SETTINGS['rule'] = rule
    SETTINGS['assumptions'] = list(assumptions)
    SETTINGS['scale'] = scale


class CaseDone(Exception):
    """Raised by ctx.fail-and-stop helpers; the case ends, the violation is recorded."""


class Skip(Exception):
    """The generated case is outside the property's domain."""


def jsonable(x, depth=0):
    if isinstance(x, np.ndarray):
        if x.size > 60:
            return {'shape': list(x.shape), 'dtype': str(x.dtype), 'head': np.asarray(x).ravel()[:20].tolist()}
        return x.tolist()
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:40]}
    if isinstance(x, (list, tuple)):
        return [jsonable(v, depth + 1) for v in list(x)[:40]]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)[:200]


class Ctx:
    def __init__(self, prop, mon, index, seed, tier, scratch):
        self.prop, self.mon, self.i, self.seed, self.tier = prop, mon, index, seed, tier
        self.scratch = scratch
        self.thorough = tier == 'thorough'
        self.rng = np.random.default_rng([seed, zlib.crc32((prop + mon).encode()), index])
        self.violations, self.nchecks, self.distinct, self.counts = [], 0, set(), {}
        self.sample_ = None
        self.info_ = {}

    # ------------------------------------------------------------------ recording
    def note(self, **kw):
        """What this case is about: goes in the witness of any violation."""
        self.info_.update(kw)
        if self.sample_ is None:
            self.sample_ = True

    def seen(self, *key):
        h = hashlib.sha1()
        for k in key:
            if isinstance(k, np.ndarray):
                h.update(np.ascontiguousarray(k).tobytes() + str(k.shape).encode())
            else:
                h.update(repr(k).encode())
            h.update(b'|')
        self.distinct.add(h.hexdigest()[:16])

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + int(n)

    def fail(self, key, msg='', **wit):
        self.violations.append({'key': key, 'msg': str(msg)[:2000],
                                'witness': jsonable({**self.info_, **wit})})

    # ------------------------------------------------------------------ oracles
    def check(self, cond, key, msg='', **wit):
        self.nchecks += 1
        try:
            cond = bool(cond)
        except Exception as e:
            cond, msg = False, 'condition %s %r' % (msg, e)
        if not cond:
            self.fail(key, msg, **wit)
        return cond

    def eq(self, got, want, key, msg='', **wit):
        """Exact equality of shape and values."""
        try:
            g, w = np.asarray(got), np.asarray(want)
            ok = g.shape == w.shape and bool(np.all(g == w))
        except Exception as e:
            ok, msg = False, '%s %r' % (msg, e)
        return self.check(ok, key, msg, got=got, want=want, **wit)

    def close(self, got, want, key, msg='', rtol=1e-8, atol=1e-9, **wit):
        try:
            g, w = np.asarray(got, dtype=complex if np.iscomplexobj(got) else float), np.asarray(want, dtype=float)
            ok = g.shape == w.shape and bool(np.all(np.isfinite(w) == np.isfinite(g))) and \
                np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
            if not ok and g.shape == w.shape and g.size:
                d = np.abs(g - w)
                k = int(np.nanargmax(d)) if np.isfinite(d).any() else 0
                msg = '%s max|diff|=%r at %d: got %r want %r' % (msg, d.ravel()[k], k, g.ravel()[k], w.ravel()[k])
            elif not ok:
                msg = '%s shapes %s %s' % (msg, g.shape, w.shape)
        except Exception as e:
            ok, msg = False, '%s %r' % (msg, e)
        return self.check(ok, key, msg, got=got, want=want, **wit)

    def call(self, fn, *a, **k):
        """Call code under test on an input inside the property's domain: raising is a violation."""
        key = k.pop('_key', None)
        try:
            return fn(*a, **k)
        except (Skip, CaseDone):
            raise
        except Exception as e:
            self.nchecks += 1
            name = key or getattr(fn, '__name__', type(fn).__name__)
            self.fail('%s:raises:%s' % (name, type(e).__name__), '%r\n%s' % (e, traceback.format_exc()[-1500:]))
            raise CaseDone()

    def raises(self, fn, key, *a, **k):
        """Input outside the domain must be refused with an exception."""
        self.nchecks += 1
        try:
            r = fn(*a, **k)
        except Exception:
            return True
        self.fail(key, 'accepted, returned %r' % (r,))
        return False


def run_case(prop, mon, index, seed, tier, scratch, overlay):
    ctx = Ctx(prop, mon.name, index, seed, tier, scratch)
    err = None
    np.random.seed(int(ctx.rng.integers(2**31)))
    try:
        mon.fn(ctx)
    except CaseDone:
        pass
    except Skip:
        ctx.counts['skipped'] = 1
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if any(f.filename.startswith(overlay) for f in tb):
            ctx.nchecks += 1
            f = [f for f in tb if f.filename.startswith(overlay)][-1]
            ctx.fail('%s:raises:%s' % (mon.name, type(e).__name__),
                     '%r in %s line %s\n%s' % (e, f.filename[len(overlay):], f.lineno, traceback.format_exc()[-1500:]))
        else:
            err = traceback.format_exc()[-3000:]
    s = None
    if index < 2:
        s = jsonable(ctx.info_)
    return {'mon': mon.name, 'i': index, 'viol': ctx.violations, 'n': ctx.nchecks, 'distinct': ctx.distinct,
            'counts': ctx.counts, 'sample': s, 'err': err}


def cache_factories(*modules):
    """The factories of compiled helper functions depend on nothing but their arguments; compiling once is enough.

    The results must not be altered by a caller, which is the case: they are tuples of functions."""
    from functools import lru_cache
    made = {}
    for m in modules:
        for name in dir(m):
            f = getattr(m, name)
            if name.startswith('define_') and name.endswith('helper_functions') and callable(f):
                setattr(m, name, made.setdefault(f, lru_cache(None)(f)))
