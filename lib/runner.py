"""Runs one check: overlay build, forked workers, verdict, evidence."""
import argparse
import fnmatch
import importlib.util
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import sys
import time
import traceback

LIB = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(LIB)
sys.path.insert(0, LIB)
T0 = time.time()


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def record_lines(path):
    """While developing: which source lines the workload reaches (VERIF_COV=folder)."""
    M = sys.monitoring
    M.use_tool_id(M.COVERAGE_ID, 'cov')
    hit = {}

    def line(code, n):
        if '/coniii/' in code.co_filename:
            hit.setdefault(code.co_filename.split('/coniii/', 1)[1], set()).add(n)
        return M.DISABLE
    M.register_callback(M.COVERAGE_ID, M.events.LINE, line)
    M.set_events(M.COVERAGE_ID, M.events.LINE)

    def dump():
        json.dump({k: sorted(v) for k, v in hit.items()}, open(os.path.join(path, '%d.json' % os.getpid()), 'w'))
    return dump


def worker(conn, prop, seed, tier, scratch, overlay, monitors):
    try:
        os.setpgrp()
        import core
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        byname = {m.name: m for m in monitors}
        d = os.path.join(scratch, 'w%d' % os.getpid())
        os.makedirs(d)
        os.chdir(d)
        dump = record_lines(os.environ['VERIF_COV']) if os.environ.get('VERIF_COV') else None
        while True:
            task = conn.recv()
            if task is None:
                if dump:
                    dump()
                break
            name, idx = task
            conn.send(core.run_case(prop, byname[name], idx, seed, tier, d, overlay))
    except (EOFError, KeyboardInterrupt):
        pass
    finally:
        conn.close()
        os._exit(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--only', default=None)
    ap.add_argument('--replay', default=None)
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('--first', action='store_true', help='end at the first violation')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = a.seed
    if a.replay:
        r = json.load(open(a.replay))
        tier, seed = r['tier'], r['seed']
        a.only = '%s:%d' % (r['monitor'], r['index'])
    budget = a.budget or (500. if tier == 'quick' else 6 * 3600.)
    case_limit = 240. if tier == 'quick' else 2400.

    import overlay as ov
    src = open(os.path.join(VERIF, 'checks', a.prop + '.py')).read()
    m = re.search(r'^NEED\s*=\s*(.*)$', src, re.M)
    need = eval(m.group(1)) if m else ('plain',)
    try:
        root, paths = ov.make_overlay(need)
    except ov.BuildError as e:
        print('build of the native extension failed:\n%s' % e)
        return 3
    try:
        return run(a, tier, seed, budget, case_limit, root, paths, need)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def run(a, tier, seed, budget, case_limit, root, paths, need):
    prop = a.prop
    base = paths[need[0]] if need else paths['none']
    scratch = os.path.join(root, 'scratch')
    os.makedirs(os.path.join(scratch, 'numba'))
    os.environ['NUMBA_CACHE_DIR'] = os.path.join(scratch, 'numba')
    os.environ['PYTHONPATH'] = base
    os.environ['TMPDIR'] = scratch
    os.environ['VERIF_OVERLAYS'] = json.dumps(paths)
    sys.path.insert(0, base)
    sys.dont_write_bytecode = True
    os.chdir(scratch)
    import warnings
    warnings.simplefilter('ignore')
    import core
    try:
        spec = importlib.util.spec_from_file_location('check_' + prop, os.path.join(VERIF, 'checks', prop + '.py'))
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
    except Exception:
        # the package does not import, or a public name is gone: no verdict
        print('the check could not be loaded:\n' + traceback.format_exc())
        return 3
    import coniii
    if not os.path.abspath(coniii.__file__).startswith(base):
        print('wrong package imported: ' + coniii.__file__)
        return 3
    np_old = None
    import numpy as np
    np.seterr(all='ignore')
    mons = core.MONITORS
    if a.only:
        nm, _, ix = a.only.partition(':')
        mons = [m for m in mons if fnmatch.fnmatch(m.name, nm)]
        only_ix = int(ix) if ix else None
    else:
        only_ix = None
    # ------------------------------------------------------------------ tasks
    queues = []   # each queue: list of (mon, indices); one worker at a time per queue keeps JIT code warm
    for m in mons:
        idx = list(range(m.n[tier])) if only_ix is None else [only_ix]
        k = max(1, min(m.shards, len(idx))) if idx else 0
        for s in range(k):
            queues.append([m.cost * len(idx) / k, m.name, idx[s::k]])
    queues.sort(key=lambda q: -q[0])

    ctxm = mp.get_context('fork')
    results = {m.name: dict(cases=0, checks=0, distinct=set(), counts={}, samples=[], skipped=0) for m in mons}
    viols, errs, notes = {}, [], []
    slowest = {}
    deadline = time.time() + budget

    def spawn():
        pc, cc = ctxm.Pipe()
        p = ctxm.Process(target=worker, args=(cc, prop, seed, tier, scratch, base, mons), daemon=False)
        p.start()
        cc.close()
        return {'p': p, 'c': pc, 'q': None, 'task': None, 't': 0}

    def kill(w):
        for f in (lambda: os.killpg(w['p'].pid, signal.SIGKILL), lambda: os.kill(w['p'].pid, signal.SIGKILL)):
            try:
                f()
            except OSError:
                pass
        w['p'].join()
        w['c'].close()

    def give(w):
        """Next case for this worker; False if nothing is left."""
        while True:
            if w['q'] is None or not w['q'][2]:
                if not queues:
                    return False
                w['q'] = queues.pop(0)
                continue
            if time.time() > deadline:
                return False
            i = w['q'][2].pop(0)
            w['task'], w['t'] = (w['q'][1], i), time.time()
            try:
                w['c'].send(w['task'])
            except (BrokenPipeError, OSError):
                pass
            return True

    def record(r):
        R = results[r['mon']]
        R['cases'] += 1
        R['checks'] += r['n']
        R['distinct'] |= r['distinct']
        for k, v in r['counts'].items():
            R['counts'][k] = R['counts'].get(k, 0) + v
        if r['sample'] and len(R['samples']) < 1:
            R['samples'].append(r['sample'])
        if r['err']:
            errs.append((r['mon'], r['i'], r['err']))
        for v in r['viol']:
            viols.setdefault(v['key'], []).append({**v, 'monitor': r['mon'], 'index': r['i']})

    from multiprocessing.connection import wait
    workers = []
    for _ in range(min(a.jobs, max(1, sum(len(q[2]) for q in queues)))):
        w = spawn()
        if give(w):
            workers.append(w)
        else:
            kill(w)
            break
    crash, hung = 0, None
    while workers:
        if a.first and set(viols) - {k for k, _ in known_findings(prop)}:
            for w in workers:
                kill(w)
            break
        ready = wait([w['c'] for w in workers] + [w['p'].sentinel for w in workers], timeout=2.)
        for w in list(workers):
            done = dead = False
            if w['c'] in ready or w['c'].poll():
                try:
                    r = w['c'].recv()
                    record(r)
                    slowest[r['mon']] = max(slowest.get(r['mon'], 0.), round(time.time() - w['t'], 2))
                    if a.v and (r['viol'] or r['err']):
                        print(r['mon'], r['i'], [(v['key'], v['msg'][:250]) for v in r['viol'][:2]], r['err'])
                    done = True
                except (EOFError, OSError):
                    dead = True
            elif w['p'].sentinel in ready and not w['p'].is_alive():
                dead = True
            if dead:
                w['p'].join(5)
                rc = w['p'].exitcode
                nm, i = w['task']
                if rc is not None and rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS,
                                                         signal.SIGFPE, signal.SIGILL):
                    viols.setdefault('%s:crash:%s' % (nm, signal.Signals(-rc).name), []).append(
                        {'key': nm + ':crash', 'msg': 'the process died with ' + signal.Signals(-rc).name,
                         'witness': {}, 'monitor': nm, 'index': i})
                else:
                    errs.append((nm, i, 'worker ended with %r' % rc))
                crash += 1
            elif not done and time.time() - w['t'] > case_limit:
                # every case takes seconds: one that is still running now does not come back
                nm, i = w['task']
                viols.setdefault('%s:hang' % nm, []).append(
                    {'key': nm + ':hang', 'msg': 'case did not finish in %.0f s' % case_limit,
                     'witness': {}, 'monitor': nm, 'index': i})
                crash += 1
                dead = True
                # that is a verdict: let the others finish what they do and end
                deadline = time.time()
                hung = hung or deadline + 20
            if hung and not dead and not done and time.time() > hung:
                kill(w)
                workers.remove(w)
                continue
            if dead:
                q = w['q']
                kill(w)
                workers.remove(w)
                if crash < 40:
                    nw = spawn()
                    nw['q'] = q
                    if give(nw):
                        workers.append(nw)
                    else:
                        kill(nw)
            elif done and not give(w):
                try:
                    w['c'].send(None)
                except OSError:
                    pass
                w['p'].join(3)
                kill(w)
                workers.remove(w)

    # ------------------------------------------------------------------ verdict
    known = known_findings(prop)
    seen_known, new = {}, {}
    for k, v in viols.items():
        hit = [kk for kk, _ in known if kk == k]
        if hit:
            seen_known.setdefault(hit[0], []).extend(v)
        else:
            new[k] = v
    for k, what in known:
        if k in seen_known:
            print('KNOWN-FINDING: property=%s %s' % (prop, what))
        elif not a.only:
            notes.append('listed finding %s was not observed' % k)
    short = []
    if only_ix is None and not a.only:
        for m in mons:
            R = results[m.name]
            if m.n[tier] and (R['cases'] - R['counts'].get('skipped', 0) < m.need(tier) or R['checks'] == 0):
                short.append('%s: %d of %d cases, %d oracle evaluations' % (m.name, R['cases'], m.n[tier], R['checks']))
    evdir = os.path.join(VERIF, 'evidence')
    rep = os.path.join(evdir, 'replay')
    os.makedirs(rep, exist_ok=True)
    for k in sorted(new)[:8]:
        v = new[k][0]
        path = os.path.join(rep, '%s_%s.json' % (prop, re.sub(r'[^A-Za-z0-9_.-]+', '_', k)[:80]))
        json.dump({'property': prop, 'seed': seed, 'tier': tier, 'monitor': v['monitor'], 'index': v['index'],
                   'key': k, 'occurrences': len(new[k]), 'message': v['msg'], 'witness': v['witness'],
                   'rerun': './run.sh %s --replay %s' % (prop, path)}, open(path, 'w'), indent=1, default=str)
        print('%s: %s' % (k, v['msg'].strip().split('\n')[0][:300]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    samples = []
    for m in mons:
        for s in results[m.name]['samples']:
            samples.append({'monitor': m.name, 'case': s})
    cov = {'evaluations': sum(R['cases'] for R in results.values()),
           'distinct_nontrivial': len(set().union(*[{(n, d) for d in R['distinct']} for n, R in results.items()])) if results else 0,
           'rule': core.SETTINGS['rule'] + ' Cases are drawn from PRNG(seed, monitor, index); a case counts as '
                   'non-trivial when the code under test ran on it and the oracle compared its result, and as distinct '
                   'by a hash of its input or of the observed behaviour.',
           'samples': samples[:12],
           'oracle_evaluations': sum(R['checks'] for R in results.values()),
           'monitors': {n: {'cases': R['cases'], 'oracle_evaluations': R['checks'], 'distinct': len(R['distinct']),
                            'slowest_case_s': slowest.get(n),
                            **({'observed': R['counts']} if R['counts'] else {})} for n, R in results.items()},
           'known_findings_observed': {k: len(v) for k, v in seen_known.items()}, 'notes': notes}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': core.SETTINGS['assumptions'], 'wall_s': round(time.time() - T0, 2),
          'violations': len(new)}
    if not a.only:
        json.dump(ev, open(os.path.join(evdir, prop + '.json'), 'w'), indent=1, default=str)
    for e in errs[:5]:
        print('ERROR in %s:%s %s' % e)
    for s in short:
        print('too few observations: ' + s)
    for s in notes:
        print('note: ' + s)
    print('%s %s seed=%d: %d cases, %d oracle evaluations, %d distinct, %d violated, %d errors, %.1f s' % (
        prop, tier, seed, cov['evaluations'], cov['oracle_evaluations'], cov['distinct_nontrivial'], len(new), len(errs),
        time.time() - T0))
    if new:
        return 1
    if errs or short:
        print('inconclusive')
        return 3
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
