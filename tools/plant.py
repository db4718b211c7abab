"""Helper used while developing: writes a planted bug, and confirms planted bugs in scratch copies.

  plant.py check [ids...]   for each /verif/seeded/<id>: demo passes on the unchanged tree, the patch applies, the tree
                            builds, the stable tests pass, the demo fails, and which checks report the bug
Nothing here is used by a check."""
import concurrent.futures as cf
import json, os, shutil, subprocess, sys, tempfile
V = '/verif'
REPO = '/repo'


def write(pid, prop, edits, needs, breaks, demo):
    d = os.path.join(V, 'seeded', pid)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='pl_', dir='/tmp')
    try:
        subprocess.check_call(['git', 'clone', '-q', REPO, w + '/r'])
        for f, a, b in edits:
            p = w + '/r/' + f
            s = open(p).read()
            assert s.count(a) == 1, (pid, f, a, s.count(a))
            open(p, 'w').write(s.replace(a, b))
        diff = subprocess.check_output(['git', '-C', w + '/r', 'diff'], text=True)
    finally:
        shutil.rmtree(w)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(demo)
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0: the property holds; non-zero: it is broken.  Run in the root of the repository, after the build.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export PYTHONPATH="$PWD" NUMBA_CACHE_DIR="$T" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1
R="$PWD"
cd "$T" || exit 2
REPO_ROOT="$R" timeout 280 /opt/venv/bin/python -P -W ignore "$D/demo.py"
''')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)


def sub(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def confirm(pid, props=None, tests=True):
    d = os.path.join(V, 'seeded', pid)
    prop = json.load(open(d + '/meta.json'))['property']
    w = tempfile.mkdtemp(prefix='plc_', dir='/tmp')
    r = w + '/repo'
    out = {'id': pid, 'property': prop}
    try:
        subprocess.check_call(['cp', '-a', REPO, r])
        for s in ('build.sh', 'test.sh'):
            t = open('/opt/vp/' + s).read().replace('/opt/vp/build.sh', w + '/build.sh').replace('/repo', r)
            open(w + '/' + s, 'w').write(t)
        out['build0'] = sub(['bash', w + '/build.sh']).returncode
        shutil.copytree(d, w + '/demo', ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
        x = sub(['bash', w + '/demo/demo.sh'], cwd=r)
        out['demo_clean'] = x.returncode
        if x.returncode:
            out['demo_clean_out'] = x.stdout[-1500:]
        x = sub(['git', '-C', r, 'apply', d + '/patch.diff'])
        if x.returncode:
            out['apply'] = x.stdout
            return out
        x = sub(['bash', w + '/build.sh'])
        out['build'] = x.returncode
        x = sub(['bash', w + '/demo/demo.sh'], cwd=r)
        out['demo_bug'] = x.returncode
        out['demo_bug_out'] = x.stdout.strip()[-200:]
        if tests:
            sub(['bash', w + '/test.sh', w + '/o.json'])
            st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            o = json.load(open(w + '/o.json'))
            out['tests_broken'] = sorted(st - set(o['passed']))
        out['checks'] = {}
        for p in (props or [prop]):
            if os.path.exists(V + '/checks/%s.py' % p):
                x = sub(['bash', V + '/run.sh', p, '--tier', 'quick'], env={**os.environ, 'VERIF_REPO': r, 'VERIF_SEED': '1'})
                out['checks'][p] = [x.returncode, [l for l in x.stdout.splitlines() if 'VIOLATION' in l or ': ' in l][:1]]
    finally:
        shutil.rmtree(w)
    return out


if __name__ == '__main__':
    a = sys.argv[2:]
    tests = '--notests' not in a
    ids = [x for x in a if not x.startswith('-')] or sorted(os.listdir(V + '/seeded'))
    with cf.ThreadPoolExecutor(2) as ex:
        for o in ex.map(lambda i: confirm(i, tests=tests), ids):
            ok = (o.get('demo_clean') == 0 and o.get('build') == 0 and o.get('demo_bug') not in (0, None) and not o.get('tests_broken'))
            caught = any(v[0] == 1 for v in o.get('checks', {}).values())
            print('%-34s %s %-6s %s' % (o['id'], o['property'], 'valid' if ok else 'INVALID', 'caught' if caught else 'MISSED'), flush=True)
            if not ok or not caught:
                print('     ', json.dumps(o)[:1500], flush=True)
