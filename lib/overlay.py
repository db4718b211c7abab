"""Builds an importable copy of the package from /repo's *current working tree*.

The copy lives in a scratch folder; /repo is only read.  The native extension is compiled from the
copied sources (never taken from /repo, where it may be stale), in a plain and, on request, in an
AddressSanitizer + UndefinedBehaviorSanitizer build.
"""
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
import threading

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, '.cache')


class BuildError(Exception):
    pass


def _flags(kind):
    inc = ['-I' + sysconfig.get_path('include'), '-I/usr/include', '-I./cpp']
    pyv = '%d%d' % sys.version_info[:2]
    libs = ['-lboost_python' + pyv, '-lboost_numpy' + pyv]
    base = ['g++', '-std=c++11', '-fPIC', '-fwrapv', '-fno-strict-overflow']
    if kind == 'plain':
        # same optimisation and assertion settings as the build of the package
        return base + ['-DNDEBUG', '-O2'] + inc, ['-shared'], libs
    if kind == 'asan':
        san = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer',
               '-D_GLIBCXX_ASSERTIONS', '-g1', '-fno-sanitize=vptr']
        # assertions stay off: the shipped build has them off, and the sanitizers have to see what
        # the shipped code does
        base = [f for f in base if f not in ('-fwrapv', '-fno-strict-overflow')]  # show overflows
        return base + ['-DNDEBUG', '-O1'] + san + inc, ['-shared'] + san, libs
    raise ValueError(kind)


def compile_ext(pkgroot, kind='plain', use_cache=True):
    """Compile <pkgroot>/cpp/*.cpp; return the path of the shared object."""
    srcs = sorted(glob.glob(os.path.join(pkgroot, 'cpp', '*.cpp')))
    if not srcs:
        raise BuildError('no C++ sources')
    cflags, ldflags, libs = _flags(kind)
    h = hashlib.sha256(repr((cflags, ldflags, libs)).encode())
    for f in sorted(glob.glob(os.path.join(pkgroot, 'cpp', '*'))):
        if os.path.isfile(f):
            h.update(os.path.basename(f).encode() + b'\0' + open(f, 'rb').read())
    cached = os.path.join(CACHE, 'ext_%s_%s.so' % (kind, h.hexdigest()[:24]))
    if use_cache and os.path.exists(cached):
        return cached
    out = tempfile.mkdtemp(prefix='vconiii_ext_')
    try:
        procs = []
        for s in srcs:
            o = os.path.join(out, os.path.basename(s) + '.o')
            procs.append((s, o, subprocess.Popen(cflags + ['-c', s, '-o', o], cwd=pkgroot,
                                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        bad = []
        for s, o, p in procs:
            txt = p.communicate()[0].decode(errors='replace')
            if p.returncode:
                bad.append(s + '\n' + txt[-3000:])
        if bad:
            raise BuildError('\n'.join(bad))
        so = os.path.join(out, 'ext.so')
        r = subprocess.run(['g++'] + ldflags + [o for _, o, _ in procs] + libs + ['-o', so],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError(r.stdout.decode(errors='replace')[-3000:])
        os.makedirs(CACHE, exist_ok=True)
        tmp = cached + '.%d' % os.getpid()
        shutil.copyfile(so, tmp)
        os.replace(tmp, cached)
        old = sorted(glob.glob(os.path.join(CACHE, 'ext_*.so')), key=os.path.getmtime)
        for f in old[:-24]:
            try:
                os.unlink(f)
            except OSError:
                pass
        return cached
    finally:
        shutil.rmtree(out, ignore_errors=True)


def make_overlay(need=('plain',)):
    """Return (root, {kind: path of package parent}).  root is to be removed by the caller."""
    root = tempfile.mkdtemp(prefix='vconiii_')
    base = os.path.join(root, 'src')
    os.makedirs(base)
    ign = shutil.ignore_patterns('__pycache__', '*.pyc', '*.so', '*.nbi', '*.nbc', '_test_enumerate*')
    shutil.copytree(os.path.join(REPO, 'coniii'), os.path.join(base, 'coniii'), ignore=ign, symlinks=True)
    # generated, git-ignored module: left by the repository's own tests, not part of the tree
    for f in ('ising_eqn_4_sym_hp.py',):
        p = os.path.join(base, 'coniii', 'ising_eqn', f)
        if os.path.exists(p):
            os.unlink(p)
    shutil.copytree(os.path.join(REPO, 'cpp'), os.path.join(base, 'cpp'), ignore=ign)
    res, errs = {}, []

    def one(kind):
        try:
            res[kind] = compile_ext(base, kind)
        except BuildError as e:
            errs.append(e)
    th = [threading.Thread(target=one, args=(k,)) for k in need]
    [t.start() for t in th]
    [t.join() for t in th]
    if errs:
        shutil.rmtree(root, ignore_errors=True)
        raise errs[0]
    suffix = sysconfig.get_config_var('EXT_SUFFIX')
    paths = {}
    for i, kind in enumerate(need):
        if i == 0:
            dst = base
        else:
            dst = os.path.join(root, 'src_' + kind)
            shutil.copytree(base, dst, ignore=shutil.ignore_patterns('*.so'))
        shutil.copyfile(res[kind], os.path.join(dst, 'coniii', 'samplers_ext' + suffix))
        paths[kind] = dst
    if not need:
        paths['none'] = base
    return root, paths


if __name__ == '__main__':
    r, p = make_overlay(('plain', 'asan'))
    print('overlay ok', sorted(p))
    shutil.rmtree(r)
