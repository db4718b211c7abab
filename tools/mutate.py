"""Helper used while developing: changes the source in small random ways and reports which changes no check notices.

  mutate.py [--n N] [--seed S] [--filter REGEX] [--jobs J] [--out FILE]
Each change is run against the checks mapped to its function, in a scratch copy of /repo.  Nothing here is used by a check."""
import argparse, ast, concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, tempfile
V, REPO = '/verif', '/repo'
MAP = [  # (file, regexp of qualified name, checks in the order tried)
    ('solvers.py', r'MCHIncomplete|MPF._K', ''),
    ('samplers.py', r'HamiltonianMC|SWIsing|Heisenberg3D|jit_sample$|jit_sample_nearby|check_e_logp|spec_cluster|^cross', ''),
    ('pseudo_inverse_ising.py', r'testDeriv', ''),
    ('enumerate.py', r'_write_matlab', ''),
    ('utils.py', r'ternary', ''),
    ('utils.py', r'sub_to_ind|ind_to_sub|unravel_index|multinomial|_expand_bin|split_concat|vec2mat|mat2vec|replace_diag|zero_diag', 'C01 C02 C05'),
    ('utils.py', r'convert', 'C02'),
    ('utils.py', r'unique_rows|calc_overlap|pair_corr|k_corr|state_probs', 'C06'),
    ('utils.py', r'bin_states|xbin|xpotts|base_repr|_base|adj', 'C07'),
    ('utils.py', r'define_pseudo', 'C05 C15'),
    ('utils.py', r'define_|calc_de', 'C05'),
    ('utils.py', r'coarse_grain', 'C22'),
    ('samplers.py', r'ParallelTempering', 'C21 C11'),
    ('samplers.py', r'WolffIsing|iterate_neigh', 'C08 C09 C11'),
    ('samplers.py', r'_cond_|define_jit_cond', 'C10 C11 C08'),
    ('samplers.py', r'Metropolis|Potts3|_jit_sample_met', 'C08 C09 C11 C10 C12'),
    ('samplers.py', r'^Sampler|calc_e|grad_e', 'C08 C09 C11 C05'),
    ('samplers.py', r'Heisenberg|check_e|cross|jit_sample|HamiltonianMC|SWIsing|pairwise|sample_bonds|cluster', 'C05 C08 C11 C09'),
    ('samplers.py', r'sample_ising', 'C09 C11'),
    ('solvers.py', r'^Solver|unwrap', 'C20 C13 C14'),
    ('solvers.py', r'Enumerate', 'C13 C20'),
    ('solvers.py', r'MPF', 'C14 C20'),
    ('solvers.py', r'MCH', 'C16 C20'),
    ('solvers.py', r'Pseudo', 'C15 C20'),
    ('solvers.py', r'ClusterExp', 'C17 C20'),
    ('solvers.py', r'Regularized', 'C18 C20'),
    ('models.py', r'', 'C19 C20 C09 C11'),
    ('mean_field_ising.py', r'', 'C18 C17'),
    ('pseudo_inverse_ising.py', r'', 'C15'),
    ('enumerate.py', r'', 'C04 C03'),
    ('enumerate_potts.py', r'', 'C04 C03'),
    ('ising/utils.py', r'', 'C19'),
    ('ising/automaton.py', r'', 'C22'),
]
CMP = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
CSW = {'<': ['<=', '>='], '<=': ['<', '>'], '>': ['>=', '<='], '>=': ['>', '<'], '==': ['!='], '!=': ['=='], 'is': ['is not'], 'is not': ['is'], 'in': ['not in'], 'not in': ['in']}
BIN = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '/'), ast.Div: ('/', '*'), ast.FloorDiv: ('//', '/'), ast.Pow: ('**', '*'), ast.BitAnd: ('&', '|'), ast.BitOr: ('|', '&')}


def mutations(src):
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: b[slice(*pos(n))].decode()
    out = []

    def visit(node, q, doc):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                top = q + ([c.name] if len(q) < 2 else [])
                if c.name.startswith('__') and c.name != '__init__':
                    continue
                visit(c, top, ast.get_docstring(c))
                continue
            if q and isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant):
                continue
            if q:
                one(c, '.'.join(q), node)
            visit(c, q, None)

    def one(n, q, parent):
        def add(a, e, t, what):
            out.append((q, n.lineno if hasattr(n, 'lineno') else 0, a, e, t, what))
        if isinstance(n, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = CMP[type(n.ops[0])]
            a, e = pos(n.left)[1], pos(n.comparators[0])[0]
            t = b[a:e].decode()
            if t.count(o) == 1:
                for w in CSW[o]:
                    add(a, e, t.replace(o, w), 'cmp')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            o, w = BIN[type(n.op)]
            a, e = pos(n.left)[1], pos(n.right)[0]
            t = b[a:e].decode()
            if t.count(o) == 1 and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                add(a, e, t.replace(o, w), 'arith')
        elif isinstance(n, ast.Constant) and not isinstance(n.value, str):
            a, e = pos(n)
            if isinstance(n.value, bool):
                add(a, e, str(not n.value), 'bool')
            elif isinstance(n.value, int):
                add(a, e, str(n.value + 1), 'const')
                if n.value > 0:
                    add(a, e, str(n.value - 1), 'const')
            elif isinstance(n.value, float) and n.value:
                add(a, e, repr(n.value * 2), 'const')
        elif isinstance(n, ast.UnaryOp):
            a, e = pos(n)
            add(a, e, '(' + seg(n.operand) + ')', 'unary')
        elif isinstance(n, ast.BoolOp) and len(n.values) == 2:
            a, e = pos(n.values[0])[1], pos(n.values[1])[0]
            t = b[a:e].decode()
            add(a, e, t.replace(' and ', ' \0 ').replace(' or ', ' and ').replace('\0', 'or'), 'boolop')
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            a, e = pos(n.test)
            add(a, e, '(not (' + seg(n.test) + '))', 'negate')
        if isinstance(n, (ast.AugAssign, ast.Expr)) or isinstance(n, ast.Assign) and len(n.targets) == 1:
            a, e = pos(n)
            add(a, e, 'pass', 'delete')
        if isinstance(n, ast.AugAssign):
            a, e = pos(n.target)[1], pos(n.value)[0]
            t = b[a:e].decode()
            for x, y in (('+=', '-='), ('-=', '+='), ('*=', '/='), ('/=', '*='), ('+=', '=')):
                if x in t:
                    add(a, e, t.replace(x, y), 'aug')
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'ravel', 'astype', 'T', 'mean', 'sum') and n.func.attr in ('copy', 'astype'):
                a, e = pos(n)
                add(a, e, seg(n.func.value), 'drop')
            for k in n.keywords:
                if k.arg:
                    a, e = pos(k)
                    t = b[e:e + 2].decode()
                    m = re.match(rb',\s*', b[e:])
                    if m:
                        add(a, e + m.end(), '', 'kw')
                    else:
                        m = re.search(rb',\s*$', b[:a])
                        if m:
                            add(m.start(), e, '', 'kw')
            if len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args[:2]):
                (a0, e0), (a1, e1) = pos(n.args[0]), pos(n.args[1])
                add(a0, e1, seg(n.args[1]) + b[e0:a1].decode() + seg(n.args[0]), 'swap')
    visit(ast.parse(src), [], None)
    res = []
    for q, l, a, e, t, w in out:
        new = (b[:a] + t.encode() + b[e:]).decode()
        if new == src:
            continue
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        res.append((q, l, w, new, b[max(0, a - 40):a].decode() + '[[' + b[a:e].decode()[:80] + ' -> ' + t[:80] + ']]' + b[e:e + 30].decode()))
    return res


def run(m):
    f, q, l, w, new, show, checks = m
    d = tempfile.mkdtemp(prefix='mu_', dir='/tmp')
    r = d + '/repo'
    res = {}
    try:
        subprocess.check_call(['cp', '-a', REPO, r])
        open(r + '/coniii/' + f, 'w').write(new)
        for c in checks:
            try:
                x = subprocess.run(['bash', V + '/run.sh', c, '--first'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600, env={**os.environ, 'VERIF_REPO': r, 'VERIF_SEED': '1', 'VERIF_TIER': 'quick'})
                res[c] = x.returncode
            except subprocess.TimeoutExpired:
                res[c] = 'timeout'
            if res[c] != 0:
                break
    finally:
        shutil.rmtree(d)
    return m, res


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('--n', type=int, default=20); ap.add_argument('--seed', type=int, default=0)
    ap.add_argument('--filter', default=''); ap.add_argument('--jobs', type=int, default=2); ap.add_argument('--out', default='/tmp/mut.jsonl')
    ap.add_argument('--list', action='store_true')
    o = ap.parse_args()
    pool = []
    for f in sorted({m[0] for m in MAP}):
        src = open(REPO + '/coniii/' + f).read()
        for q, l, w, new, show in mutations(src):
            for mf, rx, ch in MAP:
                if mf == f and re.search(rx, q):
                    if ch:
                        pool.append((f, q, l, w, new, show, ch.split()))
                    break
    pool = [p for p in pool if re.search(o.filter, p[0] + ':' + p[1])]
    print(len(pool), 'possible changes', flush=True)
    random.Random(o.seed).shuffle(pool)
    # spread over functions
    seen, sel = {}, []
    pool.sort(key=lambda p: 0)
    order = []
    for p in pool:
        k = p[0] + p[1]
        seen[k] = seen.get(k, 0) + 1
        order.append((seen[k] ** 1.0, len(order), p))
    order.sort(key=lambda t: (t[0], t[1]))
    sel = [p for _, _, p in order[:o.n]]
    if o.list:
        for p in sel: print(p[0], p[1], p[2], p[3], repr(p[5]))
        sys.exit()
    n = miss = 0
    with cf.ThreadPoolExecutor(o.jobs) as ex, open(o.out, 'a') as fo:
        for (f, q, l, w, new, show, ch), res in ex.map(run, sel):
            n += 1
            caught = 1 in res.values()
            fo.write(json.dumps({'f': f, 'q': q, 'l': l, 'w': w, 'show': show, 'res': res, 'caught': caught}) + '\n'); fo.flush()
            if not caught:
                miss += 1
                print('MISS %s:%d %s %s %s\n      %r' % (f, l, q, w, res, show), flush=True)
    print(n, 'run', miss, 'missed')
