"""Small faults put into copies of the code, to see which the tests and the checks let pass (a survey, not a check).

python3 tools/mutants.py cover            which lines every check reaches -> /root/mut/cov.json
python3 tools/mutants.py make SEED N [FILE...]   mutants -> /root/mut/list.json
python3 tools/mutants.py tests            keep those that pass the stable tests -> /root/mut/alive.json
python3 tools/mutants.py checks           run the checks that reach them -> /root/mut/result.jsonl
"""
import ast, glob, json, os, random, re, subprocess, sys, concurrent.futures, shutil, time
MUT = '/root/mut'
WORK = '/tmp/mutw'
REPO = os.environ.get('MUTBASE', '/repo')     # a copy that stays as it is meanwhile
CHECKS = sorted(os.path.basename(p)[:3].upper() for p in glob.glob('/verif/checks/[a-z][0-9][0-9]_*.py'))


def cover():
    d = '/tmp/mutcov'
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    cov = json.load(open(MUT + '/cov.json')) if sys.argv[2:] else {}
    for c in sys.argv[2:] or CHECKS:
        t = time.time()
        r = subprocess.run(['bash', 'run.sh', c, '--tier', 'quick'], cwd='/verif', env=dict(os.environ, VERIF_COV=d, VERIF_EVIDENCE='/tmp/mutev'),
                           capture_output=True, text=True)
        lines = {}
        for p in glob.glob('%s/%s.*.json' % (d, c)):
            for f, ls in json.load(open(p)).items():
                lines.setdefault(f, set()).update(ls)
        cov[c] = {'time': time.time() - t, 'lines': {f: sorted(v) for f, v in lines.items() if v}}
        print(c, r.returncode, '%.1f' % cov[c]['time'], sum(map(len, lines.values())), flush=True)
    json.dump(cov, open(MUT + '/cov.json', 'w'))


CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is',
       ast.In: 'not in', ast.NotIn: 'in'}
SWAP = {'width': 'height', 'height': 'width', 'x': 'y', 'y': 'x', 'min': 'max', 'max': 'min', 'left': 'right', 'right': 'left',
        'top': 'bottom', 'bottom': 'top', 'first': 'last', 'append': 'extend', 'rstrip': 'strip', 'lstrip': 'strip', 'startswith': 'endswith',
        'sin': 'cos', 'cos': 'sin', 'floor': 'ceil', 'lower': 'strip', 'strip': 'lower', 'horizontal': 'vertical', 'w': 'h', 'rx': 'ry', 'ry': 'rx',
        'x1': 'x2', 'y1': 'y2', 'sorted': 'list', 'pop': 'index', 'find': 'rfind', 'split': 'rsplit', 'partition': 'rpartition',
        'deepcopy': 'copy', 'items': 'keys', 'parent_node': 'first_child', 'next_sibling': 'previous_sibling', 'previous_sibling': 'next_sibling'}


def mutants_of(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset
    out = []

    def add(n, new, what):
        a, b = span(n)
        old = raw[a:b].decode()
        if old != new:
            out.append({'file': os.path.relpath(path, REPO), 'line': n.lineno, 'a': a, 'b': b, 'old': old, 'new': new, 'what': what})
    func = []

    def seg(n):
        a, b = span(n)
        return raw[a:b].decode()

    def visit(n, infunc):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            infunc = True
        if infunc:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                add(n, '%s %s %s' % (seg(n.left), CMP[type(n.ops[0])], seg(n.comparators[0])), 'compare')
            elif isinstance(n, ast.BoolOp):
                op = ' or ' if isinstance(n.op, ast.And) else ' and '
                add(n, '(' + op.join(seg(v) for v in n.values) + ')', 'bool')
                if len(n.values) > 1:
                    add(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(seg(v) for v in n.values[:-1]) + ')', 'dropterm')
                    add(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(seg(v) for v in n.values[1:]) + ')', 'dropterm')
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                add(n, '(' + seg(n.operand) + ')', 'not')
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
                add(n, '(' + seg(n.operand) + ')', 'neg')
            elif isinstance(n, ast.BinOp):
                sw = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.BitAnd: '|', ast.BitOr: '&'}.get(type(n.op))
                strs = any(isinstance(x, (ast.JoinedStr,)) or isinstance(x, ast.Constant) and isinstance(x.value, str) for x in (n.left, n.right))
                if sw and not strs:
                    add(n, '(%s %s %s)' % (seg(n.left), sw, seg(n.right)), 'arith')
                if not isinstance(n.op, ast.Mod):
                    add(n, seg(n.left), 'dropright')
            elif isinstance(n, ast.If):
                add(n.test, 'False', 'iffalse')
                add(n.test, 'True', 'iftrue')
            elif isinstance(n, ast.IfExp):
                add(n, seg(n.body), 'ifexp')
                add(n, seg(n.orelse), 'ifexp')
            elif isinstance(n, ast.Constant):
                if n.value is True or n.value is False:
                    add(n, str(not n.value), 'const')
                elif isinstance(n.value, int):
                    add(n, str(n.value + 1), 'const')
                    if n.value:
                        add(n, str(n.value - 1), 'const')
                elif isinstance(n.value, float):
                    add(n, repr(n.value + 1), 'const')
                elif isinstance(n.value, str) and n.value and n.lineno == n.end_lineno and '{' not in n.value:
                    add(n, repr(n.value + 'X'), 'string')
            elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
                add(n, 'return None', 'return')
            elif isinstance(n, ast.Continue):
                add(n, 'break', 'continue')
            elif isinstance(n, ast.Break):
                add(n, 'continue', 'break')
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                add(n, 'pass', 'dropcall')
            elif isinstance(n, ast.AugAssign):
                add(n, 'pass', 'dropaug')
                if isinstance(n.op, ast.Add):
                    add(n, '%s -= %s' % (seg(n.target), seg(n.value)), 'aug')
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
                add(n, 'pass', 'dropassign')
            elif isinstance(n, ast.Raise):
                add(n, 'pass', 'dropraise')
            elif isinstance(n, ast.Delete):
                add(n, 'pass', 'dropdel')
            elif isinstance(n, ast.Attribute) and n.attr in SWAP:
                add(n, seg(n.value) + '.' + SWAP[n.attr], 'swap')
            elif isinstance(n, ast.Name) and n.id in SWAP and isinstance(n.ctx, ast.Load):
                add(n, SWAP[n.id], 'swap')
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in ('strip', 'lower', 'upper', 'copy', 'reverse') and not n.args:
                    add(n, seg(n.func.value), 'dropmethod')
                if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                    a = [seg(x) for x in n.args]
                    a[0], a[1] = a[1], a[0]
                    rest = [seg(k) if k.arg is None else '%s=%s' % (k.arg, seg(k.value)) for k in n.keywords if k.arg]
                    if all(k.arg for k in n.keywords):
                        add(n, '%s(%s)' % (seg(n.func), ', '.join(a + rest)), 'swapargs')
                if isinstance(n.func, ast.Name) and n.func.id in ('list', 'dict', 'iter', 'sorted', 'abs', 'float', 'int', 'str') and len(n.args) == 1:
                    add(n, seg(n.args[0]), 'dropwrap')
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
                if n.slice.lower is not None or n.slice.upper is not None:
                    add(n, seg(n.value) + '[:]', 'slice')
            if isinstance(n, ast.ExceptHandler) and isinstance(n.type, ast.Tuple):
                add(n.type, seg(n.type.elts[0]), 'except')
        body_doc = isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and ast.get_docstring(n, clean=False) is not None
        for name, val in ast.iter_fields(n):
            if isinstance(n, (ast.FunctionDef,)) and name in ('decorator_list', 'returns'):
                continue
            if isinstance(val, list):
                for k, x in enumerate(val):
                    if body_doc and name == 'body' and k == 0:
                        continue
                    if isinstance(x, ast.AST):
                        visit(x, infunc)
            elif isinstance(val, ast.AST):
                visit(val, infunc)
    visit(tree, False)
    return out


def make(seed, n, files):
    rng = random.Random(int(seed))
    # only lines of the original repository
    every = []
    paths = [os.path.join(REPO, f) for f in files] or [p for p in glob.glob(REPO + '/svgpy/**/*.py', recursive=True)
             if os.path.basename(p) not in ('_ffi_api.py', 'opentype.py', '__version__.py', 'exception.py')]
    cov = json.load(open(MUT + '/cov.json'))
    hit = {}
    for c in cov.values():
        for f, ls in c['lines'].items():
            hit.setdefault(f, set()).update(ls)
    for p in paths:
        rel = os.path.relpath(p, REPO)
        for m in mutants_of(p):
            m['covered'] = m['line'] in hit.get(rel, ())
            every.append(m)
    rng.shuffle(every)
    pick = every[:int(n)]
    for k, m in enumerate(pick):
        m['id'] = '%s-%d' % (seed, k)
    json.dump(pick, open(MUT + '/list.json', 'w'), indent=0)
    print(len(every), 'mutants,', len(pick), 'picked')


def apply(m, top):
    src = open(os.path.join(REPO, m['file']), 'rb').read()
    new = src[:m['a']] + m['new'].encode() + src[m['b']:]
    try:
        compile(new, m['file'], 'exec')
    except SyntaxError:
        return False
    with open(os.path.join(top, m['file']), 'wb') as f:
        f.write(new)
    return True


def undo(m, top):
    shutil.copyfile(os.path.join(REPO, m['file']), os.path.join(top, m['file']))


def copies(n):
    os.makedirs(WORK, exist_ok=True)
    for k in range(n):
        d = '%s/w%d' % (WORK, k)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(REPO, d, ignore=shutil.ignore_patterns('.git', '__pycache__'), symlinks=True)


def tests():
    n = 8
    copies(n)
    todo = json.load(open(MUT + '/list.json'))
    free = list(range(n))

    def one(m):
        k = free.pop()
        d = '%s/w%d' % (WORK, k)
        try:
            if not apply(m, d):
                return m, None
            return m, subprocess.run(['bash', MUT + '/tests.sh', d], capture_output=True).returncode
        finally:
            undo(m, d)
            free.append(k)
    alive = []
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        for m, rc in ex.map(one, todo):
            if rc == 0:
                alive.append(m)
                json.dump(alive, open(MUT + '/alive.json', 'w'), indent=0)
    json.dump(alive, open(MUT + '/alive.json', 'w'), indent=0)
    print(len(alive), 'of', len(todo), 'pass the tests')


def checks(limit=10 ** 9):
    cov = json.load(open(MUT + '/cov.json'))
    alive = json.load(open(MUT + '/alive.json'))
    done = {json.loads(l)['id'] for l in open(MUT + '/result.jsonl')} if os.path.exists(MUT + '/result.jsonl') else set()
    anchors = {}
    for line in open('/verif/properties.jsonl'):
        d = json.loads(line)
        anchors[d['id']] = d['anchors']['files']
    top = WORK + '/c'
    shutil.rmtree(top, ignore_errors=True)
    shutil.copytree(REPO, top, ignore=shutil.ignore_patterns('.git', '__pycache__'), symlinks=True)
    end = time.time() + limit
    for m in alive:
        if m['id'] in done:
            continue
        if time.time() > end:
            break
        reach = [c for c in cov if m['line'] in cov[c]['lines'].get(m['file'], ())]
        # the checks whose anchors are this file's first, cheap ones first
        reach.sort(key=lambda c: (m['file'] not in anchors[c], -len(cov[c]['lines'].get(m['file'], ())) / max(1, sum(map(len, cov[c]['lines'].values()))), cov[c]['time']))
        res = {}
        caught = None
        assert apply(m, top)
        try:
            for c in reach[:5]:
                if c == 'N01' and len(reach) > 1:
                    continue
                few = []
                if cov[c]['time'] > 12:
                    src = open(glob.glob('/verif/checks/%s_*.py' % c.lower())[0]).read()
                    few = ['--cases', str(int(re.search(r'quick=(\d+)', src).group(1)) // 4)]
                r = subprocess.run(['bash', 'run.sh', c, '--tier', 'quick'] + few, cwd='/verif', capture_output=True, text=True,
                                   env=dict(os.environ, VERIF_REPO=top, VERIF_EVIDENCE='/tmp/mutev'), timeout=900)
                res[c] = r.returncode
                if r.returncode == 1:
                    caught = c
                    break
        finally:
            undo(m, top)
        m.update(caught=caught, ran=res, reach=reach)
        with open(MUT + '/result.jsonl', 'a') as f:
            f.write(json.dumps(m) + '\n')
        print(m['id'], '%s:%d' % (m['file'], m['line']), m['what'], repr(m['old'][:50]), '->', repr(m['new'][:50]), caught or 'MISSED %s' % res, flush=True)


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'cover':
        cover()
    elif a[0] == 'make':
        make(a[1], a[2], a[3:])
    elif a[0] == 'tests':
        tests()
    else:
        checks(float(a[1]) if len(a) > 1 else 10 ** 9)
