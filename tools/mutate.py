"""Mutation testing of the checks: mutate.py list|run OUT.jsonl [file-substring ...]

Every mutant is a one place change of the package's source made in a scratch copy.
Those the repository's own tests do not notice are given to the checks; what no
check notices is logged as a survivor, to be judged by hand."""
import ast, json, multiprocessing, os, random, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NESSAID_REPO', '/repo')
SCRATCH = os.environ.get('MUT_SCRATCH', '/tmp/mut')
PY = '/opt/venv/bin/python'
STABLE = ['nessaid_cli_tests/test_cli.py', 'nessaid_cli_tests/test_grammar.py', 'nessaid_cli_tests/test_tokenizer.py']
COST = dict(C13=2, C02=5, C08=5, C01=6, C09=6, C15=6, C11=7, C14=7, C19=8, C20=9, C10=13, C04=13, C05=13,
            C21=8, C22=20, C17=15, C07=16, C03=23, C06=27, C16=27, C12=37, C18=52)

# the checks a file matters most to (run in full, the others on a part of their jobs)
NEAR = [('cli.py', ['C11', 'C15', 'C16', 'C17', 'C22']), ('tokens.py', ['C07', 'C08', 'C09', 'C19']), ('interface.py', ['C03', 'C04', 'C06', 'C10', 'C18', 'C19', 'C20']),
        ('elements.py', ['C03', 'C04', 'C05', 'C10']), ('compiler.py', ['C12', 'C20', 'C05']), ('lex_yacc', ['C12', 'C20']), ('cmd.py', ['C13', 'C14', 'C16', 'C18', 'C21', 'C22']),
        ('utils', ['C02', 'C01']), ('tokenizer', ['C01', 'C02']), ('binding', ['C20', 'C12', 'C05'])]
SKIP = ['system_info', 'get_size', 'get_drives', 'show', 'print_', 'as_dict', 'p_error', '__main__']

CMP = {ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='], ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}


class Gen(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.split('\n')
        self.off = [0]
        for l in src.encode().split(b'\n'):
            self.off.append(self.off[-1] + len(l) + 1)
        self.b = src.encode()
        self.out = []
        self.fn = []

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.span(n)
        return self.b[a:b].decode()

    def add(self, a, b, new, what, n):
        self.out.append(dict(a=a, b=b, new=new, what=what, line=n.lineno, fn='.'.join(self.fn), old=self.b[a:b].decode()))

    def rep(self, n, new, what):
        a, b = self.span(n)
        self.add(a, b, new, what, n)

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        body = n.body
        for s in n.decorator_list + n.args.defaults:
            self.visit(s)
        self.stmts(body)
        self.fn.pop()

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        self.stmts(n.body, False)
        self.fn.pop()

    def stmts(self, body, delete=True):
        for s in body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if delete and self.fn and isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Return, ast.Break, ast.Continue, ast.Raise, ast.Delete)):
                if not (isinstance(s, ast.Return) and s.value is None and s is body[-1]):
                    self.rep(s, 'pass', 'delete')
            if delete and isinstance(s, ast.Break):
                self.rep(s, 'continue', 'break->continue')
            if delete and isinstance(s, ast.Continue):
                self.rep(s, 'break', 'continue->break')
            self.visit(s)

    def generic_visit(self, n):
        for f, v in ast.iter_fields(n):
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                self.stmts(v)
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, ast.AST):
                        self.visit(x)
            elif isinstance(v, ast.AST):
                self.visit(v)

    def cond(self, t):
        self.rep(t, 'True', 'cond True')
        self.rep(t, 'False', 'cond False')

    def visit_If(self, n):
        self.cond(n.test)
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.cond(n.test)
        self.generic_visit(n)

    def visit_While(self, n):
        self.rep(n.test, 'False', 'while False')
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            for o in CMP[type(n.ops[0])]:
                self.rep(n, '(%s %s %s)' % (self.text(n.left), o, self.text(n.comparators[0])), 'cmp')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = ' or ' if isinstance(n.op, ast.And) else ' and '
        self.rep(n, '(' + op.join('(%s)' % self.text(v) for v in n.values) + ')', 'boolop')
        op = ' and ' if isinstance(n.op, ast.And) else ' or '
        for i in range(len(n.values)):
            self.rep(n, '(' + op.join('(%s)' % self.text(v) for j, v in enumerate(n.values) if j != i) + ')', 'drop operand')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.rep(n, '(%s)' % self.text(n.operand), 'drop not')
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if isinstance(n.op, (ast.Add, ast.Sub)):
            self.rep(n, '(%s %s %s)' % (self.text(n.left), '-' if isinstance(n.op, ast.Add) else '+', self.text(n.right)), '+-')
            self.rep(n, self.text(n.left), 'left only')
            self.rep(n, self.text(n.right), 'right only')
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if v is True or v is False:
            self.rep(n, str(not v), 'bool')
        elif isinstance(v, int):
            self.rep(n, str(v + 1), '+1')
            self.rep(n, str(v - 1), '-1')
        elif isinstance(v, str) and len(v) <= 40 and self.fn:
            if v:
                self.rep(n, '""', 'empty str')

    def visit_JoinedStr(self, n):
        pass

    def visit_Call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in ('copy', 'strip', 'lower', 'upper', 'rstrip', 'lstrip', 'clone') and not n.args:
            self.rep(n, self.text(f.value), 'drop .%s()' % f.attr)
        if isinstance(f, ast.Name) and f.id in ('list', 'set', 'sorted', 'reversed', 'dict', 'tuple', 'str', 'int') and len(n.args) == 1 and not n.keywords:
            self.rep(n, self.text(n.args[0]), 'drop %s()' % f.id)
        if isinstance(f, ast.Attribute) and f.attr == 'startswith':
            self.rep(f, self.text(f.value) + '.endswith', 'startswith->endswith')
        if isinstance(f, ast.Name) and f.id == 'any':
            self.rep(f, 'all', 'any->all')
        if isinstance(f, ast.Name) and f.id == 'all':
            self.rep(f, 'any', 'all->any')
        for k in n.keywords:
            if k.arg and not (isinstance(k.value, ast.Constant)):
                pass
        self.generic_visit(n)

    def visit_Subscript(self, n):
        s = n.slice
        if isinstance(s, ast.UnaryOp) and isinstance(s.op, ast.USub) and isinstance(s.operand, ast.Constant):
            self.rep(s, '0', '-1->0')
        self.generic_visit(n)


def mutants(root, want):
    out = []
    for d, _, fs in sorted(os.walk(root + '/nessaid_cli')):
        for f in sorted(fs):
            if not f.endswith('.py') or f in ('parsetab.py', 'lextab.py', 'parser.out'):
                continue
            p = os.path.join(d, f)
            rel = os.path.relpath(p, root)
            if want and not any(w in rel for w in want):
                continue
            src = open(p).read()
            g = Gen(src)
            g.visit(ast.parse(src))
            seen = set()
            for m in g.out:
                if m['old'] == m['new'] or (m['a'], m['b'], m['new']) in seen:
                    continue
                seen.add((m['a'], m['b'], m['new']))
                nb = g.b[:m['a']] + m['new'].encode() + g.b[m['b']:]
                try:
                    compile(nb, p, 'exec')
                except SyntaxError:
                    continue
                if any(w in m['fn'] for w in SKIP) or 'exception' in m['old'].lower() and m['what'] == 'delete' or m['what'] == 'delete' and m['old'].startswith(('print', 'self.error')):
                    continue
                if '__repr__' in m['fn'] or '__str__' in m['fn'] and 'elements' in rel:
                    continue
                m['file'] = rel
                out.append(m)
    return out


def sh(cmd, cwd, env, t):
    try:
        return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=t, stdin=subprocess.DEVNULL, start_new_session=True)
    except subprocess.TimeoutExpired:
        subprocess.run(['pkill', '-9', '-f', cwd + '/'], capture_output=True)
        return None


def setup(i):
    global W, V
    i = multiprocessing.current_process()._identity[0]
    W = '%s/w%d/repo' % (SCRATCH, i)
    V = '%s/w%d/verif' % (SCRATCH, i)
    shutil.rmtree(os.path.dirname(W), ignore_errors=True)
    os.makedirs(W)
    subprocess.run('git -C %s archive HEAD | tar x -C %s; mkdir -p %s; cp -a %s/mc %s/; touch %s/known_findings.jsonl' % (REPO, W, V, VERIF, V, V), shell=True)


def apply(m):
    p = os.path.join(W, m['file'])
    src = open(p, 'rb').read()
    open(p, 'wb').write(src[:m['a']] + m['new'].encode() + src[m['b']:])
    return p, src


KILLS = None


def one(m):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TERM='dumb', NESSAID_REPO=W, PYTHONPATH=W, MC_FAILFAST='1',
               MC_NPROC='1', VERIF_SEED='1', TMPDIR=os.path.dirname(W))
    p, src = apply(m)
    t0 = time.time()
    try:
        t = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60'] + STABLE, W, env, 120)
        if t is None or '6 passed' not in t.stdout:
            return dict(m, by='tests', t=time.time() - t0)
        if os.environ.get('MUT_STAGE1'):
            return dict(m, by=None)
        near = [c for w, cs in NEAR if w in m['file'] for c in cs]
        k = {key[1]: n for key, n in list(KILLS.items()) if key[0] == (m['file'], m['fn'])}
        order = sorted(COST, key=lambda c: (-k.get(c, 0) / COST[c], c not in near, COST[c]))
        for c in order:
            env['MC_SAMPLE'] = str(-(-COST[c] * 8 // (25 if c in near else 4)))
            r = sh([PY, 'mc/run.py', c], V, env, 900)
            if r is None or r.returncode != 0:
                key = ((m['file'], m['fn']), c)
                KILLS[key] = KILLS.get(key, 0) + 1
                return dict(m, by=c, rc=None if r is None else r.returncode, t=time.time() - t0,
                            note=(r.stdout + r.stderr)[-300:] if r is not None and r.returncode != 1 else '')
        return dict(m, by=None, t=time.time() - t0)
    finally:
        open(p, 'wb').write(src)


if __name__ == '__main__':
    ms = mutants(REPO, sys.argv[3:])
    if sys.argv[1] == 'list':
        print(len(ms))
        for m in ms[:40]:
            print(m['file'], m['line'], m['what'], m['old'][:60], '->', m['new'][:60])
        sys.exit()
    done = set()
    ident = lambda m: (m['file'], m['a'], m['b'], m['new'])
    if os.path.exists(sys.argv[2]):
        done = {ident(json.loads(l)) for l in open(sys.argv[2])}
    ms = [m for m in ms if ident(m) not in done]
    random.Random(1).shuffle(ms)                 # so that an interrupted run has seen some of everything
    KILLS = multiprocessing.Manager().dict()
    with multiprocessing.Pool(int(os.environ.get('MUT_WORKERS', '8')), initializer=setup, initargs=(0,)) as pool, open(sys.argv[2], 'a') as f:
        for r in pool.imap_unordered(one, ms, chunksize=1):
            f.write(json.dumps(r) + '\n')
            f.flush()
    shutil.rmtree(SCRATCH, ignore_errors=True)
