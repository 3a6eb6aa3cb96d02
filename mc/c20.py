"""C20: values of action expressions against a reference evaluator, for every small expression."""
import copy, io, itertools
from core import *  # noqa
import fake

BOUNDS = {
    'quick': 'every string literal of up to 3 pieces over 21 pieces (all escapes, blanks, quotes and the characters with a meaning in grammars), numbers with sign and '
             'fraction, True, False, None; every well-typed expression over list, set, dict, append, update, add, inc, dec, print and a handler call up to depth 2 over '
             '11 atoms, depth 3 over 2 atoms; each with a sync and an async handler, as argument, as assigned value and as a statement, executed twice on one CLI; every pair of 10 input() calls with 9 or 81 pairs of things typed; every program of up to 3 of 16 statements that assign, change, share and nest the variables',
    'thorough': 'depth 2 over 18 atoms, depth 3 over 4 atoms; programs of up to 4 statements',
}
ASSUMPTIONS = ['append is given a list or set (set: hashable values), update a dict with a hashable key: anything else is undocumented']
TASKS = 8

PIECES = [('a', 'a'), (' ', ' '), ('\\n', '\n'), ('\\0', '\0'), ('\\r', '\r'), ('\\t', '\t'), ('\\b', '\b'), ('\\v', '\v'), ('\\a', '\a'), ('\\"', '"'),
          ('\\\\', '\\'), ('>', '>'), ('<', '<'), ('#', '#'), ('/', '/'), ('*', '*'), (';', ';'), (')', ')'), ('$1', '$1'), ('n', 'n'), ('\u00e9', '\u00e9')]
NUMS = [('0', 0), ('7', 7), ('-1', -1), ('+2', 2), ('10', 10), ('120', 120), ('1.5', 1.5), ('-0.25', -0.25), ('.5', 0.5), ('+.75', 0.75), ('-.5', -0.5), ('0.0', 0.0), ('3.0', 3.0)]

# variables set before the expression, and the matched word
SETUP = '$n = 4; $s = "v\\\\n"; $l = list(5); $t = set(6); $d = dict(); $z = None;'


class C(Cli):
    def ev(self, *a):
        self.events.append(copy.deepcopy(a))

    async def aev(self, *a):
        self.events.append(copy.deepcopy(a))

    def ret(self, *a):
        self.events.append(('ret',) + copy.deepcopy(a))
        return a[0] if a else None

    async def aret(self, *a):
        self.events.append(('ret',) + copy.deepcopy(a))
        return a[0] if a else None

    def callx(self, *a):
        return self.ret(*a)


# ---- expressions: (text, type, evaluator(env) -> value, hashable)
def atom(text, ty, f, h=True):
    return (text, ty, f, h)


def lit(t, v):
    return atom(t, 'num' if isinstance(v, (int, float)) and not isinstance(v, bool) else 'any', lambda e: v)


def var(t):
    ty = {'$n': 'num', '$l': 'list', '$t': 'set', '$d': 'dict'}.get(t, 'any')
    return atom(t, ty, lambda e: e['vars'].get(t), ty not in ('list', 'set', 'dict'))


ATOMS = [lit('0', 0), lit('-2', -2), lit('1.5', 1.5), lit('"p q"', 'p q'), lit('True', True), lit('None', None), var('$1'), var('$n'), var('$l'), var('$t'), var('$d')]
MORE = [lit('""', ''), lit('False', False), lit('"\\\\n"', '\\n'), lit('"\\n"', '\n'), var('$s'), var('$u'), lit('30', 30)]


def app(c, xs):
    if isinstance(c, list):
        c.extend(xs)
    else:
        for x in xs:
            c.add(x)
    return c


def plus(ls):
    return [x for l in ls for x in l]


STRS = ('"p q"', '$1', '$s', '"\\\\n"')


MIXED = ('0', '1.5', '"p q"', '$1', 'None', '$l', '$d', '1', '"x"')


def mixed(a):
    v = a[0]
    for x in a[1:]:
        try:
            v = v + x
        except TypeError:
            pass
    return v


def upd(d, k, v):
    d[k] = v
    return d


def pr(e, a):
    e['out'].append(' '.join(str(x) for x in a) + '\n')


def call(e, a):
    e['ev'].append(('ret',) + copy.deepcopy(tuple(a)))
    return a[0] if a else None


def mk(name, args, ty, f, h=False):
    return ('%s(%s)' % (name, ', '.join(a[0] for a in args)), ty, lambda e: f(e, [a[2](e) for a in args]), h)


def level(A, deep=None):
    """every well-typed application over A with at least one argument from deep (if given)"""
    deep = A if deep is None else deep
    dset = {a[0] for a in deep}
    new = lambda args: deep is A or any(a[0] in dset for a in args)
    num = [a for a in A if a[1] == 'num']
    hs = [a for a in A if a[3]]
    lists = [a for a in A if a[1] == 'list']
    sets = [a for a in A if a[1] == 'set']
    dicts = [a for a in A if a[1] == 'dict']
    if deep is A:
        yield mk('list', (), 'list', lambda e, a: [])
        yield mk('dict', (), 'dict', lambda e, a: {})
        yield mk('set', (), 'set', lambda e, a: set())
        yield mk('call ret', (), 'any', call)
    for n in (1, 2):
        for a in itertools.product(A, repeat=n):
            if new(a):
                yield mk('list', a, 'list', lambda e, a: list(a))
                yield mk('call ret', a, a[0][1], call, a[0][3])
        for a in itertools.product(hs, repeat=n):
            if new(a):
                yield mk('set', a, 'set', lambda e, a: set(a))
        for a in itertools.product(num, repeat=n):
            if new(a):
                yield mk('add', a, 'num', lambda e, a: sum(a), True)
        for a in itertools.product([c for c in lists if '$l' in c[0]] if deep is not A and n > 1 else lists, repeat=n):
            if n > 1 and new(a):
                yield mk('add', a, 'list', lambda e, a: plus(a))
        for a in itertools.product([s for s in A if s[0] in STRS], repeat=n):
            if deep is A:
                yield mk('add', a, 'str', lambda e, a: ''.join(a), True)
    if deep is A:
        # what does not fit is left out
        for a in itertools.chain(itertools.product(A, repeat=2), itertools.product([x for x in A if x[0] in MIXED], repeat=3)):
            yield mk('add', a, 'any', lambda e, a: mixed(a))
        for a in A:
            if a[1] != 'num':
                yield mk('inc', (a,), a[1], lambda e, a: mixed(a + [1]))
                yield mk('dec', (a,), a[1], lambda e, a: mixed(a + [-1]))
    for a in A:
        if new((a,)):
            yield mk('print', (a,), 'any', pr, True)
            yield mk('call aret', (a,), a[1], call, a[3])
            if a[1] == 'num':
                yield mk('inc', (a,), 'num', lambda e, a: a[0] + 1, True)
                yield mk('dec', (a,), 'num', lambda e, a: a[0] - 1, True)
    for c in lists:
        for a in A:
            if new((c, a)) and not ('$l' in c[0] and '$l' in a[0]):
                yield mk('append', (c, a), 'list', lambda e, a: app(a[0], a[1:]))
        if deep is A:
            yield mk('append', (c, A[0], A[0]), 'list', lambda e, a: app(a[0], a[1:]))
    for c in sets:
        for a in hs:
            if new((c, a)):
                yield mk('append', (c, a), 'set', lambda e, a: app(a[0], a[1:]))
        if deep is A:
            yield mk('append', (c, hs[0], hs[-1]), 'set', lambda e, a: app(a[0], a[1:]))
    for c in dicts:
        for k in hs[:5] if deep is A else [h for h in hs if h[0] in dset] + hs[:1]:
            for v in A:
                if new((c, k, v)) and not ('$d' in c[0] and '$d' in v[0]):
                    yield mk('update', (c, k, v), 'dict', lambda e, a: upd(*a))


def exprs(tier):
    q = tier == 'quick'
    for n in range(0, 4):
        for ps in itertools.product(PIECES, repeat=n):
            yield lit('"%s"' % ''.join(p[0] for p in ps), ''.join(p[1] for p in ps))
    for t, v in NUMS:
        yield lit(t, v)
    A = ATOMS if q else ATOMS + MORE
    yield from A if not q else A + MORE
    d2 = list(level(A))
    yield from d2
    a3 = [lit('1', 1), var('$l')] if q else [lit('1', 1), lit('"x"', 'x'), var('$l'), var('$d')]
    d1 = list(level(a3))
    yield from level(a3 + d1, d1)


# ---- programs: statements that change the variables
def st(text, f):
    return text, f


def assign(n, f):
    return lambda e: e['vars'].__setitem__(n, f(e['vars'], e))


def do(f):
    return lambda e: f(e['vars'], e)


STMTS = [
    st('$n = inc($n)', assign('$n', lambda v, e: v['$n'] + 1)),
    st('$n = add($n, $n)', assign('$n', lambda v, e: v['$n'] + v['$n'])),
    st('$s = add($s, "b")', assign('$s', lambda v, e: v['$s'] + 'b')),
    st('$m = $l', assign('$m', lambda v, e: v['$l'])),
    st('$l = list($n, $s)', assign('$l', lambda v, e: [v['$n'], v['$s']])),
    st('$l = append($l, $n)', assign('$l', lambda v, e: app(v['$l'], [v['$n']]))),
    st('append($l, $d)', do(lambda v, e: app(v['$l'], [v['$d']]))),
    st('append($t, $n)', do(lambda v, e: app(v['$t'], [v['$n']]))),
    st('append($t, "v", $n)', do(lambda v, e: app(v['$t'], ['v', v['$n']]))),
    st('update($d, "k", $n)', do(lambda v, e: upd(v['$d'], 'k', v['$n']))),
    st('update($d, "k", $l)', do(lambda v, e: upd(v['$d'], 'k', v['$l']))),
    st('update($d, $s, $s)', do(lambda v, e: upd(v['$d'], v['$s'], v['$s']))),
    st('$d = update(dict(), $n, $d)', assign('$d', lambda v, e: {v['$n']: v['$d']})),
    st('$l = add($l, $l)', assign('$l', lambda v, e: v['$l'] + v['$l'])),
    st('$z = call ret($l, $n)', assign('$z', lambda v, e: call(e, [v['$l'], v['$n']]))),
    st('print($n, $s)', do(lambda v, e: pr(e, [v['$n'], v['$s']]))),
]
SHOW = ('$n', '$s', '$l', '$t', '$d', '$m', '$z')


def programs(tier):
    for n in range(1, 4 if tier == 'quick' else 5):
        yield from itertools.product(STMTS, repeat=n)


def run_programs(job, r):
    _, tier, lo, hi = job
    ps = list(itertools.islice(programs(tier), lo, hi))
    cli = build('\n'.join(['token W StringToken();'] + [
        'g%d: << %s >> W << %s; call ev(%s); >>;' % (i, SETUP, '; '.join(x[0] for x in p), ', '.join(SHOW)) for i, p in enumerate(ps)]), cls=C)
    for i, p in enumerate(ps):
        e = env()
        for _, f in p:
            f(e)
        V = e['vars']
        e['ev'].append(copy.deepcopy(tuple(V.get(n) for n in SHOW)))
        for rep in (1, 2):
            cli.out.seek(0)
            cli.out.truncate()
            res, s, evs = cli.line('w', 'g%d' % i)
            out = cli.out.getvalue()
            r.transitions += len(p) + 1
            r.traces += 1
            if s != 0 or not same(evs, e['ev']) or out != ''.join(e['out']):
                text = '; '.join(x[0] for x in p)
                r.bad('program %s (%d)' % (text, rep), dict(program=text, run=rep), [repr(e['ev']), e['out']], [res, repr(evs), out], job, size=len(text))
        r.states += 1
        r.outcomes['program of %d' % len(p)] += 1


def jobs(tier):
    n = sum(len(STMTS) ** k for k in range(1, 4 if tier == 'quick' else 5))
    for i in range(0, n, 300):
        yield 'programs', tier, i, i + 300
    n = sum(1 for _ in exprs(tier))
    for i in range(0, n, 400):
        yield tier, i, i + 400


def env():
    return dict(vars={'$n': 4, '$s': 'v\\n', '$l': [5], '$t': {6}, '$d': {}, '$z': None, '$1': 'w\\n'}, ev=[], out=[])


def same(a, b, seen=()):
    """equal including the types of everything in them (a collection may be put into itself)"""
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple, dict)):
        if (id(a), id(b)) in seen:
            return True
        seen += ((id(a), id(b)),)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, seen) for x, y in zip(a, b))
    if isinstance(a, dict):
        return len(a) == len(b) and all(any(same(k, l, seen) and same(v, w, seen) for l, w in b.items()) for k, v in a.items())
    if isinstance(a, set):
        return len(a) == len(b) and all(any(same(x, y) for y in b) for x in a)
    return a == b


FORMS = ('arg', 'aarg', 'var', 'stmt')


def run(job, r):
    if job[0] == 'programs':
        return run_programs(job, r)
    tier, lo, hi = job
    es = list(itertools.islice(exprs(tier), lo, hi))
    text = ['token W StringToken();']
    for i, x in enumerate(es):
        tail = 'call ev("after", $l, $t, $d, $n, $s);'
        iscall = x[0].endswith(')')
        text.append('arg%d: W << %s call ev(%s); %s >>;' % (i, SETUP, x[0], tail))
        text.append('aarg%d: W << %s call aev(%s, %s); %s >>;' % (i, SETUP, '0', x[0].replace('call ret', 'call aret'), tail))
        text.append('var%d: << %s >> W << $r = %s; call ev($r); %s >>;' % (i, SETUP, x[0], tail))
        if iscall:
            text.append('stmt%d: << %s >> W << %s; %s >>;' % (i, SETUP, x[0], tail))
    cli = build('\n'.join(text), cls=C)
    for i, x in enumerate(es):
        for form in FORMS:
            if form == 'stmt' and not x[0].endswith(')'):
                continue
            e = env()
            v = x[2](e)
            if form == 'aarg':
                e['ev'].append((0, v))
            elif form != 'stmt':
                e['ev'].append((v,))
            e['ev'] = copy.deepcopy(e['ev'])
            V = e['vars']
            e['ev'].append(copy.deepcopy(('after', V['$l'], V['$t'], V['$d'], V['$n'], V['$s'])))
            for rep in (1, 2):
                cli.out.seek(0)
                cli.out.truncate()
                res, st, evs = cli.line('"w\\\\n"', form + str(i))
                out = cli.out.getvalue()
                r.transitions += len(evs)
                r.traces += 1
                if st != 0 or not same(evs, e['ev']) or out != ''.join(e['out']):
                    r.bad('%s %s (%d)' % (form, x[0], rep), dict(expression=x[0], form=form, run=rep), [repr(e['ev']), e['out']], [res, repr(evs), out], job, size=len(x[0]))
        r.states += 1
        r.outcomes[x[1] + ' ' + type(v).__name__] += 1
    r.sample(es[0][0])
    if lo == 0:
        names(r, job)
        inputs(r, job)


def names(r, job):
    """handlers whose names begin with, or are, words of the action language"""
    NM = ['callx', 'call_', 'call', 'Truex', 'True1', 'Falsey', 'Nonesuch', 'list', 'print_', 'inc', 'add', 'dict', 'token', 'importx', 'x-y']
    D = {n.replace('-', '_'): (lambda self, *a, n=n: (self.ev(n, *a), n)[1]) for n in NM}
    D['get_cli_hook'] = lambda self, n: n.replace('-', '_')
    K = type('K', (C,), D)
    cli = build('\n'.join('g%d: "x" << $r = call %s(1, call ret(2)); call ev($r); >>;' % (i, n) for i, n in enumerate(NM)), cls=K)
    for i, n in enumerate(NM):
        res, st, evs = cli.line('x', 'g%d' % i)
        r.traces += 1
        r.transitions += 1
        if evs != [('ret', 2), (n, 1, 2), (n,)]:
            r.bad('name ' + n, dict(handler=n), [('ret', 2), (n, 1, 2), (n,)], evs, job)


# input(): (text, prompt, hidden) and what is typed for it
ASKED = [('input()', '', False), ('input("p")', 'p', False), ('input(" p q ", True)', ' p q ', False), ('input("p", False)', 'p', True), ('input($1)', 'w', False), ('input(4)', '4', False),
         ('input("p", $yes)', 'p', False), ('input("p", $no)', 'p', True), ('input("p", call ret(False))', 'p', True), ('input(add("p", "q"), call ret(True))', 'pq', False)]
TYPED = ['x y', '', ' ', 'a\\n', '"q"', '#', '\\', fake.EOF, fake.INTR]


def inputs(r, job):
    """a line asked for by an action: prompt, hidden or not, and what was typed as it is (nothing when there is none)"""
    fake.install()
    text, forms = ['token W StringToken();'], []
    for (a, p, h), (b, q, g) in itertools.product(ASKED, ASKED):
        i = len(forms)
        forms.append([(p, h), (q, g)])
        text.append('g%d: << $yes = True; $no = False; >> W << $r = %s; call ev($r, %s); >>;' % (i, a, b))
        text.append('l%d: << $yes = True; $no = False; >> W << %s; call ev("", list(%s)); >>;' % (i, a, b))
    cli = build('\n'.join(text), cls=C)
    for i, asked in enumerate(forms):
        for kind, (x, y) in itertools.product('gl', itertools.product(TYPED, TYPED) if i % 7 == 0 else zip(TYPED, TYPED[3:] + TYPED)):
            rl = cli.readline
            rl.script, rl.log, rl.ended = [x, y], [], False
            res, st, evs = cli.line('w', '%s%d' % (kind, i))
            vx, vy = [v if isinstance(v, str) else '' for v in (x, y)]
            want = [('', [vy]) if kind == 'l' else (vx, vy)]
            evs = [e for e in evs if e[0] != 'ret']
            r.traces += 1
            r.transitions += 2
            r.outcomes['input %s' % ('hidden' if asked[0][1] else 'shown')] += 1
            if evs != want or rl.log != [('prompt',) + a for a in asked] or rl.script:
                r.bad('input %s %r' % (asked, (x, y)), dict(asked=asked, typed=[x, y], form=kind), [want, asked], [evs, rl.log], job, size=i)
    r.states += len(forms)
