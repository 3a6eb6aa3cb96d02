"""C05: values of grammar variables and parameters against a reference store, for every small program."""
import itertools
from core import *  # noqa

BOUNDS = {
    'quick': 'every straight-line program of up to 2 assignments over 3 variables (fresh constant, any variable, inc of a variable, $1), in 5 layouts (one action, '
             'spread over a sequence, over nested blocks, leading actions, repetitions), as locals, as parameters of a referenced grammar and as root parameters; '
             '3 assignments in one action and over nested blocks, 4 over two variables in one action; every call shape (6 parameter lists, every positional/keyword argument list of up to 2 over 7 values) with 12 callee bodies, and over 12 parameter lists and arguments of false values; '
             'every callee body of up to 2 assignments with 12 call shapes; two call levels: every argument list over the variables at both levels with every leaf '
             'assignment; repeated, optional and alternative references; every program run twice on one CLI followed by a probe',
    'thorough': '3 assignments in every layout and as parameters, 4 in every layout, 5 in one action; call shapes with every callee body of up to 1 and 20 of 2 assignments; two levels with leaf bodies of 2',
}
ASSUMPTIONS = ['a variable passed by reference has been assigned before (what passing an unassigned one does to it is not documented)',
               'collections are shared by the variables that hold them: "changes" are assignments']
TASKS = 8


class C(Cli):
    def st(self, *a):
        self.events.append(a)


# ------------------------------------------------------------ programs
# statement: ('set', var, rhs) rhs: ('c', text, value) | ('v', var) | ('inc', var) | ('tok',)      or ('ev', label, vars)
# grammar:   (name, params, items)   params: ((name, has_default, text, value), ...)
# items:     ('act', stmts) | ('tok', word) | ('ref', name, args) | ('opt', items) | ('alt', k, itemlists) | ('rep', n, items)
# args:      (None | name, ('v', var) | ('c', text, value))

def rt(x):
    return {'c': lambda: x[1], 'v': lambda: '$' + x[1], 'inc': lambda: 'inc($%s)' % x[1], 'tok': lambda: '$1'}[x[0]]()


def stx(s):
    if s[0] == 'set':
        return '$%s = %s;' % (s[1], rt(s[2]))
    return 'call st("%s"%s);' % (s[1], ''.join(', $' + v for v in s[2]))


def itx(it):
    k = it[0]
    if k == 'act':
        return '<< %s >>' % ' '.join(map(stx, it[1]))
    if k == 'tok':
        return it[1]
    if k == 'ref':
        return '%s[%s]' % (it[1], ', '.join(('$%s=' % n if n else '') + rt(v) for n, v in it[2]))
    if k == 'opt':
        return '{ %s }' % body(it[1])
    if k == 'rep':
        return '( %s ) * %d' % (body(it[2]), it[1])
    return '( %s )' % ' | '.join('( %s )' % body(b) for b in it[2])


def body(items):
    return ' '.join(map(itx, items))


def gtx(g):
    ps = ', '.join('$' + n + ('=' + t if d else '') for n, d, t, v in g[1])
    return '%s[%s]: %s ;' % (g[0], ps, body(g[2]))


class Cell:
    def __init__(self, v=None):
        self.v = v


def run_g(G, g, frame, line, out):
    run_items(G, g[2], frame, line, out, [None])


def run_items(G, items, frame, line, out, last):
    """last: value of $1 in this block (only used where the block has one element)"""
    for it in items:
        k = it[0]
        if k == 'act':
            for s in it[1]:
                if s[0] == 'ev':
                    out.append((s[1],) + tuple(frame[v].v if v in frame else None for v in s[2]))
                else:
                    r = s[2]
                    if r[0] == 'c':
                        v = r[2]
                    elif r[0] == 'tok':
                        v = last[0]
                    else:
                        v = frame[r[1]].v if r[1] in frame else None
                        if r[0] == 'inc' and isinstance(v, (int, float)):
                            v = v + 1
                    frame.setdefault(s[1], Cell()).v = v
        elif k == 'tok':
            line.append(it[1])
            if last[0] is None:
                last[0] = it[1]
        elif k == 'opt':
            run_items(G, it[1], frame, line, out, [None])
        elif k == 'rep':
            for _ in range(it[1]):
                run_items(G, it[2], frame, line, out, [None])
        elif k == 'alt':
            run_items(G, it[2][it[1]], frame, line, out, [None])
        else:
            g = G[it[1]]
            f = {}
            names = [p[0] for p in g[1]]
            for pos, (n, v) in enumerate(it[2]):
                n = n or names[pos]
                f[n] = (frame[v[1]] if v[1] in frame else Cell()) if v[0] == 'v' else Cell(v[2])
            for n, d, t, v in g[1]:
                if n not in f:
                    f[n] = Cell(v if d else None)
            run_g(G, g, f, line, out)


# ------------------------------------------------------------ the space
def stmts(lhs, rhs):
    return [('set', l, x) for l in lhs for x in rhs]


def fresh(prog, base=100):
    """give every constant of a program its own value"""
    out = []
    for i, s in enumerate(prog):
        if s[0] == 'set' and s[2][0] == 'c' and s[2][1] == '?':
            n = base + i * 10
            out.append(('set', s[1], ('c', str(n), n) if i % 2 else ('c', '"k%d"' % n, 'k%d' % n)))
        else:
            out.append(s)
    return out


Q = ('c', '?', None)
V3 = ('a', 'b', 'c')
RHS3 = (Q, ('v', 'a'), ('v', 'b'), ('v', 'c'), ('inc', 'a'), ('inc', 'b'), ('tok',))


def straight(n, rhs=RHS3):
    for p in itertools.product(stmts(V3, rhs), repeat=n):
        if p[0][1] == 'a' or p[0][2][0] != 'c' and p[0][2][0] != 'tok':
            yield fresh(p)


def ev(label, vs=V3):
    return ('ev', label, vs)


def layouts(prog, which):
    for w in which:
        if w == 'one':
            acts = []
            for i, s in enumerate(prog):
                acts += [s, ev('e%d' % i)]
            yield w, [('tok', 'x'), ('act', acts)]
        elif w == 'spread':
            items = []
            for i, s in enumerate(prog):
                items += [('tok', 'x'), ('act', [s, ev('e%d' % i)])]
            yield w, items
        elif w == 'nest':
            items = []
            for i, s in reversed(list(enumerate(prog))):
                blk = [('tok', 'x'), ('act', [s, ev('e%d' % i)])]
                if not items:
                    items = blk + [('tok', 'y'), ('act', [ev('in')])]
                elif i % 2:
                    items = blk + [('opt', items), ('act', [ev('o%d' % i)])]
                else:
                    items = blk + [('alt', 0, (items, [('tok', 'z')])), ('act', [ev('o%d' % i)])]
            yield w, items
        elif w == 'lead':
            items = [('tok', 'x'), ('act', [ev('t')])]
            for i, s in reversed(list(enumerate(prog))):
                items = [('act', [s, ev('e%d' % i)]), ('rep', 1, items)] if i else [('act', [s, ev('e%d' % i)])] + items
            yield w, items
        elif w == 'rep':
            yield w, [('rep', 2, [('tok', 'x'), ('act', [y for i, s in enumerate(prog) for y in (s, ev('e%d' % i))])]), ('act', [ev('end')])]


INIT = [('set', 'x', ('c', '"X"', 'X')), ('set', 'y', ('c', '5', 5))]
VALS = (('v', 'x'), ('v', 'y'), ('v', 'u'), ('c', '1', 1), ('c', '"s\\\\n"', 's\\n'), ('c', 'None', None), ('c', 'True', True))
PLISTS = (
    (),
    (('p', False, '', None),),
    (('p', False, '', None), ('q', False, '', None)),
    (('p', False, '', None), ('q', True, '"D\\\\t"', 'D\\t')),
    (('p', True, '"C"', 'C'), ('q', True, '"D"', 'D')),
    (('p', True, '1', 1), ('q', True, '-2.5', -2.5)),
)
CRHS = (Q, ('v', 'p'), ('v', 'q'), ('v', 'l'))
CBODY = [()] + [(s,) for s in stmts(('p', 'q', 'l'), CRHS)]
CBODY2 = list(itertools.product(stmts(('p', 'q', 'l'), CRHS), repeat=2))


def shapes(plist):
    n = len(plist)
    for k in range(0, n + 1):
        for vs in itertools.product(VALS, repeat=k):
            yield tuple((None, v) for v in vs)
    for v in VALS:
        for p in plist:
            yield ((p[0], v),)
    if n == 2:
        for v, w in itertools.product(VALS, repeat=2):
            yield (('p', v), ('q', w))
            yield (('q', w), ('p', v))
            yield ((None, v), ('q', w))


# values that are false
EMPTY = (('c', '""', ''), ('c', '0', 0), ('c', 'False', False), ('c', 'None', None), ('v', 'x'))
EDEF = EMPTY[:2] + (('c', '0.0', 0.0),)
EPL = [(('p', False, '', None), ('q', True) + d[1:]) for d in EDEF] + [(('p', True) + c[1:], ('q', True) + d[1:]) for c in EDEF for d in EDEF]
EINIT = [('set', 'x', EMPTY[0]), ('set', 'y', EMPTY[1])]
OBS = ('p', 'q', 'l', 'x', 'y')


def callee(name, plist, b, kw='k'):
    return (name, plist, [('act', [ev(name + '-in', OBS)]), ('tok', kw), ('act', list(b) + [ev(name + '-out', OBS)])])


def calls(plist, shape, b, INIT=INIT):
    f = callee('F', plist, fresh(b))
    second = tuple((None, v) for v in [('v', 'y'), ('v', 'x')][:len(plist)])
    m = ('M', (), [('act', INIT + [ev('start', OBS)]), ('ref', 'F', shape), ('act', [ev('mid', OBS)]), ('ref', 'F', second), ('act', [ev('end', OBS)]),
                   ('ref', 'F', ()), ('act', [ev('fin', OBS)])])
    return [f, m]


def two(s1, s2, b, pre):
    """M -> F[s1] -> H[s2]"""
    h = ('H', (('r', False, '', None), ('s', False, '', None)), [('act', [ev('h-in', ('r', 's', 'p', 'l', 'x'))]), ('tok', 'k'),
                                                                  ('act', fresh(b, 300) + [ev('h-out', ('r', 's', 'p', 'l', 'x'))])])
    f = ('F', (('p', False, '', None), ('q', True, '7', 7)), [('act', [('set', 'l', ('c', '"L"', 'L'))] + fresh(pre)), ('ref', 'H', s2), ('act', [ev('f-mid', OBS)]), ('tok', 'f'),
                                                             ('act', [('set', 'p', ('inc', 'q')), ev('f-out', OBS)])])
    m = ('M', (), [('act', INIT), ('ref', 'F', s1), ('act', [ev('end', OBS)])])
    return [h, f, m]


def spaces(tier):
    q = tier == 'quick'
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        for p in straight(n, RHS3 if n < (3 if q else 4) else RHS3[:5]):
            for w, items in layouts(p, ('one', 'spread', 'nest', 'lead', 'rep')):
                if w != 'one' and w != 'nest' and any(s[2] == ('tok',) for s in p):
                    continue                      # $1 after further tokens or in a leading action: C04
                if q and n == 3 and w not in ('one', 'nest'):
                    continue
                for kind in ('local', 'param', 'root') if n < 3 else ('local', 'param') if w == 'nest' or not q else ('local',):
                    yield 'A', kind, items
    for p in map(fresh, itertools.product(stmts(('a', 'b'), RHS3[:3]), repeat=4)) if q else straight(5, RHS3[:4]):
        yield 'A', 'local', next(layouts(p, ('one',)))[1]
    bodies = [()] + [(s,) for s in stmts(('p', 'q'), CRHS)] + [CBODY2[i] for i in (3, 18, 77, 130)]
    if not q:
        bodies = CBODY + CBODY2[::7]
    for pl in PLISTS:
        for sh in shapes(pl):
            for b in bodies[:12] if q else bodies:
                yield 'B', None, calls(pl, sh, b)
    for pl, sh in [(PLISTS[2], tuple((None, v) for v in vs)) for vs in ((VALS[0], VALS[0]), (VALS[0], VALS[1]), (VALS[1], VALS[0]), (VALS[0], VALS[3]), (VALS[3], VALS[0]), (VALS[0],))] + \
            [(PLISTS[3], ()), (PLISTS[3], ((None, VALS[0]),)), (PLISTS[3], (('q', VALS[0]),)), (PLISTS[4], (('q', VALS[0]), ('p', VALS[0]))), (PLISTS[5], ()), (PLISTS[5], ((None, VALS[1]),))]:
        for b in CBODY2:
            yield 'B', None, calls(pl, sh, b)
    for pl in EPL:
        sh = [tuple((None, v) for v in vs) for k in (0, 1, 2) for vs in itertools.product(EMPTY, repeat=k)]
        sh += [((p, v),) for p in ('p', 'q') for v in EMPTY] + [(('q', v), ('p', w)) for v, w in itertools.product(EMPTY, repeat=2)]
        for s in sh:
            for b in ((), (('set', 'p', ('v', 'q')),)):
                yield 'B', None, calls(pl, s, b, EINIT)
    a1 = [tuple((None, v) for v in vs) for k in (0, 1, 2) for vs in itertools.product((VALS[0], VALS[1], VALS[3]), repeat=k)]
    a2 = [tuple((None, v) for v in vs) for k in (0, 1, 2) for vs in itertools.product((('v', 'p'), ('v', 'q'), ('v', 'l'), VALS[4]), repeat=k)]
    leaf = [(s,) for s in stmts(('r', 's'), (Q, ('v', 'r'), ('v', 's')))]
    if not q:
        leaf += list(itertools.product(stmts(('r', 's'), (Q, ('v', 'r'), ('v', 's'))), repeat=2))
    for s1, s2, b in itertools.product(a1, a2, leaf):
        yield 'B', None, two(s1, s2, b, ())
        if q and len(s1) == 2 or not q:
            yield 'B', None, two(s1, s2, b, (('set', 'q', ('v', 'p')),))
    # references inside repetitions, optional blocks and alternatives
    for b in [()] + [(s,) for s in stmts(('p', 'l'), (Q, ('v', 'p'), ('v', 'l'), ('inc', 'p')))]:
        f = callee('F', PLISTS[1], fresh(b))
        h = callee('H', PLISTS[1], fresh((('set', 'l', ('v', 'p')), ('set', 'p', Q)), 500), 'h')
        for v in (VALS[0], VALS[1], VALS[3]):
            R = ('ref', 'F', ((None, v),))
            S = ('ref', 'H', ((None, v),))
            for items in ([('rep', 2, [R])], [('rep', 3, [R, ('act', [ev('r', OBS)])])], [('opt', [R])], [('opt', [R, S]), R], [('alt', 0, ([R], [S])), S],
                          [('alt', 1, ([R], [S])), ('act', [ev('m', OBS)]), R], [('rep', 2, [R, S])], [('rep', 2, [S, ('act', [ev('r', OBS)]), R])], [R, S, R, S]):
                yield 'B', None, [f, h, ('M', (), [('act', INIT)] + items + [('act', [ev('end', OBS)])])]


def jobs(tier):
    n = sum(1 for _ in spaces(tier))
    for i in range(0, n, 300):
        yield tier, i, i + 300


PROBE = 'probe: "probe" << call st("probe", $a, $b, $c, $p, $q, $l, $x, $y); >>;'


def run(job, r):
    tier, lo, hi = job
    todo = list(itertools.islice(spaces(tier), lo, hi))
    text = [PROBE]
    plan = []
    ren = lambda items, i: [('ref', it[1] + str(i), it[2]) if it[0] == 'ref' else ('opt', ren(it[1], i)) if it[0] == 'opt' else
                            ('alt', it[1], tuple(ren(b, i) for b in it[2])) if it[0] == 'alt' else ('rep', it[1], ren(it[2], i)) if it[0] == 'rep' else it for it in items]
    for i, (part, kind, x) in enumerate(todo):
        arglist = None
        if part == 'A':
            if kind == 'local':
                gs = [('M', (), x)]
            elif kind == 'root':
                gs = [('M', tuple((v, False, '', None) for v in V3), x)]
                arglist = [11, 'rb', None]
            else:
                gs = [('F', tuple((v, False, '', None) for v in V3), x),
                      ('M', (), [('act', [('set', 'x', ('c', '"X"', 'X')), ('set', 'y', ('c', '5', 5))]), ('ref', 'F', ((None, ('v', 'x')), (None, ('v', 'y')))),
                                 ('act', [ev('end', ('x', 'y', 'a'))])])]
        else:
            gs = x
        gs = [(g[0] + str(i), g[1], ren(g[2], i)) for g in gs]
        text += [gtx(g) for g in gs]
        plan.append((gs, arglist))
    cli = build('\n'.join(text), cls=C)
    for i, (gs, arglist) in enumerate(plan):
        G = {g[0]: g for g in gs}
        M = gs[-1]
        out, line = [], []
        frame = {p[0]: Cell(v) for p, v in zip(M[1], arglist or ())}
        run_g(G, M, frame, line, out)
        src = '\n'.join(gtx(g) for g in gs)
        for rep in (1, 2):
            if arglist is None:
                res, st, evs = cli.line(' '.join(line), M[0])
                ok = st == 0 and same(evs, out)
                fin = None
            else:
                al = list(arglist)
                cli.events = []
                cli.enter_grammar(M[0])
                try:
                    res = go(cli.match(list(line), dry_run=False, last_token_complete=True, arglist=al)).result
                finally:
                    cli.exit_grammar()
                evs = cli.events
                fin = [frame[v].v for v in V3]
                ok = res == T.MATCH_SUCCESS and same(evs, out) and al == fin
                fin = [fin, al]
            r.transitions += len(evs)
            r.traces += 1
            if not ok:
                r.bad('%s (%d)' % (src, rep), dict(grammar=src, line=' '.join(line), run=rep), [out, fin and fin[0]], [res, evs, fin and fin[1]], job, size=len(src))
        pr = cli.line('probe', 'probe')[2]
        r.traces += 1
        if pr != [('probe',) + (None,) * 8]:
            r.bad('probe after ' + src, dict(grammar=src, line=' '.join(line)), 'no variable left', pr, job, size=len(src))
        r.states += 1
        r.outcomes['%s%s, %d events' % (todo[i][0], ' ' + todo[i][1] if todo[i][1] else '', len(out))] += 1
    r.sample(text[-1])


def same(a, b):
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    return type(a) is type(b) and a == b
