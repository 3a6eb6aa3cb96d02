"""C06: abbreviated and exact words, on every small grammar over keywords that are prefixes of one another."""
import itertools
from core import *  # noqa
from gram import *  # noqa

BOUNDS = {
    'quick': 'leaves labelled by keywords in/int and a free string in every way: (2 leaves, depth 2, {1:2,0:2}), (3, 2, none), four-leaf '
             'alternatives of sequences and optional tails; words i, in, int, z; lines up to length 3 (2 for two leaves: 3); chains of 4 to 6 keywords each the '
             'beginning of the next, with every beginning, lines of two words; both set orders',
    'thorough': 'keywords in/int/inx and a free string; (2,3,{0:2,2}), (3,2,{1:2}), four leaves depth 2; words i, in, int, inx, z; lines up to 3',
}
ASSUMPTIONS = ['readings that differ only in how an unmatched optional was skipped count as one command']
TASKS = 50
HEAD = 'token S StringToken();\n'


def label_kinds(t, kinds):
    for w in itertools.product(kinds, repeat=_nl(t)):
        yield label(t, itertools.count(), w)


def _nl(t):
    return 1 if t[0] == 'leaf' else sum(_nl(c) for c in t[1]) if t[0] in ('seq', 'alt', 'set') else _nl(t[1])


def space(tier):
    L = ('leaf',)
    four = [('alt', (('seq', (L, L)), ('seq', (L, L)))), ('alt', (('seq', (L, L)), L, L)), ('alt', (('seq', (L, ('opt', L))), ('seq', (L, L)))),
            ('seq', (('alt', (L, L)), ('alt', (L, L)))), ('seq', (('opt', L), ('opt', L), L, ('opt', L))), ('set', (L, L, ('opt', L), ('opt', L))),
            ('alt', (L, ('set', (L, ('opt', L))), L)), ('seq', (L, ('rep', L, 0, 2), ('alt', (L, L))))]
    if tier == 'quick':
        ks, ws = ('in', 'int', 'S'), ('i', 'in', 'int', 'z')
        sp = [(trees(2, 2, ((1, 2), (0, 2))), 3), (trees(3, 2, ()), 3), (four, 3)]
    else:
        ks, ws = ('in', 'int', 'inx', 'S'), ('i', 'in', 'int', 'inx', 'z')
        sp = [(trees(2, 3, ((0, 2), (2, 2))), 3), (trees(3, 2, ((1, 2),)), 3), (four, 3), (trees(4, 2, ()), 2)]
    for n in (4, 5, 6):
        chain = tuple(('leaf', 'in' + 'tegers'[:i]) for i in range(n))
        words = tuple(sorted({w[1][:k] for w in chain for k in range(1, 9)})) + ('z',)
        for t in (('alt', chain), ('alt', tuple(('seq', (c, chain[0])) for c in chain)), ('alt', tuple(('seq', (chain[0], c)) for c in chain)),
                  ('seq', (('alt', chain), ('alt', chain))), ('seq', (('rep', ('alt', chain), 0, 2), chain[-1])),
                  ('alt', chain[:-1] + (('leaf', 'S'),)), ('seq', (('opt', ('leaf', 'S')), ('alt', chain))),
                  ('seq', tuple(('opt', c) for c in chain)), ('set', tuple(('opt', c) for c in chain))):
            yield rewide(t), 3 if n == 4 and tier != 'quick' else 2, words
    for t, n in ((('set', tuple(('leaf', 'in' + 'tegers'[:i]) for i in range(4))), 4),
                 (('seq', (('leaf', 'in'), ('leaf', 'int'), ('rep', ('alt', (('leaf', 'in'), ('leaf', 'int'))), 0, 4))), 5 if tier == 'quick' else 6)):
        yield rewide(t), n, ('i', 'in', 'int', 'integ')
    for ts, n in sp:
        for t in ts:
            for g in label_kinds(t, ks):
                yield g, n, ws


def jobs(tier):
    n = 0
    for ch in chunks(space(tier), 150):
        n += 1
        for desc in (False, True):
            yield ('ref' if n % 3 == 0 else 'inline', desc, tuple(ch))


def tok(n):
    return ('S' if n[2] == 'S' else '"%s"' % n[2]) + ' << call ev("%d"); >>' % n[1]


def fit(kind, w):
    """2 exact keyword, 1 abbreviated keyword, 0 free string, None does not fit"""
    if kind == 'S':
        return 0
    return 2 if kind == w else 1 if kind.startswith(w) else None


def run(job, r):
    mode, desc, gs = job
    set_order(desc)
    text = [HEAD]
    for i, (g, n, ws) in enumerate(gs):
        defs = []
        m = referenced(g, 'g%d' % i, defs) if mode == 'ref' else g
        text += ['%s: %s ;' % (nm, render(b, tok, True)) for nm, b in defs]
        text.append('g%d: %s ;' % (i, render(m, tok, True)))
    cli = build('\n'.join(text))
    for i, (g, n, ws) in enumerate(gs):
        for k in range(1, n + 1):
            for toks in itertools.product(ws, repeat=k):
                one(r, cli, g, 'g%d' % i, toks, (mode, desc, ((g, n, ws),)))
        r.states += 1
    r.sample(text[-1])


def one(r, cli, g, name, toks, job):
    D, nxt = Ref(toks, lambda k, w: fit(k, w) is not None).run(g)
    best = {}
    for t in set(D):
        ls = leaves(t)
        tr = tuple(str(l) for l, _ in ls)
        kinds = {n[1]: n[2] for n in leafnodes(t)}
        best[tr] = tuple(fit(kinds[l], toks[x]) for l, x in ls)
    res, st, evs = cli.line(' '.join(toks), name)
    tr = tuple(e[0] for e in evs)
    r.transitions += 1
    r.traces += 1
    ok = (res == T.MATCH_SUCCESS) == (st == 0) and (st == 0 or not tr) and (st != 0 or tr in best)
    exp = 'none'
    if ok and best:
        dom = [a for a in best if all(b == a or _ge(best[a], best[b]) and best[a] != best[b] for b in best)]
        if len(set(D)) == 1 or (dom and len(best) == len(set(D))):
            exp = 'runs ' + ' '.join(dom[0] if dom else next(iter(best)))
            ok = st == 0 and tr == (dom[0] if dom else next(iter(best)))
        elif len(best) > 1 and len(set(best.values())) == 1:
            exp = 'runs nothing'
            ok = st != 0
        elif st == 0:
            exp = 'an undominated reading, or nothing'
            ok = not any(_ge(v, best[tr]) and v != best[tr] for v in best.values())
        else:
            exp = 'an undominated reading, or nothing'
    elif not best:
        exp = 'partial' if nxt else 'failure'
        ok = ok and res == (T.MATCH_PARTIAL if nxt else T.MATCH_FAILURE)
    r.outcomes['%s -> %s' % (exp.split(' ')[0], res)] += 1
    if not ok:
        r.bad('%s :: %s' % (show(g), ' '.join(toks)), dict(grammar=show(g), mode=job[0], order=job[1], line=' '.join(toks)),
              dict(expected=exp, readings={' '.join(k): v for k, v in best.items()}), dict(result=res, status=st, events=tr), job,
              size=size(g) * 10 + len(toks))


def leafnodes(t):
    n, x = t
    if n[0] == 'leaf':
        yield n
    else:
        for _, c in x:
            yield from leafnodes(c)


def _ge(a, b):
    return all(x >= y for x, y in zip(a, b))
