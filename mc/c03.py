"""C03: acceptance = derivability, on every small grammar and every short input."""
import itertools
from core import *  # noqa
from gram import *  # noqa

BOUNDS = {
    'quick': 'every grammar tree with (leaves, depth, multipliers): (1,4,all) (2,2,all) (2,3,{2,0:2,1:3}) (3,3,{1:2}) (4,2,none), '
             'every labelling by keywords up to renaming; every word list up to length 5,4,3,3,4; ' + WIDER +
             'both set orders; blocks written in place and as named grammars',
    'thorough': '(1,5,all) (2,3,all) (2,4,{0:2,2}) (3,3,{0:2,2}, three keywords) (3,3,{1:3}) (4,2,{1:2}); word lists up to 6,5,4,4,4,5; ' + WIDER,
}
ASSUMPTIONS = ['keywords are not prefixes of each other (that is C06)', 'blank lines are no commands',
               'trees of more than one large dimension are outside the bound']
TASKS = 50


def space(tier):
    if tier == 'quick':
        yield from ((g, 5) for g in grammars(1, 4))
        yield from ((g, 4) for g in grammars(2, 2))
        yield from ((g, 3) for g in grammars(2, 3, reps=((2, 2), (0, 2), (1, 3))))
        yield from ((g, 3) for g in grammars(3, 3, reps=((1, 2),)))
        yield from ((g, 4) for g in grammars(4, 2, reps=()))
    else:
        yield from ((g, 6) for g in grammars(1, 5))
        yield from ((g, 5) for g in grammars(2, 3))
        yield from ((g, 4) for g in grammars(2, 4, reps=((0, 2), (2, 2))))
        yield from ((g, 4) for g in grammars(3, 3, reps=((0, 2), (2, 2)), letters='abc'))
        yield from ((g, 4) for g in grammars(3, 3, reps=((1, 3),)))
        yield from ((g, 5) for g in grammars(4, 2, reps=((1, 2),)))


def jobs(tier):
    n = 0
    for ch in itertools.chain(chunks(((g, WIDE) for g in wides()), 8), chunks(space(tier), 120)):
        n += 1
        for mode in ('inline', 'ref'):
            for desc in ((False, True) if mode == 'inline' else (bool(n % 2),)):
                yield (mode, desc, tuple(ch))


def inputs(g, n):
    if n == WIDE:
        yield from wide_lines(g)
        return
    al = sorted(wordset(g))
    al = al + ['z'] if len(al) == 1 else al
    for k in range(1, n + 1):
        if 'z' in al and k > 2:
            yield (al[0],) * k
        else:
            yield from itertools.product(al, repeat=k)


def run(job, r):
    mode, desc, gs = job
    set_order(desc)
    text, roots = [], []
    for i, (g, n) in enumerate(gs):
        if mode == 'ref':
            defs = []
            m = referenced(g, 'g%d' % i, defs)
            text += ['%s: %s ;' % (nm, render(b, kw, True)) for nm, b in defs]
        else:
            m = g
        text.append('g%d: %s ;' % (i, render(m, kw, True)))
    cli = build('\n'.join(text))
    for i, (g, n) in enumerate(gs):
        stuck = {}
        for toks in inputs(g, n):
            verdict(r, cli, g, 'g%d' % i, toks, stuck, job=(mode, desc, ((g, n),)))
        r.states += 1
    r.sample('%s [%s]' % (show(gs[0][0]), mode))


def first_wrong(g, toks, stuck):
    """the first word at which no command can go on"""
    for k in range(1, len(toks) + 1):
        t = toks[:k]
        if t not in stuck:
            D, nxt = Ref(t, lambda k, t: k == t).run(g)
            stuck[t] = not D and not nxt
        if stuck[t]:
            return k - 1


def verdict(r, cli, g, name, toks, stuck, job):
    D, nxt = Ref(toks, lambda k, t: k == t).run(g)
    D = set(D)
    Ts = {tuple(str(l) for l, _ in leaves(t)) for t in D}
    cli.err.seek(0)
    cli.err.truncate()
    res, st, evs = cli.line(' '.join(toks), name)
    tr = tuple(e[0] for e in evs)
    reported = bool(cli.err.getvalue())
    r.transitions += 1
    r.traces += 1
    if not D:
        exp = 'partial' if nxt else 'failure'
        ok = res == exp and not tr and st != 0
    elif len(D) == 1:
        exp = 'success'
        ok = res == 'success' and tr in Ts and st == 0
    else:
        exp = 'success or ambiguous'
        ok = (res == 'success' and tr in Ts and st == 0) or (res == T.MATCH_AMBIGUOUS and not tr and st != 0)
    stuck[toks] = not D and not nxt
    at = None
    if not D and not nxt and ok:
        # and it is told which word that is
        want = first_wrong(g, toks, stuck)
        at = (cli.resp.offending_token_position, cli.resp.offending_token)
        if at == (want, toks[want]):
            at = None
        else:
            exp = 'failure at %r (%d)' % (toks[want], want)
    if res == 'success' and ok and [str(v) for v in cli.resp.matched_values] != list(toks):
        at, exp = cli.resp.matched_values, 'values %s' % (toks,)
    ok = ok and reported == (st != 0) and at is None
    r.outcomes['%s -> %s' % (exp, res)] += 1
    if not ok:
        r.bad('%s :: %s' % (show(g), ' '.join(toks)),
              dict(grammar=render(g, kw, True), mode=job[0], order='desc' if job[1] else 'asc', line=' '.join(toks)),
              dict(result=exp, events=sorted(Ts)), dict(result=res, status=st, events=tr, reported=reported, wrong=at), job)
