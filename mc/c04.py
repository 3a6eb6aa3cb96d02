"""C04: which actions run, how often, in which order and with which $n, for every small grammar."""
import itertools
from core import *  # noqa
from gram import *  # noqa

BOUNDS = {
    'quick': 'an action before and after every block of every grammar tree with (leaves, depth, multipliers): (1,3,all) (2,2,all) '
             '(2,3,{2,0:2,1:3}) (3,3,none) (3,2,{1:2}) (4,2,none); every word list up to length 5,4,3,3,3,4; ' + WIDER + 'set order alternating; '
             'blocks in place and as named grammars',
    'thorough': '(1,4,all) (2,3,all) (2,4,{0:2,2}) (3,3,{0:2,2}, three keywords) (3,3,{1:3}) (4,2,{1:2}); word lists up to 6,4,4,4,4,4; ' + WIDER,
}
ASSUMPTIONS = ['$n is read in trailing actions only (its meaning in a leading action is not documented)']
TASKS = 50


def space(tier):
    if tier == 'quick':
        yield from ((g, 5) for g in grammars(1, 3))
        yield from ((g, 4) for g in grammars(2, 2))
        yield from ((g, 3) for g in grammars(2, 3, reps=((2, 2), (0, 2), (1, 3))))
        yield from ((g, 3) for g in grammars(3, 3, reps=()))
        yield from ((g, 3) for g in grammars(3, 2, reps=((1, 2),)))
        yield from ((g, 4) for g in grammars(4, 2, reps=()))
    else:
        yield from ((g, 6) for g in grammars(1, 4))
        yield from ((g, 4) for g in grammars(2, 3))
        yield from ((g, 4) for g in grammars(2, 4, reps=((0, 2), (2, 2))))
        yield from ((g, 4) for g in grammars(3, 3, reps=((0, 2), (2, 2)), letters='abc'))
        yield from ((g, 4) for g in grammars(3, 3, reps=((1, 3),)))
        yield from ((g, 4) for g in grammars(4, 2, reps=((1, 2),)))


def jobs(tier):
    n = 0
    for ch in itertools.chain(chunks(((g, WIDE) for g in wides()), 6), chunks(space(tier), 100)):
        n += 1
        for mode in ('inline', 'ref'):
            yield (mode, bool(n % 2), tuple(ch))


def number(n, ctr):
    """attach a number to every node: ('kind', ..., id) -> wraps as (n, id) tree"""
    i = next(ctr)
    k = n[0]
    if k == 'leaf':
        return (k, i, n[2])
    if k in ('seq', 'alt', 'set'):
        return (k, tuple(number(c, ctr) for c in n[1]), i)
    if k == 'opt':
        return (k, number(n[1], ctr), i)
    return (k, number(n[1], ctr), n[2], n[3], i)


def nid(n):
    return n[1] if n[0] == 'leaf' else n[-1]


def slots(n):
    """how many $n the block n has"""
    return len(n[1]) if n[0] in ('seq', 'set') else len(n[1][1]) if n[0] == 'opt' and n[1][0] == 'seq' else 1


def act(what, n, m):
    return '<< call ev("%s", "%d"%s); >>' % (what, nid(n), ''.join(', $%d' % (k + 1) for k in range(m)))


MAXS = 4


def text(n, m, mode, defs, name):
    """term for block n standing in a block with m slots"""
    pre, post = act('pre', n, 0), act('post', n, MAXS)
    k = n[0]

    def sub(c, m=1):
        s = text(c, m, mode, defs, name)
        if mode == 'ref' and c[0] != 'leaf':
            nm = '%s-r%d' % (name, len(defs))
            defs.append('%s: %s ;' % (nm, s))
            return '%s[] << call ev("ref", "%d"%s); >>' % (nm, nid(c), ''.join(', $%d' % (j + 1) for j in range(MAXS)))
        return s
    if k == 'leaf':
        return '( %s "%s" ) %s' % (pre, n[2], post)
    if k in ('seq', 'alt', 'set'):
        op = {'seq': ' ', 'alt': ' | ', 'set': ' , '}[k]
        body = op.join(sub(c) for c in n[1])
        # an action written directly before 'x | y' belongs to x alone (precedence)
        return '( %s %s ) %s' % (pre, '( %s )' % body if k == 'alt' else body, post)
    if k == 'opt':
        return '{ %s %s } %s' % (pre, sub(n[1]), post)
    lo, hi = n[2], n[3]
    return '( %s ) * %s %s' % (sub(n[1]), '%d' % lo if lo == hi else '(%d:%d)' % (lo, hi), post)


def values(tree, toks):
    return [toks[x] for _, x in leaves(tree)]


def val(vs):
    return vs[0] if len(vs) == 1 else vs


def run_tree(tree, frame, slot, toks, out, mode, top=False):
    """events of one derivation; frame is the enclosing block's {n: value}"""
    n, ch = tree
    k = n[0]
    v = val(values(tree, toks))
    if mode == 'ref' and k != 'leaf' and not top:
        inner = {}
        run_tree(tree, inner, 1, toks, out, mode, top=True)
        frame[slot] = v
        out.append(ev('ref', n, frame))
        return
    if k != 'rep':
        out.append(('pre', str(nid(n))))
    if k != 'leaf':
        mine = {}
        for pos, t in ch:
            if k == 'rep':
                mine = {}
            run_tree(t, mine, pos + 1 if k in ('seq', 'set') else 1, toks, out, mode)
    frame[slot] = v
    out.append(ev('post', n, frame))


def ev(what, n, frame):
    return (what, str(nid(n))) + tuple(_v(frame.get(i + 1)) for i in range(MAXS))


def _v(v):
    return list(v) if isinstance(v, (list, tuple)) else v


def inputs(g, n):
    if n == WIDE:
        yield from wide_lines(g)
        return
    al = sorted(wordset(g))
    for k in range(1, n + 1):
        yield from itertools.product(al, repeat=k)


def run(job, r):
    global MAXS
    mode, desc, gs = job
    MAXS = 12 if any(n == WIDE for _, n in gs) else 4
    set_order(desc)
    lines, models = [], []
    for i, (g, n) in enumerate(gs):
        m = number(g, itertools.count())
        defs = []
        body = text(m, 1, mode, defs, 'g%d' % i)
        lines += defs + ['g%d: %s ;' % (i, body)]
        models.append(m)
    cli = build('\n'.join(lines))
    for i, (g, n) in enumerate(gs):
        m = models[i]
        for toks in inputs(g, n):
            D, _ = Ref(toks, lambda k, t: k == t).run(m)
            exp = []
            for t in set(D):
                out = []
                run_tree(t, {}, 1, toks, out, mode, top=True)
                if out not in exp:
                    exp.append(out)
            res, st, evs = cli.line(' '.join(toks), 'g%d' % i)
            evs = [tuple(_v(x) for x in e) for e in evs]
            r.transitions += max(1, len(evs))
            r.traces += 1
            if not exp:
                ok = not evs
            elif len(exp) == 1 and len(set(D)) == 1:
                ok = evs == exp[0]
            else:
                ok = evs in exp or not evs
            r.outcomes['%d derivations, %d events' % (min(len(exp), 2), len(evs))] += 1
            if not ok:
                r.bad('%s [%s] :: %s' % (show(g), mode, ' '.join(toks)),
                      dict(grammar=show(g), mode=mode, line=' '.join(toks)), exp, evs, (mode, desc, ((g, n),)),
                      size=size(g) * 10 + len(toks))
        r.states += 1
    r.sample(lines[-1])
