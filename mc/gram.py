"""Bounded exhaustive enumeration of grammar trees, and batches of them on the real CLI."""
import itertools
from refgrammar import *  # noqa

WIDE = 'wide'
WIDER = 'grammars of one large dimension (up to 12 terms, sets of 11, 12 repetitions, 7 levels deep) with their commands, every ' \
        'beginning of those and every line one edit away; '
REPS = ((2, 2), (0, 2), (1, 2), (2, 3), (0, 3), (1, 3))


def comps(n):
    for k in range(2, n + 1):
        for c in itertools.product(range(1, n), repeat=k):
            if sum(c) == n:
                yield c


def trees(nl, depth, reps, memo=None):
    """All tree shapes with nl leaves and operator depth at most depth (no opt directly in opt,
    no rep directly in rep, no seq in seq / alt in alt: those are the same grammar)."""
    memo = {} if memo is None else memo
    key = (nl, depth)
    if key in memo:
        return memo[key]
    out = []
    if nl == 1:
        out.append(('leaf',))
    if depth > 0:
        for c in trees(nl, depth - 1, reps, memo):
            if c[0] != 'opt':
                out.append(('opt', c))
            if c[0] != 'rep':
                for lo, hi in reps:
                    out.append(('rep', c, lo, hi))
        for parts in comps(nl):
            for ch in itertools.product(*[trees(p, depth - 1, reps, memo) for p in parts]):
                for k in ('seq', 'alt', 'set'):
                    if k != 'set' and any(c[0] == k for c in ch):
                        continue
                    out.append((k, ch))
    memo[key] = out
    return out


def label(t, it, words):
    k = t[0]
    if k == 'leaf':
        i = next(it)
        return ('leaf', i, words[i])
    if k in ('seq', 'alt', 'set'):
        return (k, tuple(label(c, it, words) for c in t[1]))
    if k == 'opt':
        return (k, label(t[1], it, words))
    return (k, label(t[1], it, words), t[2], t[3])


def canonical(words):
    """words use letters in order of first appearance (a, then b, then c ...)"""
    seen = []
    for w in words:
        if w not in seen:
            seen.append(w)
    return seen == sorted(seen) and (not seen or seen == [chr(97 + i) for i in range(len(seen))])


def grammars(nl, depth, reps=REPS, letters='ab'):
    """grammars with nl leaves labelled by keywords, up to renaming of the keywords"""
    for t in trees(nl, depth, reps):
        for w in itertools.product(letters, repeat=nl):
            if canonical(w):
                yield label(t, itertools.count(), w)


def size(n):
    return 1 + (sum(size(c) for c in n[1]) if n[0] in ('seq', 'alt', 'set') else 0 if n[0] == 'leaf' else size(n[1]))


def wordset(n):
    k = n[0]
    if k == 'leaf':
        return {n[2]}
    if k in ('seq', 'alt', 'set'):
        return set().union(*[wordset(c) for c in n[1]])
    return wordset(n[2] if k == 'ref' else n[1])


def referenced(n, name, defs, top=True):
    """the same grammar with every composite block moved to a grammar of its own"""
    k = n[0]
    if k == 'leaf':
        return n
    if k in ('seq', 'alt', 'set'):
        m = (k, tuple(referenced(c, name, defs, False) for c in n[1]))
    elif k == 'opt':
        m = (k, referenced(n[1], name, defs, False))
    else:
        m = (k, referenced(n[1], name, defs, False), n[2], n[3])
    if top:
        return m
    nm = '%s-r%d' % (name, len(defs))
    defs.append((nm, m))
    return ('ref', nm, m)


def kw(n):
    return '"%s" << call ev("%d"); >>' % (n[2], n[1])


def bare(n):
    return n[2]


def show(g):
    return render(g, bare, True)


def wide():
    """grammars with one large dimension: many terms, many repetitions, deep nesting"""
    def L(i):
        return ('leaf', chr(97 + i))

    def Ls(a, b):
        return tuple(L(i) for i in range(a, b))
    for n in (5, 6, 8, 12):
        yield ('seq', Ls(0, n))
        yield ('alt', Ls(0, n))
        yield ('seq', tuple(('opt', c) if i % 2 else c for i, c in enumerate(Ls(0, n))))
        yield ('seq', tuple(('opt', c) for c in Ls(0, n)))
        yield ('seq', tuple(('alt', (L(0), L(1 + i % 2))) for i in range(n)))
        yield ('alt', tuple(('seq', (L(0), L(1 + i))) for i in range(n - 1)))
        yield ('opt', ('seq', Ls(0, n)))
        yield ('seq', (L(7),) * n)
        for lo, hi in ((n, n), (0, n), (1, n), (n - 2, n)):
            yield ('rep', L(0), lo, hi)
            yield ('seq', (('rep', L(0), lo, hi), L(1)))
    for lo, hi in ((0, 9), (2, 10), (3, 10), (9, 10), (9, 11), (1, 20), (10, 20)):
        yield ('rep', L(0), lo, hi)
        yield ('rep', ('alt', Ls(0, 2)), lo, hi)
    for n in (4, 6, 11):
        yield ('set', Ls(0, n))
        yield ('seq', (('set', Ls(0, n)), L(n)))
        yield ('set', tuple(('opt', c) for c in Ls(0, n)))
        yield ('set', tuple(('opt', c) if i % 2 else c for i, c in enumerate(Ls(0, n))))
        yield ('set', tuple(('seq', (c, L(n))) for c in Ls(0, n)))
        yield ('seq', (('opt', ('set', Ls(0, n))), L(n)))
        yield ('set', (('rep', L(0), 1, n), L(1), ('opt', L(2))))
        for lo, hi in ((n, n), (0, n), (1, n)):
            yield ('rep', ('seq', Ls(0, 2)), lo, hi)
            yield ('rep', ('alt', Ls(0, 2)), lo, hi)
            yield ('rep', ('seq', (L(0), ('opt', L(1)))), lo, hi)
            yield ('seq', (('rep', ('seq', (L(0), L(1))), lo, hi), L(0), L(2)))
    yield ('rep', ('set', Ls(0, 3)), 2, 3)
    yield ('set', (('set', Ls(0, 2)), ('set', Ls(2, 4)), L(4)))
    yield ('set', (('alt', Ls(0, 2)), ('alt', Ls(2, 4)), ('opt', L(4))))
    for n in (4, 5, 6, 7):
        g = a = s = o = L(0)
        for i in range(1, n):
            g = ('opt', ('seq', (L(i), g)))                 # each word opens the way to the next
            a = ('alt', (L(i), ('seq', (L(i + 1), a))))
            s = ('seq', (('alt', (s, L(i))), ('opt', L(i))))
            o = ('set', (o, L(i))) if i < 5 else o
        yield g
        yield a
        yield s
        yield o
        yield ('seq', (L(0), g))


def rewide(t, ctr=None):
    """number the leaves"""
    ctr = itertools.count() if ctr is None else ctr
    k = t[0]
    if k == 'leaf':
        return ('leaf', next(ctr), t[1])
    if k in ('seq', 'alt', 'set'):
        return (k, tuple(rewide(c, ctr) for c in t[1]))
    return (k, rewide(t[1], ctr)) + t[2:]


def wides():
    for t in wide():
        yield rewide(t)


def sentence(n, how):
    """a command of the grammar: how = (optional parts in, last alternative, multiplier at its upper bound, set order)"""
    full, last, many, turn = how
    k = n[0]
    if k == 'leaf':
        return (n[2],)
    if k == 'alt':
        return sentence(n[1][-1 if last else 0], how)
    if k == 'opt':
        return sentence(n[1], how) if full else ()
    if k == 'rep':
        return sentence(n[1], how) * (n[3] if many else n[2])
    ch = list(n[1])
    if k == 'set':
        ch = ch[::-1] if turn == 'back' else ch[turn:] + ch[:turn]
    return sum((sentence(c, how) for c in ch), ())


def wide_lines(g):
    """commands of a wide grammar, all their beginnings, and all lines one edit away from them"""
    base = {sentence(g, h) for h in itertools.product((True, False), (True, False), (True, False), (0, 1, 'back'))}
    ws = sorted(wordset(g))
    out = set()
    for s in base:
        out.update(s[:k] for k in range(1, len(s) + 1))
        for i in range(len(s)):
            out.add(s[:i] + s[i + 1:])
            out.add(s[:i + 1] + s[i:])
            out.add(s[:i] + s[i + 1:i + 2] + s[i:i + 1] + s[i + 2:])
            out.add(s[:i] + (ws[(ws.index(s[i]) + 1) % len(ws)],) + s[i + 1:])
        out.add(s + (ws[-1],))
        out.add(s + (ws[0],))
    out.discard(())
    return sorted(out)
