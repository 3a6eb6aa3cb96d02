"""Reference semantics of the nessaid grammar notation.

A grammar rule is an AST of plain tuples; the reference interpreter enumerates
*every* derivation of a token list, and every way the token list can be the
start of one.  It knows nothing about the implementation: it is the documented
meaning (README.md, doc/) written down as a boring recursive function.

    ('leaf', id, kind)            kind is a key of the leaf alphabet in use
    ('seq', (n1, n2, ...))        two or more terms one after the other
    ('alt', (n1, n2, ...))        exactly one of them
    ('opt', n)                    nothing, or n
    ('rep', n, lo, hi)            n repeated lo..hi times
    ('set', (n1, n2, ...))        the elements in any order, each at most once,
                                  the non-optional ones exactly once
    ('ref', name, n)              reference to a named grammar whose body is n
"""

CUT = -1


def nullable(n):
    k = n[0]
    if k == 'leaf':
        return False
    if k == 'seq' or k == 'set':
        return all(nullable(c) for c in n[1])
    if k == 'alt':
        return any(nullable(c) for c in n[1])
    if k == 'opt':
        return True
    if k == 'rep':
        return n[2] == 0 or nullable(n[1])
    if k in ('ref', 'act'):
        return nullable(n[2])
    raise ValueError(k)


class Ref:
    """Derivations of one token list. matches(kind, tok) says which leaf kinds a
    token can stand for."""

    def __init__(self, toks, matches):
        self.t = toks
        self.n = len(toks)
        self.m = matches

    # each method yields (end, tree); end == CUT means the input ended inside
    # the construct, and tree is then the leaf that was wanted next (kind, id).
    def d(self, n, i):
        return getattr(self, 'd_' + n[0])(n, i)

    def d_leaf(self, n, i):
        if i == self.n:
            yield CUT, n
        elif self.m(n[2], self.t[i]):
            yield i + 1, (n, i)

    def d_seq(self, n, i):
        yield from self._seq(n, n[1], 0, i, ())

    def _seq(self, n, ch, k, i, acc):
        if k == len(ch):
            yield i, (n, acc)
            return
        for j, t in self.d(ch[k], i):
            if j == CUT:
                yield CUT, t
            else:
                yield from self._seq(n, ch, k + 1, j, acc + (((k, t),) if j > i else ()))

    def d_alt(self, n, i):
        for k, c in enumerate(n[1]):
            for j, t in self.d(c, i):
                yield (CUT, t) if j == CUT else (j, (n, ((k, t),) if j > i else ()))

    def d_opt(self, n, i):
        for j, t in self.d(n[1], i):
            if j == CUT:
                yield CUT, t
            elif j > i:
                yield j, (n, ((0, t),))
        yield i, (n, ())

    def d_rep(self, n, i):
        yield from self._rep(n, 0, i, ())

    def _rep(self, n, k, i, acc):
        body, lo, hi = n[1], n[2], n[3]
        if k >= lo:
            yield i, (n, acc)
        if k == hi:
            return
        for j, t in self.d(body, i):
            if j == CUT:
                yield CUT, t
            elif j > i or k < lo or nullable(body):
                yield from self._rep(n, k + 1, j, acc + (((k, t),) if j > i else ()))

    def d_set(self, n, i):
        yield from self._set(n, frozenset(), i, ())

    def _set(self, n, used, i, acc):
        ch = n[1]
        if all(k in used or nullable(c) for k, c in enumerate(ch)):
            yield i, (n, acc)
        for k, c in enumerate(ch):
            if k in used:
                continue
            for j, t in self.d(c, i):
                if j == CUT:
                    yield CUT, t
                elif j > i:
                    yield from self._set(n, used | {k}, j, acc + ((k, t),))

    def d_ref(self, n, i):
        for j, t in self.d(n[2], i):
            yield (CUT, t) if j == CUT else (j, (n, ((0, t),) if j > i else ()))

    d_act = d_ref                    # ('act', actions, n): n with actions around it

    def run(self, root):
        """(complete derivations, leaves wanted next)"""
        done, nxt = [], []
        for j, t in self.d(root, 0):
            if j == CUT:
                nxt.append(t)
            elif j == self.n:
                done.append(t)
        return done, nxt


def viable_prefix(root, toks, matches):
    """Length of the longest prefix of toks that some command starts with."""
    for k in range(len(toks), -1, -1):
        done, nxt = Ref(toks[:k], matches).run(root)
        if done or nxt:
            return k
    return 0


def leaves(tree):
    n, x = tree
    if n[0] == 'leaf':
        return ((n[1], x),)
    return sum((leaves(t) for _, t in x), ())


def render(n, leaftext, top=False):
    """The grammar text of an AST."""
    k = n[0]
    if k == 'leaf':
        return leaftext(n)
    if k == 'seq':
        s = ' '.join(render(c, leaftext) for c in n[1])
        return s if top else '( ' + s + ' )'
    if k == 'alt':
        s = ' | '.join(render(c, leaftext, True) if c[0] == 'seq' else render(c, leaftext) for c in n[1])
        return s if top else '( ' + s + ' )'
    if k == 'opt':
        return '{ ' + render(n[1], leaftext, True) + ' }'
    if k == 'rep':
        body = '( ' + render(n[1], leaftext, True) + ' )' if n[1][0] != 'opt' else render(n[1], leaftext)
        lo, hi = n[2], n[3]
        return body + (' * %d' % lo if lo == hi else ' * (%d:%d)' % (lo, hi))
    if k == 'set':
        s = ' , '.join(render(c, leaftext) for c in n[1])
        return s if top == 'opt' else '( ' + s + ' )' if not top else s
    if k == 'ref':
        return n[1] + '[]'
    raise ValueError(k)
