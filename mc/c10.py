"""C10: suggestions after every prefix of every short line, for every small grammar."""
import itertools
from core import *  # noqa
from gram import *  # noqa
from c06 import label_kinds
import fake

BOUNDS = {
    'quick': 'plain keywords: trees (1,3,all) (2,2,all) (3,3,none) (3,2,{1:2}) (4,2,none), prefixes up to 3 words; ' + WIDER +
             'mixed leaves in/int/string/integer(9-12): (2,2,{0:2}), (3,2,none), prefixes up to 2 words; '
             'leaves inner/choice of in, inn, out/boolean/string of 2 or 3: (2,2,{0:2}), (3,1,none), prefixes up to 2 words; leaves int/string/string of 2 or 3/integer(9-12), each declared '
             'token with and without a help text where it is used, a token declared with one: (2,1,{0:2}), (3,1,none), prefixes up to 2 words; keywords in/IN/Inn: (2,1,{0:2}), (3,1,none); last word finished and being typed; '
             'set order alternating',
    'thorough': WIDER + 'plain: (1,4,all) (2,3,{0:2,2,1:3}) (3,3,{1:2}) (4,2,{1:2}), prefixes up to 4; mixed: (2,3,{0:2}), (3,2,{1:2}), prefixes up to 3; choices and help texts: (2,2,{0:2,1:2}), (3,2,none), up to 3 / 2',
}
ASSUMPTIONS = ['a blank line is no command, so the end of the command is not offered on it',
               'words before the last one that fit an integer only as an unfinished number are left out']
TASKS = 50
HEAD = 'token S StringToken();\ntoken N RangedIntToken(9, 12);\ntoken A AlternativeStringsToken("in", "inn", "out");\ntoken B BooleanToken();\ntoken R RangedStringToken(2, 3);\ntoken D StringToken(helpstring="declared");\n'
CHOICES = ('in', 'inn', 'out')
SHELP = 'Any string'
NHELP = 'An integer between 9 and 12'
RHELP = 'Any string of length (2-3)'


def space(tier):
    q = tier == 'quick'
    for g in wides():
        yield 'plain', g, WIDE
    plain = [(1, 3, REPS, 3), (2, 2, REPS, 3), (3, 3, (), 3), (3, 2, ((1, 2),), 3), (4, 2, (), 3)] if q else \
        [(1, 4, REPS, 5), (2, 3, ((0, 2), (2, 2), (1, 3)), 4), (3, 3, ((1, 2),), 3), (4, 2, ((1, 2),), 4)]
    for nl, d, reps, n in plain:
        for g in grammars(nl, d, reps):
            yield 'plain', g, n
    mixed = [(2, 2, ((0, 2),), 2), (3, 2, (), 2)] if q else [(2, 3, ((0, 2),), 3), (3, 2, ((1, 2),), 2)]
    for nl, d, reps, n in mixed:
        for t in trees(nl, d, reps):
            for g in label_kinds(t, ('in', 'int', 'S', 'N')):
                yield 'mixed', g, n
    choices = [(2, 2, ((0, 2),), 2), (3, 1, (), 2)] if q else [(2, 2, ((0, 2), (1, 2)), 3), (3, 2, (), 2)]
    for nl, d, reps, n in choices:
        for t in trees(nl, d, reps):
            for g in label_kinds(t, ('inner', 'A', 'B', 'R')):
                if wordset(g) & {'A', 'B', 'R'}:
                    yield 'choices', g, n
    for t in trees(2, 1, ((0, 2),)) + trees(3, 1, ()):
        for g in label_kinds(t, ('in', 'IN', 'Inn')):
            yield 'case', g, 2
    helps = [(2, 1, ((0, 2),), 2), (3, 1, (), 2)] if q else [(2, 2, ((0, 2), (1, 2)), 2), (3, 2, (), 2)]
    for nl, d, reps, n in helps:
        for t in trees(nl, d, reps):
            for g in label_kinds(t, ('int', 'S', 'S:', 'R:', 'N:', 'D', 'D:') if nl < 3 else ('S', 'S:', 'N:')):
                if wordset(g) & {'S:', 'R:', 'N:', 'D', 'D:'}:
                    yield 'helps', g, n


def jobs(tier):
    n = 0
    for ch in chunks(space(tier), 150):
        n += 1
        yield ('ref' if n % 3 == 0 else 'inline', bool(n % 2), tuple(ch))


def tok(n):
    k = n[2]
    if k[-1] == ':':
        return k[0] + ' : "help %d" << call ev("%d"); >>' % (n[1], n[1])
    return (k if k in 'SNABRD' else '"%s" : "help %d"' % (k, n[1])) + ' << call ev("%d"); >>' % n[1]


def fits(kind, w):
    """can the finished word w stand for a leaf of this kind"""
    kind = kind.rstrip(':')
    if kind in 'SD':
        return True
    if kind == 'N':
        return w in ('9', '10', '11', '12')
    if kind == 'A':
        return w in CHOICES or len([c for c in CHOICES if c.startswith(w)]) == 1
    if kind == 'R':
        return 2 <= len(w) <= 3
    if kind == 'B':
        return any(c.startswith(w.lower()) for c in ('true', 'false'))
    return kind.startswith(w)


def offers(leaf, w):
    """what is suggested for a leaf when w has been typed of it"""
    kind = leaf[2]
    if kind in ('S:', 'R:', 'D:'):
        return {'help %d' % leaf[1]} if kind != 'R:' or len(w) <= 3 else set()
    kind = kind.rstrip(':')
    if kind == 'S':
        return {SHELP}
    if kind == 'D':
        return {'declared'}
    if kind == 'N':
        return {x for x in ('9', '10', '11', '12') if x.startswith(w)}
    if kind == 'A':
        return {c for c in CHOICES if c.startswith(w)}
    if kind == 'R':
        return {RHELP} if len(w) <= 3 else set()
    if kind == 'B':
        return {w + c[len(w):] for c in (('true', 'false') if w else ('True', 'False')) if c.startswith(w.lower())}
    return {kind} if kind.startswith(w) else set()


def run(job, r):
    mode, desc, gs = job
    fake.install()
    set_order(desc)
    text = [HEAD]
    for i, (fam, g, n) in enumerate(gs):
        defs = []
        m = referenced(g, 'g%d' % i, defs) if mode == 'ref' else g
        text += ['%s: %s ;' % (nm, render(b, tok, True)) for nm, b in defs]
        text.append('g%d: %s ;' % (i, render(m, tok, True)))
    cli = build('\n'.join(text))
    for i, (fam, g, n) in enumerate(gs):
        ws = sorted(wordset(g)) + ['z'] if fam == 'plain' else ['i', 'in', 'int', 'z', '1', '12'] if fam == 'mixed' else ['i', '12', 'zzzz'] if fam == 'helps' else ['i', 'I', 'in', 'IN', 'In'] if fam == 'case' else ['i', 'in', 'inn', 'o', 'T', 'fa', 'zzzz']
        for k in range(0, 1 if n == WIDE else n + 1):
            for toks in wide_lines(g) if n == WIDE else itertools.product(ws, repeat=k):
                if 'z' in toks[:-1] and fam == 'plain':
                    continue
                for last in (False, True):
                    if '1' in (toks if last else toks[:-1]) and {'N', 'N:'} & wordset(g):
                        continue
                    one(r, cli, g, 'g%d' % i, toks, last, (mode, desc, ((fam, g, n),)))
        r.states += 1
    r.sample(text[-1])


def one(r, cli, g, name, toks, last, job):
    done_words = toks if last or not toks else toks[:-1]
    w = '' if last or not toks else toks[-1]
    D, nxt = Ref(done_words, fits).run(g)
    exp = set()
    for leaf in set(nxt):
        exp |= offers(leaf, w)
    eoi = bool(D) and last and bool(toks)
    res, got, geoi = cli.suggest(toks, last, name)
    r.transitions += 1
    r.traces += 1
    if not exp and not eoi:
        ok = res == T.MATCH_FAILURE and not got and not geoi
    else:
        ok = res == T.MATCH_PARTIAL and got == sorted(exp) and geoi == eoi
    ok = ok and not cli.events
    # keywords are offered with a help text of theirs
    helps = {}
    for leaf in nxt:
        if leaf[2] not in 'SNABRD' and leaf[2] != 'R:':
            for o in offers(leaf, w):
                helps.setdefault(o, set()).add('help %d' % leaf[1])
        elif leaf[2] == 'N':
            for o in offers(leaf, w):
                helps.setdefault(o, set()).add(NHELP)
        elif leaf[2] == 'B':
            for o in offers(leaf, w):
                helps.setdefault(o, set()).add('True or False')
    told = [(str(t), getattr(t, 'helpstring', None)) for t in cli.offered]
    if ok and any(h not in helps[t] for t, h in told if t in helps):
        ok, got = False, sorted(map(str, told))
    # and TAB shows the same
    line = ' '.join(toks) + (' ' if last and toks else '')
    rows, buf = cli.shown(line, name)
    if buf == line and rows and (exp or eoi):
        seen, end = [], False
        for row in rows:
            a, _, b = row.partition(' :    ')
            if a.strip().rstrip(':') == 'NEWLINE' or row.startswith('NEWLINE: '):
                end = True
            elif a.strip() in helps and b not in helps[a.strip()]:
                ok, got = False, rows
            else:
                seen.append(a.strip() or b)
        r.extra['lists shown'] += 1
        if ok and (sorted(seen) != sorted(exp) or end != eoi):
            ok, got, geoi = False, rows, end
    elif not buf.startswith(line):
        ok, got = False, buf
    r.transitions += 1
    ok = ok and not cli.events
    r.outcomes['%s %d suggestions%s' % (res, len(got), ' end' if geoi else '')] += 1
    if not ok:
        r.bad('%s :: %s%s' % (show(g), ' '.join(toks), '_' if last else ''),
              dict(grammar=show(g), mode=job[0], words=toks, last_word_finished=last),
              dict(suggest=sorted(exp), end=eoi), dict(result=res, suggest=got, end=geoi, events=cli.events), job,
              size=size(g) * 10 + len(toks))
