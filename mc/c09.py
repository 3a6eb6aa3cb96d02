"""C09: path tokens against the file system, for every small tree and every short path text."""
import itertools, os, shutil, tempfile
from core import *  # noqa
from c02 import value as read
from c07 import drive

BOUNDS = {
    'quick': 'trees: a in {absent, file, 4 directories}, ab in {absent, file, 2 directories}, b in {absent, file, empty directory}, .h present or not (144 trees), each with '
             'every text over a b . / up to 3 characters (5 trees: up to 5), written closed, unclosed and unquoted, relative and under the absolute scratch path; a tree '
             'of names with blanks, quotes, backslashes, pattern characters and non-ASCII letters and letters of both cases with every prefix of every quoted name; every pair of 12 trees x every '
             'text up to 2: the same line before and after the file system changed',
    'thorough': 'texts up to 5 characters on every tree; the pairs of 24 trees, texts up to 3',
}
ASSUMPTIONS = ['POSIX file system and separators (the Windows branches are not executed)', 'a typed . or .. segment stands for itself: hidden entries are not judged as completions of it',
               'a text containing * ? or [ is a pattern: only that its completions exist is judged, unless it names an entry', 'an empty path is not judged',
               'repeated separators count as one']
TASKS = 4

A = (None, 'f', {}, {'a': 'f'}, {'ab': 'f', 'b': {}}, {'a': {}, '.h': 'f'})
AB = (None, 'f', {}, {'a': 'f'})
B = (None, 'f', {})
TREES = [{k: v for k, v in zip(('a', 'ab', 'b', '.h'), t) if v is not None} for t in itertools.product(A, AB, B, (None, 'f'))]
NAMES = ['a b', 'a"b', 'a\\b', '\\', '"', 'a\\', 'é', 'a[b]', 'a*', '[a', 'x?', '-', '#', "'", 'a\tb', 'a', '..x', 'n\n', '\\n', 'ab"', 'Ab', 'aB', 'É', 'e\u0301']
SPECIAL = {n: ('f' if i % 2 else {'k': 'f', 'a"': 'f', '[b]': 'f', 'b': 'f', '[ab': {}}) for i, n in enumerate(NAMES)}
DEEP = [TREES[-1], TREES[60], TREES[100], {'a': {'a': {'a': {'b': 'f'}}, 'b': 'f'}}, {'a': {'..a': 'f', '...': {}}, '...': 'f'}]
SPECS = ('', ' "x"')


def jobs(tier):
    n = 3 if tier == 'quick' else 5
    for c in chunks(range(len(TREES)), 4):
        yield ('trees', tuple(c), n)
    for i in range(len(DEEP)):
        yield ('deep', i, 5 if tier == 'quick' else 6)
    yield ('special',)
    k = 12 if tier == 'quick' else 24
    for i in range(k):
        yield ('change', i, k, 2 if tier == 'quick' else 3)


def make(d, tree):
    os.makedirs(d)
    for k, v in tree.items():
        p = os.path.join(d, k)
        if v == 'f':
            open(p, 'w').close()
        else:
            make(p, v)


def q(s, closed=True):
    return '"' + ''.join({'\\': '\\\\', '"': '\\"', '\n': '\\n', '\t': '\\t'}.get(c, c) for c in s) + ('"' if closed else '')


def squash(p):
    while '//' in p:
        p = p.replace('//', '/')
    return p


def pattern(p):
    return any(c in p for c in '*?[')


def ref(text, closed):
    """(accepted, value or None if not judged, names that must be offered or None)"""
    d, _, part = text.rpartition('/')
    d = text[:len(text) - len(part)]
    try:
        names = os.listdir(d or '.')
    except OSError:
        names = []
    exists = os.path.lexists(text)
    ext = sorted(d + n for n in names if n.startswith(part))
    if closed:
        return exists, squash(text), ([squash(text)] if exists else [])
    if part in ('.', '..') or (part == '' and exists):
        return exists, squash(text), (None if part else [squash(e) for e in ext])
    if exists:
        return True, squash(text), [squash(e) for e in ext]
    if len(ext) == 1:
        return True, squash(ext[0]), [squash(ext[0])]
    return bool(ext), squash(text), [squash(e) for e in ext]


def one(r, job, cli, tok, text, form, tree, base=''):
    closed = form == 'closed'
    typed = text if form == 'plain' else q(text, closed)
    case = {'tree': tree, 'typed': typed.replace(base, '<scratch>') if base else typed}
    r.traces += 1
    r.transitions += 4
    m, (n, offers), v = drive(tok.match(typed)), drive(tok.complete(typed)), drive(tok.get_value(typed))
    res, st, ev = cli.line('p ' + typed, 'g')
    got = read(v, False, False) if isinstance(v, str) and not hasattr(v, 'value') else v
    ok, want, names = ref(text, closed)
    pat = pattern(text)
    r.outcomes['%s%s %s offers %s' % (form, ' pattern' if pat else '', 'accepted' if ok else 'rejected', min(len(offers), 4))] += 1
    if pat and closed and os.path.lexists(text):
        # a name is a name, whatever it could stand for as a pattern
        if st != 0 or not isinstance(got, str) or squash(str(got)) != want or [squash(e[-1]) for e in ev] != [want]:
            r.bad('named', case, want, [res, st, ev, repr(v)], job)
    elif not pat:
        if st == 0 and not ok:
            r.bad('accepted', case, 'rejected: no such entry', [res, ev], job)
        if st != 0 and ok:
            r.bad('rejected', case, 'accepted as %r' % want, [res, st], job)
        if ok and st == 0 and (len(ev) != 1 or squash(ev[0][-1]) != want):
            r.bad('value', case, want, ev, job)
        if ok and (not isinstance(got, str) or squash(str(got)) != want):
            r.bad('token value', case, want, repr(v), job)
        if (m != T.MATCH_FAILURE) != ok:
            r.bad('match', case, ok, m, job)
        if not ok and v is not T.NullTokenValue:
            r.bad('token value', case, 'no value', repr(v), job)
    seen = set()
    for o in offers:
        if not o.startswith('"'):
            r.bad('offer form', case, 'quoted', o, job)
            continue
        oc = scan_closed(o)
        u = read(o, True, not oc)
        seen.add(squash(u))
        if not os.path.lexists(u) or (not pat and not u.startswith(squash(text))) or (closed and not oc):
            r.bad('offer', case, 'an existing path extending what is typed', o, job)
        elif oc and not closed and os.path.isdir(u) and os.listdir(u) and not pat:
            r.bad('offer closed', case, 'a directory with entries is not the end', o, job)
    if not pat and names is not None:
        missing = set(names) - seen
        if missing:
            r.bad('not offered', case, sorted(missing), sorted(seen), job)
        if n != len(offers) and n < 1 and offers:
            r.bad('count', case, len(offers), n, job)
        extra = {s.rstrip('/') or '/' for s in seen} - {s.rstrip('/') or '/' for s in names} - {squash(text).rstrip('/') or '/'}
        if closed and extra:
            r.bad('offer', case, names, sorted(seen), job)


def scan_closed(o):
    if len(o) < 2 or not o.endswith('"'):
        return False
    c = o[1:-1]
    return (len(c) - len(c.rstrip('\\'))) % 2 == 0


def forms(text):
    yield 'closed'
    yield 'open'
    if text and not any(c in text for c in ' "\\\t\n'):
        yield 'plain'


def run(job, r):
    home = os.getcwd()
    tmp = os.path.realpath(tempfile.mkdtemp(prefix='c09_'))
    try:
        body(job, r, tmp)
    finally:
        os.chdir(home)
        shutil.rmtree(tmp)


def body(job, r, tmp):
    cli = build('token P PathToken(); g: "p" P << call ev($2); >>;', str_cache_size=50)
    tok = T.PathToken('P')
    if job[0] in ('trees', 'deep'):
        for i in (job[1] if job[0] == 'trees' else [job[1]]):
            tree = (TREES if job[0] == 'trees' else DEEP)[i]
            d = os.path.join(tmp, 't%d' % i)
            make(d, tree)
            os.chdir(d)
            r.states += 1
            for text in strings('ab./', job[2], 1):
                if not text.startswith('/'):
                    for f in forms(text):
                        one(r, job, cli, tok, text, f, tree)
            for text in strings('ab./', 2):
                text = d + '/' + text
                for f in forms(text):
                    one(r, job, cli, tok, text, f, tree, d)
            # the root of the file system
            root = os.listdir('/')
            for k in [''] + sorted({x[:m] for x in root for m in (1, 2)}):
                if i % 16 == 0 and not any(c in k for c in '*?["\\') and k not in ('.', '..') and k not in root:
                    n, offers = drive(tok.complete('"/' + k))
                    r.transitions += 1
                    r.traces += 1
                    want = {'/' + x for x in root if x.startswith(k)}
                    seen = {read(o, True, not scan_closed(o)) for o in offers}
                    if not want <= seen or any(x.rstrip('/') and x.rstrip('/') not in want for x in seen):
                        r.bad('root', {'typed': '"/' + k}, sorted(want), sorted(seen), job)
            # an opening quote alone offers everything here
            n, offers = drive(tok.complete('"'))
            r.transitions += 1
            want = {'"' + k for k in tree}
            if not want <= set(offers) or any(not os.path.lexists(o[1:]) for o in offers):
                r.bad('offers of a quote', {'tree': tree}, sorted(want), offers, job)
            r.sample({'tree': tree, 'typed': '"a', 'offers': sorted(drive(tok.complete('"a'))[1])})
    elif job[0] == 'special':
        d = os.path.join(tmp, 's')
        make(d, SPECIAL)
        os.chdir(d)
        texts = {n[:i] for n in NAMES for i in range(1, len(n) + 1)}
        texts |= {n + t for n, v in SPECIAL.items() if v != 'f' for t in ('/', '/k', '/a"', '/a', '/x', '/[', '/[b', '/[b]', '/[ab', '/b', '/[x')} | {'./' + n for n in NAMES} | {'zz', '"x', 'a\\x'}
        for text in sorted(texts):
            r.states += 1
            for f in forms(text):
                one(r, job, cli, tok, text, f, 'special')
    else:
        _, i, k, n = job
        some = TREES[::len(TREES) // k][:k]
        for j, t in enumerate(some):
            make(os.path.join(tmp, str(j)), t)
        cur = os.path.join(tmp, 'cur')
        for j in range(k):
            if j == i:
                continue
            for text in strings('ab/', n, 1):
                if text.startswith('/'):
                    continue
                for f in forms(text):
                    for z in (i, j, i):
                        os.rename(os.path.join(tmp, str(z)), cur)
                        os.chdir(cur)
                        one(r, job, cli, tok, text, f, ['after other trees', some[z]])
                        os.rename(cur, os.path.join(tmp, str(z)))
            r.states += 1
