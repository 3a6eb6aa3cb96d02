"""C02: string values through quoting, the tokenizer, reading back, the cache, and real commands."""
import itertools
from core import *  # noqa
from c01 import scan
from nessaid_cli.tokenizer.tokenizer import NessaidCliTokenizer, TokenInputString
from nessaid_cli.utils import convert_to_cli_string, convert_to_python_string

VAL = '"\\ \tan\n\0x'
ESC = '"\\0nrtbvax '
BOUNDS = {
    'quick': 'all values up to 5 characters over quote, backslash, blank, tab, newline, NUL, a, n, x and up to 2 over 0..255, with and without cache; '
             'all quoted token texts of up to 5 characters after the quote over the escape letters; all ordered pairs of (text up to 2 characters) x '
             '(plain, quoted, unclosed) through caches of size 0, 1, 128; all values up to 3 as keyword, alternative and free string of a real command; '
             'all ordered pairs of token texts up to 3 characters on one CLI per cache size',
    'thorough': 'values up to 6, token texts up to 6, cache pairs up to 3 characters, command values up to 4, command pairs up to 4',
}
ASSUMPTIONS = ['the escapes are \\0 \\n \\r \\t \\b \\v \\a \\" and \\\\; a backslash that starts none of them stands for itself',
               'a keyword cannot be the empty string (a token must have a name)']
TASKS = 6
TAB = {'0': '\0', 'n': '\n', 'r': '\r', 't': '\t', 'b': '\b', 'v': '\v', 'a': '\a', '"': '"', '\\': '\\'}


def unescape(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == '\\' and i + 1 < len(s) and s[i + 1] in TAB:
            out.append(TAB[s[i + 1]])
            i += 2
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


def value(text, quoted, unclosed):
    if not quoted:
        return unescape(text)
    return unescape(text[1:] if unclosed else text[1:-1])


class Cache:
    def __init__(self):
        self.str_cache = {}

    def cache_string(self, k, v):
        self.str_cache[k] = v


def jobs(tier):
    q = tier == 'quick'
    for p in strings(VAL, 2, 2):
        yield 'values', p, 3 if q else 4
    yield 'values', '', 1
    yield 'allchars',
    for c in ESC:
        yield 'texts', '"' + c, 4 if q else 5
    texts = list(strings('"\\na ', 2 if q else 3))
    for ch in chunks(texts, 10):
        yield 'cache', tuple(ch), tuple(texts)
    for p in VAL:
        yield 'cmd', p, 2 if q else 3
    for size in (0, 1, 128):
        for c in '"\\na ':
            yield 'cmdpairs', c, size, 3 if q else 4


def bad(r, key, case, e, g, job):
    r.bad(key, case, e, g, job)


def run(job, r):
    kind = job[0]
    tk = NessaidCliTokenizer()
    if kind in ('values', 'allchars'):
        vals = (job[1] + s for s in strings(VAL, job[2])) if kind == 'values' else \
            (a + b for a in map(chr, range(256)) for b in [''] + list(map(chr, range(256))))
        cache = Cache()
        for v in vals:
            r.states += 1
            r.transitions += 1
            r.traces += 1
            c = convert_to_cli_string(v)
            ts = tk.parse(str(c))
            r.outcomes['quoted' if str(c) != v else 'as is'] += 1
            if len(ts) != 1 or ts[0].quote_incomplete or str(ts[0]) != str(c):
                bad(r, 'one token %r' % v, dict(value=v), 'one token', [str(t) for t in ts], job)
                continue
            back = [str(convert_to_python_string(ts[0])), str(convert_to_python_string(ts[0], cli=cache)), str(convert_to_python_string(ts[0], cli=cache)),
                    str(convert_to_python_string(c))]
            if any(b != v for b in back):
                bad(r, 'round trip %r' % v, dict(value=v, typed=str(c)), v, back, job)
    elif kind == 'texts':
        for s in strings(ESC, job[2]):
            line = job[1] + s
            ts = tk.parse(line) if scan(line) is not None else []
            for t in ts[:1]:
                r.states += 1
                r.transitions += 1
                r.traces += 1
                e = value(str(t), t.quoted, t.quote_incomplete)
                g = str(convert_to_python_string(t))
                g2 = go(T.StringToken('s').get_value(str(t)))
                r.outcomes['unclosed' if t.quote_incomplete else 'closed'] += 1
                if g != e or unescape(str(g2)) != e:
                    bad(r, 'read %r' % str(t), dict(typed=str(t)), e, [g, g2], job)
    elif kind == 'cache':
        forms = [(0, 0), (1, 0), (1, 1)]

        def mk(t, f):
            return t if f == (0, 0) else TokenInputString(t, 0, len(t), quoted=True, quote_incomplete=bool(f[1]))

        def ref(t, f):
            if f == (0, 0):
                return unescape(t)
            t = t[1:] if t.startswith('"') else t
            return unescape(t[:-1] if not f[1] and t.endswith('"') else t)
        for a in job[1]:
            for fa in forms:
                for b in job[2]:
                    for fb in forms:
                        c = Cache()
                        r.transitions += 2
                        r.traces += 1
                        r.states += 1
                        g = [str(convert_to_python_string(mk(a, fa), cli=c)), str(convert_to_python_string(mk(b, fb), cli=c))]
                        if g != [ref(a, fa), ref(b, fb)]:
                            bad(r, 'cache %r%r %r%r' % (a, fa, b, fb), dict(first=[a, fa], second=[b, fb]), [ref(a, fa), ref(b, fb)], g, job)
        r.outcomes['cache pairs'] += 1
    elif kind == 'cmd':
        vals = [job[1] + s for s in strings(VAL, job[2])]
        text = ['token S StringToken();', 'free: S << call ev($1); >>;', 'spans: (S S) << call ev($1); >>;']
        for i, v in enumerate(vals):
            lit = '"' + ''.join({'\0': '\\0', '\n': '\\n', '\t': '\\t', '"': '\\"', '\\': '\\\\'}.get(c, c) for c in v) + '"'
            text.append('k%d: %s << call ev($1); call ev(%s); >>;' % (i, lit, lit))
            text.append('token A%d AlternativeStringsToken(%s, "other");' % (i, lit))
            text.append('a%d: A%d << call ev($1); >>;' % (i, i))
        cli = build('\n'.join(text))
        for i, v in enumerate(vals):
            line = str(convert_to_cli_string(v))
            for g, l, want in (('k%d' % i, line, [(v,), (v,)]), ('a%d' % i, line, [(v,)]), ('free', line, [(v,)]), ('spans', line + ' ' + line, [([v, v],)]),
                               ('a%d' % i, 'other', [('other',)])):
                r.states += 1
                r.transitions += 1
                r.traces += 1
                res, st, evs = cli.line(l, g)
                r.outcomes['command ' + res] += 1
                if st != 0 or evs != want or any(type(x) is not str for e in evs for x in e if not isinstance(x, list)):
                    bad(r, 'command %s %r' % (g.rstrip('0123456789'), v), dict(value=v, line=l, grammar=g), want, dict(result=res, events=evs), job)
    else:
        clis = build('token S StringToken();\nfree: S << call ev($1); >>;\nkw: "a" << call ev($1); >> | "\\"" << call ev($1); >> | "n" << call ev($1); >>;',
                     str_cache_size=job[2])
        texts = [t for t in strings('"\\na ', job[3]) if scan(t) and len(scan(t)) == 1 and scan(t)[0][0] == t]
        for a in texts:
            if not a.startswith(job[1]):
                continue
            for b in texts:
                for x in (a, b):
                    e = value(x, x[0] == '"', scan(x)[0][3])
                    res, st, evs = clis.line(x, 'free')
                    r.transitions += 1
                    if st != 0 or evs != [(e,)]:
                        bad(r, 'line %r after %r' % (b, a), dict(first=a, line=b, cache=job[2]), e, dict(result=res, events=evs), job)
                    want = {'a': 'a', 'n': 'n', '"\\""': '"', '"\\"': '"', '"\\': '"', '"': '"'}.get(x)
                    res, st, evs = clis.line(x, 'kw')
                    if (st == 0) != (want is not None) or (st == 0 and evs != [(want,)]):
                        bad(r, 'kw %r after %r' % (b, a), dict(first=a, line=b, cache=job[2], grammar='kw'), want, dict(result=res, events=evs), job)
                r.traces += 1
                r.states += 1
        r.outcomes['command pairs'] += 1
