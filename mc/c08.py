"""C08: what each token type accepts, delivers and offers, against reference predicates, for every short text."""
import itertools, re
from core import *  # noqa
from c01 import scan
from c02 import value as read, unescape
from c07 import drive
from nessaid_cli.utils import convert_to_cli_string

STR = 'ab"\\n '
BOUNDS = {
    'quick': 'keywords, alternatives (every set of 1..3 out of 8 texts incl. prefixes of one another, quoted and empty ones; given one by one, or in a list, tuple or set by a subclass), strings, ranged strings (every pair of '
             'bounds 0..4), booleans, and sync/async custom tokens with every input line up to 4 characters over a, b, quote, backslash, n, blank that is one token; '
             'decimals with every pair of 10 bounds and every text up to 4 characters over - . 0 1 9; booleans with every text up to 4 over tTrRueEfFalsx prefixes and '
             'mutations; suggestions of every text, every offer executed; every pair of 12 tokens as alternatives and as a sequence with 16 texts',
    'thorough': 'lines up to 6 characters, sets of up to 4 alternatives, decimal texts up to 6 characters',
}
ASSUMPTIONS = ['a word is compared with an alternative in its typed form (an alternative that needs quotes is typed with them, others without): the acceptance of '
               'needlessly quoted words is not judged', 'a typed decimal is a sign, digits and a point: of exponents, underscores, inf and nan only that what is delivered lies in the range',
               'a string value returned by a custom token is in typed form (escapes are resolved once, when it is delivered)']
TASKS = 6
POOL = ('a', 'ab', 'abb', 'b', 'a b', '"', 'a"b', '')
DB = (-10.5, -1, -0.5, 0, 0.5, 1, 1.9, 9, 10, 100)

VALUES = {'red': 0, 'green': '', 'great': False, 'list': [1], 'r d': 'Rv'}


class SyncTok(T.CliToken):
    def __init__(self, name, *a, cli=None, helpstring=None):
        super().__init__(name, helpstring=helpstring)
        self.c = [convert_to_cli_string(k) for k in VALUES]

    def complete(self, token_input, cli=None):
        r = [k for k in self.c if k.startswith(token_input or '')]
        return len(r), r

    def match(self, token_input, cli=None):
        n, c = self.complete(token_input)
        return T.MATCH_FAILURE if not n else T.MATCH_SUCCESS if token_input in c else T.MATCH_PARTIAL

    def get_value(self, match_string=None, cli=None):
        n, c = self.complete(match_string)
        if match_string in c:
            c = [match_string]
        return list(VALUES.values())[self.c.index(c[0])] if len(c) == 1 else T.NullTokenValue


class AsyncTok(SyncTok):
    async def complete(self, token_input, cli=None):
        return SyncTok.complete(self, token_input)

    async def match(self, token_input, cli=None):
        n, c = await self.complete(token_input)
        return T.MATCH_FAILURE if not n else T.MATCH_SUCCESS if token_input in c else T.MATCH_PARTIAL

    async def get_value(self, match_string=None, cli=None):
        n, c = await self.complete(match_string)
        if match_string in c:
            c = [match_string]
        return list(VALUES.values())[self.c.index(c[0])] if len(c) == 1 else T.NullTokenValue


class NoCacheTok(AsyncTok):
    @property
    def cacheable(self):
        return False


def listed(kind, options):
    class Listed(T.AlternativeStringsToken):
        """alternatives given by a subclass in one collection"""
        def __init__(self, name, cli=None, helpstring=None):
            super().__init__(name, kind(options), cli=cli, helpstring=helpstring)
    Listed.__name__ = 'Listed_%s_%d' % (kind.__name__, len(options))
    return Listed


LISTED = (('a', 'ab', 'a b'), ('abb',))


class C(Cli):
    extra_tokens = (SyncTok, AsyncTok, NoCacheTok) + tuple(listed(k, o) for k in (list, tuple, set) for o in LISTED)


# ---- reference: spec -> (definition, typed -> list of values (0 or 1) or None, typed -> offers or None)
def q(s):
    return '"' + ''.join({'\\': '\\\\', '"': '\\"', '\n': '\\n', '\t': '\\t'}.get(c, c) for c in s) + '"'


def quoted_needlessly(t, options):
    return t.startswith('"') and not any(str(o).startswith('"') for o in options) and len(t) > 0


def finite(options, vals, t):
    """options: typed forms"""
    if t in options:
        return [vals[options.index(t)]]
    m = [i for i, o in enumerate(options) if o.startswith(t)]
    return [vals[m[0]]] if len(m) == 1 else []


def definition(spec):
    k = spec[0]
    if k == 'kw':
        return None
    if k == 'alt':
        return 'AlternativeStringsToken(%s)' % ', '.join(map(q, spec[1]))
    if k == 'listed':
        return 'Listed_%s_%d()' % (spec[2], len(spec[1]))
    if k == 'str':
        return 'StringToken()'
    if k == 'rstr':
        return 'RangedStringToken(%d, %d)' % spec[1:]
    if k == 'dec':
        return 'RangedDecimalToken(%s, %s)' % spec[1:]
    if k == 'bool':
        return 'BooleanToken()'
    return spec[1] + '()'


def typed_options(spec):
    k = spec[0]
    if k == 'kw':
        return [str(convert_to_cli_string(spec[1]))], [spec[1]]
    if k in ('alt', 'listed'):
        return [str(convert_to_cli_string(o)) for o in spec[1]], list(spec[1])
    if k == 'custom':
        return [str(convert_to_cli_string(o)) for o in VALUES], list(VALUES.values())
    return None


def judge_value(spec, tok):
    """values the token has for a scanned word: list of 0 or 1, or None when not judged"""
    t, _, quoted, unclosed = tok
    k = spec[0]
    o = typed_options(spec)
    if o:
        v = finite(o[0], o[1], t)
        if not v and quoted and not any(x.startswith('"') and x.startswith(t) for x in o[0]) and unescape(t.strip('"')) != '' and \
                any(y.startswith(unescape(t.strip('"'))) for y in map(str, o[1])):
            return None
        return v
    if k == 'bool':
        if quoted:
            return None
        return [True] if 'true'.startswith(t.lower()) else [False] if 'false'.startswith(t.lower()) else []
    v = read(t, quoted, unclosed)
    if k == 'str':
        return [v]
    if k == 'rstr':
        return [v] if min(spec[1:]) <= len(v) <= max(spec[1:]) else []
    if k == 'dec':
        if not re.fullmatch(r'[+-]?(\d+\.?\d*|\.\d+)', t):
            return None if re.search('[e_]|inf|nan', t, re.I) or quoted else []
        return [float(t)] if min(spec[1:]) <= float(t) <= max(spec[1:]) else []


def offers(spec, t):
    """exact set of completions of a partly typed word, or None for free form tokens"""
    o = typed_options(spec)
    if o:
        return {x: v for x, v in zip(*o) if x.startswith(t)}
    if spec[0] == 'bool':
        return {t + w[len(t):] if t else w: w.lower() == 'true' for w in ('True', 'False') if w.lower().startswith(t.lower())}
    return None


def eq(a, b):
    return type(a) is type(b) and a == b


def bools():
    W = set()
    for w in ('true', 'false'):
        for n in range(1, 6):
            for cs in itertools.product(*[(c, c.upper()) for c in w[:n]]):
                W.add(''.join(cs))
    for w in sorted(W):
        if w.lower() == w or w[1:].lower() == w[1:]:
            for i in range(len(w)):
                W |= {w[:i] + 'x' + w[i + 1:], w[:i] + 'x' + w[i:], w[:i] + w[i + 1:]}
            W.add(w + 'e')
    W |= {'1', '0', 'yes', 'no', 'None', 'tt', 'ft'}
    return sorted(w for w in W if w)


def texts(spec, tier):
    n = 4 if tier == 'quick' else 6
    if spec[0] == 'dec':
        return [s for s in strings('-.019', n, 1)] + ['+1', '+0.5', '10.50', '100.0', '100.1', '00.5', '1-', '--1', 'abc', '9x', '0.0000001', '123456',
                                                       'nan', 'NaN', '-nan', 'inf', '-inf', 'Infinity', '1e0', '1e1', '-1e1', '1e9', '1_0']
    if spec[0] == 'bool':
        return bools() + [s for s in strings('"t\\ f', 3, 1)]
    if spec[0] == 'custom':
        al = ['r', 're', 'red', 'redx', 'g', 'gre', 'gree', 'great', 'green', 'greenx', 'l', 'list', 'x', '"', '"r', '"r ', '"r d', '"r d"', '"r x"', '"red"', 'R', 'GREEN', 'rd', 'lis']
        return al
    if spec[0] in ('alt', 'listed', 'kw'):
        return [s for s in strings('ab" \\', n, 1)] + ['"a\\"b"', '"a\\"b', '"\\""', '"a b"', '"a bb"', '"abb"', '"a\\"bb"']
    return list(strings(STR, n, 1))


def specs(tier):
    for k in POOL[:-1] + ('n\n', '\\', 'a\tb'):
        yield 'kw', k
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        for c in itertools.combinations(POOL, n):
            yield 'alt', c
            if n > 1:
                yield 'alt', c[::-1]
    for k in ('list', 'tuple', 'set'):
        for o in LISTED:
            yield 'listed', o, k
    yield 'str',
    for a in range(5):
        for b in range(5):
            yield 'rstr', a, b
    for a in DB:
        for b in DB:
            yield 'dec', a, b
    yield 'bool',
    for n in ('SyncTok', 'AsyncTok', 'NoCacheTok'):
        yield 'custom', n


def jobs(tier):
    for ch in chunks(specs(tier), 6):
        yield 'one', tier, tuple(ch)
    n = len(MENU)
    for i in range(n):
        yield 'pair', i


MENU = (('kw', 'a'), ('kw', 'ab'), ('alt', ('a', 'b')), ('alt', ('ab', 'abb')), ('alt', ('a b', 'tr')), ('str',), ('rstr', 2, 3), ('rstr', 4, 9), ('dec', 0, 1.5), ('dec', -5, 1),
        ('bool',), ('custom', 'SyncTok'), ('custom', 'AsyncTok'))
PT = ('a', 'ab', 'abb', 'b', 'x', 't', 'True', 'F', '0', '1', '1.5', '-2', '"ab"', '"a b"', 'r', 'green', 'gre', '"a b', 'abcd')


def grammar(specs_):
    out = []
    for i, s in enumerate(specs_):
        d = definition(s)
        if d is None:
            out.append('g%d: %s << call ev($1); >>;\nh%d: %s:"some help" << call ev($1); >>;\n' % (i, q(s[1]), i, q(s[1])))
        else:
            out.append('token T%d %s;\ng%d: T%d << call ev($1); >>;\nh%d: T%d:"some help" << call ev($1); >>;\n' % (i, d, i, i, i, i))
    return '\n'.join(out)


def run(job, r):
    if job[0] == 'pair':
        return pairs(job, r)
    _, tier, ss = job
    cli = build(grammar(ss), cls=C)
    for i, s in enumerate(ss):
        r.states += 1
        g = 'g%d' % i
        one = ('one', tier, (s,))
        name = '%s%s' % (s[0], list(s[1:]))
        for line in texts(s, tier):
            toks = scan(line)
            if toks is None or len(toks) != 1 or line != line.strip(' '):
                continue
            tok = toks[0]
            t = tok[0]
            want = judge_value(s, tok)
            if want is not None:
                res, st, evs = cli.line(line, g)
                r.traces += 1
                r.transitions += 1
                ok = (st == 0 and len(evs) == 1 and eq(evs[0][0], want[0])) if want else (st != 0 and not evs)
                r.outcomes['%s %s' % (s[0], 'accepts' if want else 'rejects')] += 1
                if not ok:
                    r.bad('%s %r' % (name, line), dict(token=name, line=line), want, [res, evs], one)
            elif s[0] == 'dec':
                # written in another way: whatever is delivered lies in the range
                res, st, evs = cli.line(line, g)
                r.traces += 1
                r.transitions += 1
                v = evs[0][0] if evs else None
                if (st == 0) != (len(evs) == 1) or st == 0 and not (isinstance(v, float) and min(s[1:]) <= v <= max(s[1:])):
                    r.bad('%s %r' % (name, line), dict(token=name, line=line), 'refused, or a number of the range', [res, repr(evs)], one)
            of = offers(s, t)
            res, nt, eoi = cli.suggest([t], False, g)
            r.traces += 1
            r.transitions += 1
            if of is not None:
                if quoted_free(s, tok):
                    continue
                ok = set(nt) == set(of) if of else res == T.MATCH_FAILURE
                if not ok:
                    r.bad('offers %s %r' % (name, line), dict(token=name, typed=line), sorted(of), [res, nt], one)
                for c in nt if ok else ():
                    if s[0] == 'bool' and not c.lower().startswith(t.lower()) or s[0] != 'bool' and not c.startswith(t):
                        r.bad('offer extends %s %r' % (name, line), dict(token=name, typed=line), t, c, one)
                    res, st, evs = cli.line(c, g)
                    r.traces += 1
                    if st != 0 or len(evs) != 1 or not eq(evs[0][0], of[c]):
                        r.bad('offer %s %r -> %r' % (name, line, c), dict(token=name, line=c), of[c], [res, evs], one)
            elif want:
                # what is accepted as it stands is also the beginning of an accepted word
                res2, nt2, _ = cli.suggest([t], False, 'h%d' % i)
                if res == T.MATCH_FAILURE or len(nt) != 1 or res2 == T.MATCH_FAILURE or nt2 != ['some help']:
                    r.bad('description %s %r' % (name, line), dict(token=name, typed=line), 'one description, as given in the grammar', [res, nt, res2, nt2], one)
        of = offers(s, '')
        res, nt, _ = cli.suggest([], False, g)
        if of is not None and set(nt) != set(of) or of is None and len(nt) != 1:
            r.bad('offers %s at start' % name, dict(token=name), of and sorted(of), [res, nt], one)
        direct(cli, s, i, name, one, r, tier)
    r.sample(ss[0])


def quoted_free(s, tok):
    """completions of a needlessly quoted word are not judged"""
    return tok[2] and not offers(s, tok[0])


def direct(cli, s, i, name, one, r, tier):
    """a text that can be continued by one or two characters to an accepted one is not a failing beginning"""
    if s[0] not in ('dec', 'rstr') or s[0] == 'rstr' and s[2] > 3:
        return
    al = '.019' if s[0] == 'dec' else 'a'
    tk = cli.get_token('T%d' % i)
    for t in texts(s, 'quick'):
        if len(t) > 3 or scan(t) is None or len(scan(t)) != 1 or ' ' in t or s[0] == 'dec' and not re.fullmatch(r'[+-]?(\d+\.?\d*|\.\d*)?', t):
            continue
        ext = False
        beyond = False
        if s[0] == 'dec':
            beyond = float(t) > max(0, *s[1:]) or float(t) < min(0, *s[1:]) if re.search(r'\d', t) else t.startswith('-') and min(s[1:]) > 0
        elif scan(t)[0][3] or not scan(t)[0][2]:
            beyond = len(read(t, *scan(t)[0][2:4])) > max(s[1:])
        for e in strings(al, 2) if not beyond and not (t[:1] == '-' and min(s[1:]) >= 0) else ():
            tok = scan(t + e)
            if tok and len(tok) == 1 and judge_value(s, tok[0]):
                ext = True
                break
        m = drive(tk.match(t))
        r.traces += 1
        r.transitions += 1
        if ext and m == T.MATCH_FAILURE:
            r.bad('beginning %s %r' % (name, t), dict(token=name, typed=t), 'can be continued to %r' % (t + e), m, one)
        if beyond and m != T.MATCH_FAILURE:
            r.bad('beginning %s %r' % (name, t), dict(token=name, typed=t), 'nothing that starts so is in the range', m, one)


def pairs(job, r):
    i = job[1]
    text = []
    for j, s in enumerate(MENU):
        if definition(s):
            text.append('token T%d %s;' % (j, definition(s)))
    ref = lambda j: 'T%d' % j if definition(MENU[j]) else q(MENU[j][1])
    for j in range(len(MENU)):
        text.append('a%d: %s << call ev("A", $1); >> | %s << call ev("B", $1); >>;' % (j, ref(i), ref(j)))
        text.append('s%d: %s %s << call ev($1, $2); >>;' % (j, ref(i), ref(j)))
    cli = build('\n'.join(text), cls=C)
    for j in range(len(MENU)):
        r.states += 1
        name = '%s %s' % (MENU[i], MENU[j])
        for t in PT:
            a, b = judge_value(MENU[i], scan(t)[0]), judge_value(MENU[j], scan(t)[0])
            if a is None or b is None:
                continue
            cand = [('A', v) for v in a] + [('B', v) for v in b]
            res, st, evs = cli.line(t, 'a%d' % j)
            r.traces += 1
            r.transitions += 1
            if not cand:
                ok = st != 0 and not evs
            elif len(cand) == 1:
                ok = st == 0 and len(evs) == 1 and evs[0][0] == cand[0][0] and eq(evs[0][1], cand[0][1])
            else:
                ok = st != 0 and not evs or st == 0 and len(evs) == 1 and any(evs[0][0] == c[0] and eq(evs[0][1], c[1]) for c in cand)
            r.outcomes['alternatives: %d readings, %s' % (len(cand), res)] += 1
            if not ok:
                r.bad('alternatives %s %r' % (name, t), dict(tokens=[MENU[i], MENU[j]], line=t), cand, [res, st, evs], job)
            for u in PT:
                b = judge_value(MENU[j], scan(u)[0])
                if b is None or '"' in t and scan(t)[0][3]:
                    continue
                res, st, evs = cli.line(t + ' ' + u, 's%d' % j)
                r.traces += 1
                r.transitions += 1
                if a and b:
                    ok = st == 0 and len(evs) == 1 and eq(evs[0][0], a[0]) and eq(evs[0][1], b[0])
                else:
                    ok = st != 0 and not evs
                if not ok:
                    r.bad('sequence %s %r %r' % (name, t, u), dict(tokens=[MENU[i], MENU[j]], line=t + ' ' + u), [a, b], [res, st, evs], job)
    r.sample(text[-1])
