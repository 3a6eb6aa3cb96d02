"""C01: every line over a quoting alphabet through the real tokenizer, against a reference scanner."""
import itertools
from core import *  # noqa
from nessaid_cli.tokenizer.tokenizer import NessaidCliTokenizer, TokenizerException, tokenize

CORE = '"\\ \ta\nnx'
ESC = '"\\0nrtbva x'
BOUNDS = {
    'quick': 'all lines up to 6 characters over quote, backslash, blank, tab, newline, a, n, x; all lines of a quote plus up to 4 characters over '
             'the escape letters; every character 0..255 and 10 wider ones, alone and in pairs, in 9 contexts; all ordered pairs of lines up to 3 characters '
             'over 6 characters on one tokenizer; lines of up to 40 tokens; all lines up to 4 characters through exec_line',
    'thorough': 'the same with 7 characters, 6 after the quote, pairs of lines up to 3 over 8 characters, lines up to 5 through exec_line',
}
ASSUMPTIONS = ['a quoted section stops, unclosed, at a character it cannot contain (raw tab, newline, carriage return, NUL, or a backslash that '
               'starts no escape; that backslash is its last character), as the lexer documents']
TASKS = 4
BLANK = ' \t'
BADQ = '\n\r\t\0'
ESCAPES = '0nrtbva"\\'
WIDE = 'éßЖ中\u2028\u00a0\ufeff\U0001f600\u0301\u200b'


def scan(line):
    """list of (text, pos, quoted, unclosed), or None when a character is illegal"""
    out, i, n = [], 0, len(line)
    while i < n:
        c = line[i]
        if c in BLANK:
            i += 1
        elif c == '"':
            j = i + 1
            closed = False
            while j < n:
                if line[j] == '"':
                    closed = True
                    j += 1
                    break
                if line[j] == '\\':
                    if j + 1 < n and line[j + 1] in ESCAPES:
                        j += 2
                        continue
                    j += 1
                    break
                if line[j] in BADQ:
                    break
                j += 1
            out.append((line[i:j], i, True, not closed))
            i = j
        elif c in '\\\n':
            return None
        else:
            j = i
            while j < n and line[j] not in BLANK + '"\\\n':
                j += 1
            out.append((line[i:j], i, False, False))
            i = j
    return out


def jobs(tier):
    q = tier == 'quick'
    n = 6 if q else 7
    for p in strings(CORE, 2):
        yield 'lines', p, CORE, n - 2 if len(p) == 2 else 0
    for c in ESC:
        yield 'lines', '"' + c, ESC, 3 if q else 5
    chars = [chr(i) for i in range(256)] + list(WIDE)
    for ch in chunks(chars, 34):
        yield 'chars', ''.join(ch)
    al = '"\\ a\nn' if q else '"\\ a\nnx\t'
    for a in chunks(strings(al, 3), 20):
        yield 'pairs', tuple(a), al
    yield 'long',
    yield 'module',
    for p in CORE:
        yield 'exec', p, 3 if q else 4


def got(tk, line):
    try:
        ts = tk.parse(line)
    except TokenizerException:
        return None
    if not isinstance(ts, list):
        return ts
    return [(str(t), t.lexpos, bool(t.quoted), bool(t.quote_incomplete)) if t.lexlen == len(t) else ('length', t.lexlen, str(t)) for t in ts]


def check(r, tk, line, job, before=None):
    e, g = scan(line), got(tk, line)
    r.transitions += 1
    r.traces += 1
    if len(r.outcomes) < 60:
        r.outcomes['illegal' if e is None else '%d tokens%s%s' % (len(e), ' quoted' * any(t[2] for t in e), ' unclosed' * any(t[3] for t in e))] += 1
    if e != g:
        r.bad('%r' % line if before is None else '%r after %r' % (line, before), dict(line=line, after=before), e, g, job, size=len(line))


def run(job, r):
    tk = NessaidCliTokenizer()
    if job[0] == 'lines':
        for s in strings(job[2], job[3]):
            check(r, tk, job[1] + s, job)
            r.states += 1
        r.sample(dict(line=job[1] + s, tokens=scan(job[1] + s)))
    elif job[0] == 'chars':
        every = [chr(i) for i in range(256)] + list(WIDE)
        for c in job[1]:
            for d in every:
                for ctx in ('%s%s', 'a%s%s', '%s %s', '"%s%s', '"%s%s"', '"\\%s%s"', '%s"%s"', '"%s"%s', '"\\\\%s" %s b'):
                    check(r, tk, ctx % (c, d), job)
                    r.states += 1
    elif job[0] == 'pairs':
        for a in job[1]:
            for b in strings(job[2], 3):
                t2 = tk
                got(t2, a)
                check(r, t2, b, job, a)
                r.states += 1
    elif job[0] == 'long':
        for n in range(1, 41):
            for unit in ('a', 'ab"c d"', '"x"', '" "y', '"\\"\\\\" ', 'a  \t"'):
                for sep in ('', ' ', ' \t '):
                    check(r, tk, sep.join([unit] * n), job)
                    check(r, tk, unit[:1] + unit[1:2] * (n * 50) + unit[2:], job)
                    r.states += 2
    elif job[0] == 'module':
        import contextlib
        for s in strings('"\\ a\n', 3):
            with contextlib.redirect_stderr(io.StringIO()):
                ts = tokenize(s)
            e = scan(s)
            r.traces += 1
            r.transitions += 1
            if [str(t) for t in ts] != [t[0] for t in e or []]:
                r.bad('tokenize %r' % s, dict(line=s, function='tokenize'), e, [str(t) for t in ts], job)
    else:
        class Raw(T.CliToken):
            @property
            def completable(self):
                return False

            def match(self, s, cli=None):
                return T.MATCH_SUCCESS

            def get_value(self, s=None, cli=None):
                return ('raw', s)

            def complete(self, s, cli=None):
                return T.TOO_MANY_COMPLETIONS, []
        tokens = []

        class C(Cli):
            extra_tokens = (Raw,)

            def process_cli_response(self, toks, resp):
                tokens.extend(toks)
                super().process_cli_response(toks, resp)
        cli = build('token RAW Raw();\ng: (RAW << call ev($1); >>) * (1:5);', C)
        cli.enter_grammar('g')
        for s in strings(CORE, job[2]):
            line = job[1] + s
            e = scan(line)
            del tokens[:]
            cli.err.seek(0)
            cli.err.truncate()
            res, st, evs = cli.line(line)
            r.transitions += 1
            r.traces += 1
            r.states += 1
            if line == '\n':
                e = []
            want = [('raw', t[0]) for t in e or []]
            ok = (st == 0) == bool(want) and [x[0] for x in evs] == want and [str(t) for t in tokens] == [t[1] for t in want]
            ok = ok and (e is not None) == (not cli.err.getvalue())
            if not ok:
                r.bad('exec %r' % line, dict(exec_line=line), dict(tokens=e), dict(result=res, status=st, events=evs, err=cli.err.getvalue()[:200]), job)
