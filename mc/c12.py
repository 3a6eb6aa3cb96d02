"""C12: which texts compile, and what they mean, against an independent reader of the grammar notation.

The reader (lexer, recursive descent parser, argument binding, reference semantics of refgrammar.py)
is written from the documented notation.  Families of texts are enumerated exhaustively up to a
length; every text is compiled by the real compiler and has to be rejected exactly when the reader
rejects it; every accepted one is loaded into a CLI and executed on every line up to a length, the
result and the action events compared with the reader's."""
import contextlib, io, itertools, re
from core import *  # noqa
from core import _elements
import fastply
from gram import *  # noqa
import refgrammar

BOUNDS = {
    'quick': 'every token sequence a rule can begin with, and every one token beyond, up to 4 tokens over 18 and 5 over 10; top level up to 7 tokens over 12; arguments and parameters up to 5 over 10, '
             'multipliers up to 5 over 9, every pair of bounds up to 12 with lines up to 13 words, actions up to 7 over 12, token arguments up to 5 over 11; every single ASCII character and every run of up to 3 of 11 special characters in every gap; '
             '22 fillers (blanks, line breaks, comments) in every gap of 7 texts; every tree with (leaves, depth, multipliers) (1,3,all) (2,2,all) (3,2,{1:2}) in 9 spellings; '
             'every sequence of 3 compilations of 7 texts, 2 of them malformed; lines up to 3 words',
    'thorough': 'rules up to 5 tokens over 18 and 6 over 10, top level 8, arguments 6, multipliers 6, actions 8, token arguments 7, runs of 4 characters, every pair of gaps, trees (1,4,all) (2,3,{2,0:2}) (3,2,{1:2,0:2})',
}
ASSUMPTIONS = ['a help text after the name of a grammar, hexadecimal numbers and a token argument after a named one are not documented and not judged',
               'a line comment holding a carriage return that is not part of a line break is not judged',
               'a bare name that is not defined before is a plain token',
               'texts are compiled with the tables of ply built once per process (fastply.py), except in the isolation family']
TASKS = 4


# ------------------------------------------------------------------ reader
class Reject(Exception):
    def __init__(self, eof=False):
        self.eof = eof


class Skip(Exception):
    pass


ESC = {'0': '\0', 'n': '\n', 'r': '\r', 't': '\t', 'b': '\b', 'v': '\v', 'a': '\a', '"': '"', '\\': '\\'}


def lex(s):
    """[(kind, value)] of a text, or Reject"""
    out, i, act = [], 0, False
    n = len(s)
    while i < n:
        c = s[i]
        two = s[i:i + 2]
        if c in ' \t\n\r':
            i += 1
        elif c == '\\' and s[i + 1:i + 2] in ('\n', '\r') and i + 1 < n:
            if act:                      # a line break cannot be escaped inside an action
                raise Skip() if s[i + 1] == '\r' else Reject()
            i += 2
        elif two == '/*':
            j = s.find('*/', i + 2)
            if j < 0:
                raise Reject()
            i = j + 2
        elif two == '//' or c == '#':
            j = i
            while j < n and s[j] != '\n' and not (act and s[j:j + 2] == '>>'):
                if s[j] == '\r' and s[j + 1:j + 2] != '\n':
                    raise Skip()
                j += 1
            i = j
        elif c == '"':
            j, v = i + 1, ''
            while True:
                if j >= n or s[j] in '\n\r\t\0':
                    raise Reject()
                if s[j] == '"':
                    break
                if s[j] == '\\':
                    if s[j + 1:j + 2] not in ESC or j + 1 >= n:
                        raise Reject()
                    v += ESC[s[j + 1]]
                    j += 2
                    continue
                v += s[j]
                j += 1
            out.append(('str', v))
            i = j + 1
        elif c == '$':
            m = re.compile(r'\$([0-9]+|[A-Za-z_][A-Za-z0-9_]*)').match(s, i)
            if not m:
                raise Reject()
            out.append(('dnum' if m.group(1)[0].isdigit() else 'dvar', m.group()))
            i = m.end()
        elif not act and two == '<<':
            out.append(('<<', None))
            act = True
            i += 2
        elif act and two == '>>':
            out.append(('>>', None))
            act = False
            i += 2
        elif c.isascii() and (c.isalpha() or c == '_'):
            m = re.compile(r'[A-Za-z_][-A-Za-z0-9_]*').match(s, i)
            out.append(('id', m.group()))
            i = m.end()
        else:
            m = re.compile(r'[+-]?(?:0|[1-9][0-9]*)?\.[0-9]+').match(s, i)
            if m and not re.match(r'[+-]?\d\d', s[i:]) or m and s[i:].lstrip('+-')[0] != '0':
                out.append(('num', float(m.group())))
                i = m.end()
                continue
            m = re.compile(r'[+-]?(?:0|[1-9][0-9]*)').match(s, i)
            if m:
                if m.group() == '0' and s[m.end():m.end() + 1] in ('x', 'X'):
                    raise Skip()
                out.append(('num', int(m.group())))
                i = m.end()
            elif c in '(){}[]|,:;*=&':
                out.append((c, None))
                i += 1
            else:
                raise Reject()
    return out + [('eof', None)]


class Spec:
    def __init__(self):
        self.g, self.t = {}, {}


class Parser:
    """Recursive descent over the token list; Reject(eof=True) when the text just stopped too early."""

    def __init__(self, toks):
        self.k, self.i, self.spec, self.leaf = toks, 0, Spec(), itertools.count()

    def peek(self, d=0):
        return self.k[min(self.i + d, len(self.k) - 1)][0]

    def no(self):
        raise Reject(self.peek() == 'eof')

    def eat(self, *kinds):
        if self.peek() not in kinds:
            self.no()
        self.i += 1
        return self.k[self.i - 1][1]

    def text(self):
        while self.peek() != 'eof':
            if self.peek() != 'id':
                self.no()
            if self.k[self.i][1] == 'token' and self.peek(1) not in (':', '['):
                self.tokens()
            else:
                self.grammar()
        return self.spec

    def tokens(self):
        self.eat('id')
        defs = [self.tokdef()]
        while self.peek() == ',':
            self.eat(',')
            defs.append(self.tokdef())
        self.eat(';')
        for nm, cls, args in defs:
            if nm in self.spec.t or nm in self.spec.g:
                raise Reject()
            self.spec.t[nm] = (cls, args)

    def tokdef(self):
        nm = self.eat('id')
        if self.peek() != 'id':
            return nm, None, ((), {})
        cls = self.eat('id')
        self.eat('(')
        args, named, odd = [], {}, False
        if self.peek() != ')':
            while True:
                by = None
                if self.peek() == 'id' and (self.k[self.i][1] not in ('True', 'False', 'None') or self.peek(1) == '='):
                    by = self.eat('id')
                    self.eat('=')
                if self.peek() == 'id' and self.k[self.i][1] in ('True', 'False', 'None'):
                    v = {'True': True, 'False': False, 'None': None}[self.eat('id')]
                else:
                    v = self.eat('num', 'str')
                if by is None and named or by in named:
                    odd = True           # a value after a named one, or two of one name: not documented
                if by is None:
                    args.append(v)
                else:
                    named[by] = v
                if self.peek() != ',':
                    break
                self.eat(',')
        self.eat(')')
        if odd:
            raise Skip()
        return nm, cls, (tuple(args), named)

    def grammar(self):
        nm = self.eat('id')
        params = []
        if self.peek() == '[':
            self.eat('[')
            if self.peek() != ']':
                while True:
                    p, d = self.eat('dvar'), None
                    if self.peek() == '=':
                        self.eat('=')
                        d = self.value('num', 'str', 'dvar')
                    params.append((p, d))
                    if self.peek() != ',':
                        break
                    self.eat(',')
            self.eat(']')
        self.eat(':')
        r = self.rule()
        self.eat(';')
        if len({p for p, _ in params}) < len(params):
            raise Reject()
        if nm in self.spec.g or nm in self.spec.t:
            raise Reject()
        self.spec.g[nm] = (tuple(params), r)

    def value(self, *kinds):
        k = self.peek()
        if 'const' in kinds and k == 'id' and self.k[self.i][1] in ('True', 'False', 'None'):
            return ('c', {'True': True, 'False': False, 'None': None}[self.eat('id')])
        v = self.eat(*kinds)
        return ('v', v) if k == 'dvar' else ('n', v) if k == 'dnum' else ('c', v)

    def rule(self):
        alts = [self.unit()]
        while self.peek() == '|':
            self.eat('|')
            alts.append(self.unit())
        return alts[0] if len(alts) == 1 else ('alt', tuple(alts))

    def unit(self):
        pre = self.actions()
        els = [self.element()]
        if self.peek() == ',':
            while self.peek() == ',':
                self.eat(',')
                els.append(self.element())
            n = ('set', tuple(els))
        else:
            while self.peek() in ('(', '{', 'id', 'str'):
                els.append(self.element())
            n = els[0] if len(els) == 1 else ('seq', tuple(els))
        return ('act', (pre, ()), n) if pre else n

    def element(self):
        n = self.term()
        post = self.actions()
        return ('act', ((), post), n) if post else n

    def term(self):
        k = self.peek()
        if k in '({':
            self.eat(k)
            n = self.rule()
            self.eat({'(': ')', '{': '}'}[k])
            if k == '{':
                n = ('opt', n)
        elif k == 'str':
            n = self.word(self.eat('str'))
        else:
            w = self.eat('id')
            if self.peek() == '[':
                args = self.args()
                if w not in self.spec.g:
                    raise Reject()
                n = self.ref(w, args)
            elif self.peek() == ':':
                n = self.word(w)
                if w in self.spec.g:
                    raise Skip()
            elif w in self.spec.g:
                n = self.ref(w, [])
            else:
                n = ('leaf', next(self.leaf), w, None)
        while self.peek() == '*':
            self.eat('*')
            n = self.times(n)
        return n

    def word(self, w):
        h = None
        if self.peek() == ':':
            self.eat(':')
            h = self.eat('str')
        return ('leaf', next(self.leaf), w, h)

    def times(self, n):
        paren = self.peek() == '('
        if paren:
            self.eat('(')
        lo = hi = self.integer()
        if paren:
            if self.peek() == ':':
                self.eat(':')
                hi = self.integer()
            self.eat(')')
        if lo < 0 or hi < 0 or hi == lo == 0:
            raise Reject()
        lo, hi = min(lo, hi), max(lo, hi)
        return n if hi == lo == 1 else ('opt', n) if (lo, hi) == (0, 1) else ('rep', n, lo, hi)

    def integer(self):
        v = self.eat('num')
        if not isinstance(v, int):
            raise Reject()
        return v

    def args(self):
        self.eat('[')
        out = []
        if self.peek() != ']':
            while True:
                if self.peek() == 'dvar' and self.peek(1) == '=':
                    p = self.eat('dvar')
                    self.eat('=')
                    out.append((p, self.value('dvar', 'dnum', 'num', 'str', 'const')))
                else:
                    out.append((None, self.value('dvar', 'dnum', 'num', 'str', 'const')))
                if self.peek() != ',':
                    break
                self.eat(',')
        self.eat(']')
        return out

    def ref(self, w, args):
        params, body = self.spec.g[w]
        names = [p for p, _ in params]
        b, kw = {}, False
        if len(args) > len(names):
            raise Reject()
        for p, v in args:
            if p is None:
                if kw:
                    raise Reject()
                p = [q for q in names if q not in b][0]
            else:
                kw = True
                if p in b or p not in names:
                    raise Reject()
            b[p] = v
        for p, d in params:
            b.setdefault(p, d or ('c', None))
        return ('ref', w, body, tuple(sorted(b.items())))

    def actions(self):
        out = []
        while self.peek() == '<<':
            self.eat('<<')
            while self.peek() != '>>':
                out.append(self.statement())
                self.eat(';')
            self.eat('>>')
        return tuple(out)

    def statement(self):
        if self.peek() == 'dvar':
            v = self.eat('dvar')
            self.eat('=')
            return ('=', v, self.operand())
        return self.call()

    def call(self):
        called = False
        if self.k[self.i] == ('id', 'call') and self.peek(1) == 'id':
            self.eat('id')
            called = True
        f = self.eat('id')
        self.eat('(')
        a = []
        if self.peek() != ')':
            a.append(self.operand())
            while self.peek() == ',':
                self.eat(',')
                a.append(self.operand())
        self.eat(')')
        return ('f', called, f, tuple(a))

    def operand(self):
        k = self.peek()
        if k == 'id' and not (self.k[self.i][1] in ('True', 'False', 'None') and self.peek(1) != '('):
            return self.call()
        return self.value('dvar', 'dnum', 'num', 'str', 'const')


def read(text):
    """('ok', spec) | ('reject', eof) | ('skip',)"""
    try:
        return ('ok', Parser(lex(text)).text())
    except Reject as e:
        return ('reject', e.eof)
    except Skip:
        return ('skip',)


class Unknown(Exception):
    """the value of an expression is not this property's business"""


def events(tree, env, out):
    n, ch = tree
    k = n[0]
    if k == 'leaf':
        return
    if k == 'act':
        do(n[1][0], env, out)
    sub = env
    if k == 'ref':
        sub = {p: value(v, env) for p, v in n[3]}
    for _, t in ch:
        events(t, sub, out)
    if k == 'act':
        do(n[1][1], env, out)


def value(v, env):
    if v[0] == 'c':
        return v[1]
    if v[0] == 'v' and v[1] in env:
        return env[v[1]]
    raise Unknown()


def do(sts, env, out):
    for s in sts:
        if s[0] == '=':
            env[s[1]] = value(s[2], env)
        elif s[1] and s[2] == 'ev':
            out.append(tuple(value(a, env) for a in s[3]))
        else:
            raise Unknown()


# ------------------------------------------------------------------ judging one text
class K(T.CliToken):
    """a token class that keeps what it was built with, and matches its name"""
    made = []

    def __init__(self, name, *args, cli=None, helpstring=None, **named):
        super().__init__(name, helpstring=helpstring, cli=cli)
        K.made.append((name, (args, named)))


class Kli(Cli):
    extra_tokens = (K,)


def words(n):
    k = n[0]
    if k == 'leaf':
        return {n[2]}
    if k in ('seq', 'alt', 'set'):
        return set().union(*[words(c) for c in n[1]])
    return words(n[1] if k in ('opt', 'rep') else n[2])


def compiled(text):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), limit(HANG_S):
        try:
            return compile_grammar(text)
        except Exception:
            return None


def judge(r, text, job, L=2, key=None, only=None):
    """compile the text and compare with the reader; returns the reader's verdict"""
    ref = read(text)
    r.states += 1
    if ref[0] == 'skip':
        r.extra['not judged'] += 1
        return ref
    got = compiled(text)
    r.traces += 1
    r.outcomes['%s -> %s' % (ref[0], 'compiled' if got is not None else 'rejected')] += 1
    if (got is not None) != (ref[0] == 'ok'):
        r.bad(key or 'compile %r' % text, dict(text=text), 'compiled' if ref[0] == 'ok' else 'rejected', 'compiled' if got is not None else 'rejected', job, size=len(text))
        return ref
    if got is not None:
        behave(r, Kli(got), ref[1], text, job, L, only)
    return ref


def behave(r, cli, spec, text, job, L, only=None):
    for g in ([g for g in only if g in spec.g] if only else spec.g):
        params, body = spec.g[g]
        if params:
            continue
        al = sorted(words(body))[:3]
        if any(not re.fullmatch('[a-z]+', w) or any(v != w and v.startswith(w) for v in al) for w in al):
            continue                     # words that begin each other are C06
        helps(r, cli, spec, g, body, text, job)
        for k in range(1, L + 1):
            for toks in itertools.product(al + (['zz'] if k <= 2 and len(al) < 2 else []), repeat=k):
                verdict(r, cli, spec, g, body, toks, text, job)
    for nm, (cls, args) in spec.t.items():
        made = [a for n, a in K.made if n == nm]
        if cls == 'K' and any(a != args for a in made):
            r.bad('token arguments %r' % text, dict(text=text, token=nm), args, made, job)
    K.made.clear()


def helps(r, cli, spec, g, body, text, job):
    _, nxt = Ref((), lambda k, t: k == t).run(body)
    want = {}
    for n in nxt:
        want.setdefault(n[2], set()).add(n[3])
    cli.enter_grammar(g)
    try:
        res = go(cli.match([''], dry_run=True, last_token_complete=False, arglist=[]))
    finally:
        cli.exit_grammar()
    got = {str(t): t.helpstring for t in res.next_tokens if not t == _elements.EndOfInpuToken}
    helped = {h for hs in want.values() for h in hs if h is not None}
    if set(got) != set(want) or any(got[w] not in hs and not (None in hs and (got[w] not in helped or got[w] == w)) for w, hs in want.items()):
        r.bad('help %r %s' % (text, g), dict(text=text, grammar=g), {k: sorted(map(str, v)) for k, v in want.items()}, got, job)


def verdict(r, cli, spec, g, body, toks, text, job):
    D, nxt = Ref(toks, lambda k, t: k == t).run(body)
    exp = []
    unknown = False
    for t in set(D):
        out = []
        try:
            events(t, {}, out)
        except Unknown:
            unknown = True
        if out not in exp:
            exp.append(out)
    res, st, evs = cli.line(' '.join(toks), g)
    r.transitions += 1
    if not D:
        want = 'partial' if nxt else 'failure'
        ok = res == want and not evs and st != 0
    elif unknown:
        return
    elif len(set(D)) == 1:
        want = 'success'
        ok = res == 'success' and evs == exp[0]
    else:
        want = 'success or ambiguous'
        ok = (res == 'success' and evs in exp) or (res == T.MATCH_AMBIGUOUS and not evs)
    if not ok:
        r.bad('%r :: %s %s' % (text, g, ' '.join(toks)), dict(text=text, grammar=g, line=' '.join(toks)), dict(result=want, events=exp), dict(result=res, status=st, events=evs), job,
              size=len(text) * 10 + len(toks))


# ------------------------------------------------------------------ families of token sequences
E1, E2 = '<<call ev("1");>>', '<<call ev("2");>>'
FAM = {
    # name: (before, after, alphabet, quick length, thorough length, grammars looked at, length of the lines)
    'rule': ('token t; s: "a" "b" <<call ev("s");>> ; g: ', ' ; h: "a" "b" ;', ['"a"', 't', 'u', 's', '(', ')', '{', '}', '|', ',', '*2', '*(0:2)', E1, E2, ':', ';', '[', ']'], 4, 5, None, 2),
    'core': ('g: ', ' ;', ['"a"', '"b"', '(', ')', '{', '}', '|', ',', '*(0:2)', E1], 5, 6, None, 3),
    'top': ('', '', ['token', 'x', 'y', ',', ';', ':', '"a"', '[', ']', '$p', '=', '1'], 7, 8, None, 1),
    'top2': ('token x; y: "a" ; ', ' z: x y ;', ['token', 'x', 'y', 'w', ',', ';', ':', '"a"', '(', ')'], 5, 7, None, 3),
    'args': ('s[$p, $q="d"]: "a" <<call ev($p, $q);>> ; g: "b" <<$v = "w";>> s[ ', ' ] ;', ['1', '"v"', '$p', '$q', '$r', '$v', '=', ',', 'True', '-2.5'], 5, 6, ['g'], 2),
    'noparam': ('s: "a" <<call ev("s");>> ; g: s[ ', ' ] ;', ['1', '"v"', '$p', '=', ','], 3, 5, ['g'], 2),
    'params': ('s[ ', ' ]: "a" <<call ev("s", $p);>> ; g: s["i"] ; h: s[$p="k"] ;', ['$p', '$q', '=', ',', '1', '"v"', 'True', 'p', '$1'], 5, 6, ['g', 'h'], 1),
    'times': ('g: "a" * ', ' <<call ev("1");>> ;', ['(', ')', ':', '0', '1', '2', '3', '-1', '1.5', '*', 't'], 6, 7, None, 4),
    'tokdef': ('token k K( ', ' ) ; g: k ;', ['1', '"v\\\\"', 'True', 'None', '-2.5', ',', '$p', 'k', '(', '=', 'z'], 5, 7, None, 1),
    'action': ('g: "a" << ', ' >> ;', ['call', 'ev', '(', ')', ';', '$x', '=', '1', '"s"', ',', '$1', 'True', ':', '"a" ;'], 6, 8, None, 1),
}


def extend(fam, seq, n, out):
    """all texts of the family whose token sequence starts with seq and has at most n tokens; a
    sequence no continuation of which is a grammar is taken up, but not extended"""
    before, after, al = FAM[fam][:3]
    out.append(seq)
    if len(seq) == n:
        return
    v = read(before + ' '.join(seq))
    if v[0] == 'reject' and not v[1] or v[0] == 'skip':
        return
    for a in al:
        extend(fam, seq + (a,), n, out)


def seqs(fam, first, n):
    out = []
    extend(fam, first, n, out)
    return out


def firsts(fam, k):
    out = []
    extend(fam, (), k, out)
    return out


# ------------------------------------------------------------------ characters and layout
SPECIAL = ['"', '\\', '/', '*', '#', '\n', '\r', ' ', 'a', '<', '>']
SPOTS = [('', 'g: "a" "b" ;\n h: "b" ;'), ('g: "a" ', ' "b" ;\n h: "b" ;'), ('g: "a" "b" ; ', ''), ('g: "a" << ', ' call ev("1"); >> "b" ;\n h: "b" ;'),
         ('g: "a" << call ev( ', ' "1"); >> "b" ;\n h: "b" ;')]
FILL = ['', ' ', '\t', '\n', '\r\n', '\r', ' \n\n\t ', '#\n', '# c\n', '# "\n', '# >x ; }\r\n', '//\n', '// c\n', '// /* \n', '/**/', '/* c */', '/***/', '/* ; " } */', '/* c\n d */',
        '/* // */', '/* a */ /* b */', '/* # */ # x */\n']
TEXTS = [
    ['token', 't', ';', 'g', ':', '"a"', ':', '"help"', 't', '|', '(', '"b"', '*', '(', '0', ':', '2', ')', ')', '<<', 'call', 'ev', '(', '"1"', ',', '2', ')', ';', '>>', ';'],
    ['token', 'k', 'K', '(', '-1', ',', '"#"', ',', 'x', '=', '2', ')', ',', 'b', ';', 'g', ':', 'k', ',', '{', 'b', '}', ',', '"c"', ';'],
    ['s', '[', '$p', ',', '$q', '=', '"//"', ']', ':', '"a"', '<<', 'call', 'ev', '(', '$p', ',', '$q', ')', ';', '>>', ';', 'g', ':', 's', '[', '"/*"', ']', '"b"', '|', 's', '[', '$q', '=', '1', ']', ';'],
    ['g', ':', '<<', '$v', '=', '"# >> */"', ';', '>>', '"a"', '*', '2', '<<', 'call', 'ev', '(', '$v', ')', ';', '>>', '<<', '>>', ';'],
    ['g', ':', '<<', '$v', '=', '-1.5', ';', 'call', 'ev', '(', '$v', ',', 'None', ')', ';', '>>', '(', '"a"', '*', '2', ')', '<<', 'call', 'ev', '(', '"\\""', ')', ';', '>>', ';'],
    ['h', '[', ']', ':', '"b"', ';', 'import', ':', 'h', '"a"', ';', 'g', ':', 'import', '*', '1', 'h', '[', ']', ';'],
    ['g', ':', '"b"', '"a"', '|', '"a"', '{', '"b"', '}', '*', '(', '2', ')', '|', '"c"', ':', '"h"', ';'],
]


def glue(toks, gaps):
    """the text with the fillers in gaps; neighbours that would run together keep a blank"""
    out = gaps.get(0, '')
    for i, t in enumerate(toks):
        f = gaps.get(i + 1)
        out += t
        nxt = toks[i + 1] if i + 1 < len(toks) else ''
        if f is None:
            f = ' '
        elif f == '' and nxt and (re.match(r'[-\w+.]', nxt) and re.search(r'[-\w$]$', t)):
            f = ' '
        out += f
    return out


# ------------------------------------------------------------------ spellings
def spell(n, how, names, top=False):
    """a text of the tree n in one of the spellings"""
    k = n[0]
    par = how == 'paren'

    def wrap(s):
        return '( ( %s ) )' % s if par else s
    if k == 'leaf':
        w = n[2] if how in ('declared', 'undeclared', 'after') else '"%s"' % n[2]
        s = '%s << call ev("%d"); >>' % (w, n[1])
        return wrap(s)
    sub = [spell(c, how, names) for c in (n[1] if k in ('seq', 'alt', 'set') else (n[1],))]
    if k == 'seq':
        s = ' '.join(sub)
    elif k == 'alt':
        s = ' | '.join(sub)
    elif k == 'set':
        s = ' , '.join(sub)
    elif k == 'opt':
        s = '( %s ) * (0:1)' % sub[0] if how == 'times' else '{ %s }' % spell(n[1], how, names, True)
        return wrap(s)
    else:
        lo, hi = n[2], n[3]
        b = '( %s )' % sub[0]
        if how == 'expand':
            if lo == 0:
                s = ''
            else:
                s = ' '.join([b] * lo)
            tail = ''
            for _ in range(hi - lo):
                tail = '{ %s %s }' % (b, tail)
            return '( %s %s )' % (s, tail)
        if how == 'named':
            nm = names('%s' % sub[0])
            b = nm
        if how == 'times':
            return '%s * (%d:%d)' % (b, hi, lo) if hi > lo else '%s * (%d)' % (b, lo)
        if how == 'twice' and lo == hi:
            return wrap('%s * (%d:%d)' % (b, lo, lo))
        return wrap('%s * (%d:%d)' % (b, lo, hi) if hi > lo else '%s * %d' % (b, lo))
    if top and not par:
        return s
    if how == 'named':
        return names(s)
    return wrap(s) if par else '( %s )' % s


HOWS = ['plain', 'paren', 'declared', 'undeclared', 'after', 'expand', 'named', 'times', 'twice']


def space(tier):
    if tier == 'quick':
        yield from ((g, 4) for g in grammars(1, 3))
        yield from ((g, 3) for g in grammars(2, 2))
        yield from ((g, 3) for g in grammars(3, 2, reps=((1, 2),)))
    else:
        yield from ((g, 5) for g in grammars(1, 4))
        yield from ((g, 4) for g in grammars(2, 3, reps=((2, 2), (0, 2))))
        yield from ((g, 3) for g in grammars(3, 2, reps=((1, 2), (0, 2))))


# ------------------------------------------------------------------ isolation
ISO = ['token a; g: a <<call ev("1");>> ;', 'g: "a" "b" <<call ev("2");>> ;', 'a: "b" ; g: a {a} <<call ev("3");>> ;', 'token g; a: g <<$x = 1;>> "b" ;',
       's[$p="1"]: "a" <<call ev($p);>> ; g: s["4"] | "b" ;', 'g: "a" << call ev("5" >> ;', 'g: "a" << call ev("6"); ']


def jobs(tier):
    q = tier == 'quick'
    for fam in FAM:
        n = FAM[fam][3 if q else 4]
        k = min(2 if fam in ('rule', 'core', 'top', 'action', 'args') else 1, n)
        if not q and fam in ('rule', 'core', 'top', 'action'):
            k = 3
        for f in firsts(fam, k):
            yield ('seq', fam, f, n if len(f) == k else len(f))
    for i in range(len(SPOTS)):
        for a in SPECIAL:
            yield ('chars', i, a, 3 if q else 4)
    for i in range(len(TEXTS)):
        yield ('ascii', i)
        for f in range(len(FILL)):
            yield ('layout', i, f, not q)
    for ch in chunks(space(tier), 40):
        for h in HOWS:
            yield ('spell', h, tuple(ch))
    for i in range(len(ISO)):
        yield ('iso', i)
    for lo in range(MOST + 1):
        yield ('bounds', lo)


def run(job, r):
    globals()['run_' + job[0]](job, r)


def run_seq(job, r):
    _, fam, first, n = job
    before, after, al, _, _, only, L = FAM[fam]
    for s in seqs(fam, first, n):
        text = before + ' '.join(s) + after
        judge(r, text, ('seq', fam, s, len(s)), L, only=only)
    r.sample('%s: %s' % (fam, text))


MOST = 12


def run_bounds(job, r):
    n = job[1]
    for m in ['%s' % n, '(%s)' % n, '0%d' % n, '(0%d:%d)' % (n, n + 1)] + ['(%d:%d)' % (n, k) for k in range(MOST + 1)]:
        judge(r, 'g: "a" * %s << call ev("1"); >> ;' % m, job, MOST + 1)
        if n % 5 == 2:
            judge(r, 'g: { ("a" "b") * %s << call ev("1"); >> } "c" ;' % m, job, 2)


def run_chars(job, r):
    _, i, a, n = job
    b, e = SPOTS[i]
    for x in strings(SPECIAL, n - 1):
        judge(r, b + a + x + e, job, 2)
    r.sample(repr(b + a + x + e))


def run_ascii(job, r):
    toks = TEXTS[job[1]]
    for g in range(len(toks) + 1):
        for c in [chr(k) for k in range(128)] + ['\u00e9', '\u3000', '\x85']:
            judge(r, glue(toks, {g: ' %s ' % c}), job, 1)


def run_layout(job, r):
    _, i, f, pairs = job
    toks = TEXTS[i]
    n = len(toks) + 1
    sets = [{g: FILL[f]} for g in range(n)] + [{g: FILL[f] for g in range(n)}]
    if pairs:
        sets += [{g: FILL[f], h: FILL[k]} for g in range(n) for h in (g + 1, g + 2, g + 5) if h < n for k in (0, 8, 15)]
    for gaps in sets:
        text = glue(toks, gaps)
        if judge(r, text, job, 2)[0] != 'ok':
            raise AssertionError('reader: ' + text)
    r.sample(repr(text))


def run_spell(job, r):
    _, how, gs = job
    text, defs = [], []

    def names(body):
        for nm, b in defs:
            if b == body:
                return nm
        defs.append(('n%d' % len(defs), body))
        return defs[-1][0] + ('[]' if len(defs) % 2 else '')

    for i, (g, n) in enumerate(gs):
        body = spell(g, how, names, True)
        text += ['%s: %s ;' % d for d in defs[len([t for t in text if t.startswith('n')]):]]
        text.append('g%d: %s ;' % (i, body))
    text = '\n'.join(text)
    if how == 'declared':
        text = 'token a, b; token c;\n' + text
    if how == 'after':
        text += '\ntoken c, b; token a;'
    spec = read(text)
    if spec[0] != 'ok':
        raise AssertionError('reader: ' + text)
    got = compiled(text)
    r.traces += 1
    if got is None:
        r.bad('spelling %s' % how, dict(text=text), 'compiled', 'rejected', job)
        return
    cli = Kli(got)
    for i, (g, n) in enumerate(gs):
        al = sorted(wordset(g))
        r.states += 1
        for k in range(1, n + 1):
            for toks in itertools.product(al, repeat=k):
                r.traces += 1
                body = _evs(g)
                D = set(Ref(toks, lambda a, b: a == b).run(g)[0])
                verdict(r, cli, spec, 'g%d' % i, body, toks, '%s as %s' % (show(g), how), (job[0], how, ((g, n),)))


def _evs(n):
    """the tree with the event of each keyword as an action"""
    k = n[0]
    if k == 'leaf':
        return ('act', ((), (('f', True, 'ev', (('c', str(n[1])),)),)), n)
    if k in ('seq', 'alt', 'set'):
        return (k, tuple(_evs(c) for c in n[1]))
    return (k, _evs(n[1])) + n[2:]


def run_iso(job, r):
    fastply.install(False)
    try:
        for j in range(len(ISO)):
            for k in range(len(ISO)):
                got = []
                for x in (job[1], j, k):
                    got.append((x, compiled(ISO[x])))
                clis = []
                for x, spec in got:
                    ref = read(ISO[x])
                    r.traces += 1
                    r.states += 1
                    if (spec is not None) != (ref[0] == 'ok'):
                        r.bad('compile after others', dict(texts=[ISO[i] for i in (job[1], j, k)], text=ISO[x]), ref[0], 'compiled' if spec else 'rejected', job)
                    elif spec is not None:
                        clis.append((x, ref[1], Kli(spec)))
                for x, ref, cli in clis + clis[::-1]:
                    behave(r, cli, ref, 'of %r: %s' % ((job[1], j, k), ISO[x]), job, 2)
    finally:
        fastply.install()
