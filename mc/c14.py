"""C14: operating-system arguments, every list over a small alphabet, on a command class and on real processes."""
import itertools, subprocess, tempfile
from core import *  # noqa
import c01

BOUNDS = {
    'quick': 'one argument: every text over 7 characters up to length 5 and over 16 characters up to length 3; two arguments: every pair of texts over 6 characters up to length 3 and 2; '
             'whole command lines: every list of up to 3 words of 22 over 13 commands (long-lived and class-level entry points, and a CLI that is no command class); every two uses, with arguments or a line, of 3 related classes with 3 commands; 48 lists given to a real process',
    'thorough': 'one argument up to length 6 over 7 characters and 4 over 16; pairs up to length 3 and 3; command lists of up to 4 words; every three uses of the classes; 300 lists given to a real process',
}
ASSUMPTIONS = ['an argument of blanks only is ignored (the tests of the repository require it), one of line breaks only is not judged',
               'an argument is "already a quoted token" when it is exactly one double-quoted section with its closing quote']
A7 = ('a', ' ', '"', '\\', 'n', '\n', '#')
A14 = A7 + ('\t', '\r', '\0', '\x07', "'", '\u00e9', '$', '\x0b', '\xa0')
A6 = ('a', ' ', '"', '\\', 'n', '\t')

WORDS = ['s', 'two', 'many', 'num', 'big cat', '"big cat"', 'big', 'alt', 'red', 'r', 'a b', 'opt', 'w', 'so', 'sox', '7', '007x', 'end', '', ' ', 'x"', '"q"']

TOKENS = 'token S StringToken(); token RI RangedIntToken(1, 20); token ALT AlternativeStringsToken("red", "reed", "a b");\n'


class K(NessaidCmd):
    __doc__ = TOKENS

    def __init__(self, **kw):
        self.events = []
        self.out, self.err = io.StringIO(), io.StringIO()
        kw.setdefault('loop', loop())
        super().__init__(stdin=io.StringIO(), stdout=self.out, stderr=self.err, **kw)

    def get_token_classes(self):
        return ALL_TOKENS

    def rec(self, *a):
        self.events.append(a)

    def do_s(self, v):
        '''"s" S << $v = $2; >>'''
        self.rec('s', v)

    async def do_two(self, v, w):
        '''"two" S S << $v = $2; $w = $3; >>'''
        self.rec('two', v, w)

    def do_many(self, l):
        '''<< $l = list(); >> "many" (S << append($l, $1); >>) * (1:3)'''
        self.rec('many', list(l))

    def do_num(self, v):
        '''"num" RI << $v = $2; >>'''
        self.rec('num', v)

    def do_big(self, v):
        '''"big cat" S << $v = $2; >>'''
        self.rec('big', v)

    def do_alt(self, v):
        '''"alt" ALT << $v = $2; >>'''
        self.rec('alt', v)

    def do_opt(self, v):
        '''"opt" { S << $v = $1; >> } "end"'''
        self.rec('opt', v)

    def do_amb(self):
        '''"w" ("x" | "x")'''
        self.rec('w')

    def do_so(self):
        '''"so"'''
        self.rec('so')

    def do_sox(self):
        '''"sox"'''
        self.rec('sox')

    def do_bad(self):
        '''"end"'''
        self.rec('end')
        raise ValueError('the handler fails, the command was accepted')


PLAIN = ['s', 'two', 'num', 'so', 'sox', '7', 'a', '"a b"', '"a', 'x y', '']
KEYS = ['s', 'two', 'many', 'num', 'big cat', 'alt', 'opt', 'w', 'so', 'sox', 'end']


def word(arg):
    """(value, plain) an argument stands for, None for an ignored one; a quoted token is never an abbreviation"""
    if not arg.strip(' \t'):
        return None
    toks = c01.scan(arg)
    if toks and len(toks) == 1 and toks[0][2] and not toks[0][3] and toks[0][0] == arg:
        import c02
        return c02.value(arg, True, False), arg
    return arg, None


def pick(w, keys):
    """The keyword a word stands for: exact, or the only one it abbreviates"""
    v, quoted = w
    if quoted is not None:
        # in typed form keywords with blanks are quoted, others are not
        return v if v in keys and ' ' in v else None
    if v in keys and ' ' not in v:
        return v
    if v in keys and ' ' in v:
        return v                      # quoted for the command line it is the keyword's typed form
    if any(c in v for c in ' \t\n\r\0\\"\b\a\v'):
        return None
    c = [k for k in keys if k.startswith(v) and ' ' not in k]
    return c[0] if len(c) == 1 else None


def expect(args):
    """(accepted, event) by the documented meaning of the commands; None when not judged"""
    ws = [w for w in map(word, args) if w is not None]
    if not ws:
        return False, None
    k = pick(ws[0], KEYS)
    rest = ws[1:]
    n = len(rest)
    vals = [w[0] for w in rest]
    if k == 's' and n == 1:
        return True, ('s', vals[0])
    if k == 'two' and n == 2:
        return True, ('two', vals[0], vals[1])
    if k == 'many' and 1 <= n <= 3:
        return True, ('many', vals)
    if k == 'num' and n == 1:
        if rest[0][1] is None and vals[0].isascii() and vals[0].isdigit() and 1 <= int(vals[0]) <= 20:
            return True, ('num', int(vals[0]))
        return False, None
    if k == 'big cat' and n == 1:
        return True, ('big', vals[0])
    if k == 'alt' and n == 1:
        a = pick(rest[0], ['red', 'reed', 'a b'])
        return (True, ('alt', a)) if a else (False, None)
    if k == 'opt' and 1 <= n <= 2:
        end = pick(rest[-1], ['end'])
        if n == 2:
            return (True, ('opt', vals[0])) if end else (False, None)
        return (True, ('opt', '')) if end else (False, None)
    if k in ('so', 'sox', 'end') and n == 0:
        return True, (k,)
    return False, None


_cli = {}


def cli():
    if 'k' not in _cli:
        _cli['k'] = K(prompt='# ', disable_default_hooks=True)
    return _cli['k']


def call(c, args):
    c.events = []
    with limit():
        return c.exec_args(*args)


def c_line(c, line):
    c.events = []
    with limit():
        return loop().run_until_complete(c.exec_line(line)), c.events


def plain(e):
    return [list(x) if isinstance(x, tuple) else x for x in e]


def check(r, job, args, via='object'):
    if any(a and a.strip(' \t') and not a.strip() for a in args):
        r.outcomes['not judged'] += 1
        return
    ok, ev = expect(args)
    c = cli()
    st = call(c, args)
    r.traces += 1
    r.transitions += 1
    r.outcomes['%s: %s' % ('accepted' if st == 0 else 'not accepted', ev[0] if ev else '-')] += 1
    want = [ev] if ok else []
    if (st == 0) != ok or c.events != want or not isinstance(st, int):
        r.bad('%s %r' % (args[0] if args else '', args[1:]), {'args': list(args), 'via': via}, {'status': 0 if ok else 'not 0', 'calls': plain(want)}, {'status': st, 'calls': plain(c.events)}, job)


PROG = '''
import sys
sys.path.insert(0, %(repo)r)
from nessaid_cli.cmd import NessaidCmd
import nessaid_cli.tokens as T


class P(NessaidCmd):
    """%(tokens)s"""
    def get_token_classes(self):
        return [T.StringToken, T.RangedIntToken, T.AlternativeStringsToken]

    def do_s(self, v):
        \'\'\'"s" S << $v = $2; >>\'\'\'
        print("CALL", ascii(("s", v)))

    async def do_two(self, v, w):
        \'\'\'"two" S S << $v = $2; $w = $3; >>\'\'\'
        print("CALL", ascii(("two", v, w)))

    def do_num(self, v):
        \'\'\'"num" RI << $v = $2; >>\'\'\'
        print("CALL", ascii(("num", v)))


sys.exit(P.execute_args(*sys.argv[1:]) if %(cls)d else P(prompt="# ").exec_args(*sys.argv[1:]))
'''
PTEXTS = ['a', 'a b', 'a"b', '"a b"', '"', '""', '"a" "b"', 'a\\', '\\n', '\n', 'a\tb', ' a ', '# a', '$1', '\u00e9', '--x=1 2', "it's"]


def processes(tier):
    lists = [['s', t] for t in PTEXTS if t.strip()] + [['two', a, b] for a in PTEXTS[:9] for b in PTEXTS[3:9]][::2] + [['num', '7'], ['num', '21'], ['num'], ['x'], [], ['two', 'a'], ['s', ''], ['s', ' ', 'a']]
    if tier == 'thorough':
        lists += [['two', a, b] for a in PTEXTS for b in PTEXTS if a.strip() and b.strip()]
    return lists


def jobs(tier):
    q = tier == 'quick'
    for a in A7:
        for b in A7 if not q else ('',):
            yield ('one', 7, 5 if q else 6, a + b)
    for a in A14:
        yield ('one', 14, 3 if q else 4, a)
    for i in range(16):
        yield ('pair', 3, 2 if q else 3, i)
    for i in range(len(WORDS)):
        yield ('words', 3 if q else 4, i)
    for i in range(16):
        yield ('process', tier, i)
    for i in range(8):
        yield ('class', tier, i)
    yield ('plain', 3 if q else 4)


def run(job, r):
    if job[0] == 'one':
        _, k, n, first = job
        alpha = A7 if k == 7 else A14
        if len(first) == 2 and first[1] == A7[0]:
            check(r, job, ('s', first[0]))
            r.states += 1
        for t in strings(alpha, n - len(first)):
            r.states += 1
            check(r, job, ('s', first + t))
        r.sample({'argument': first + t})
    elif job[0] == 'pair':
        _, n, m, i = job
        for a in list(strings(A6, n))[i::16]:
            for b in strings(A6, m):
                r.states += 1
                check(r, job, ('two', a, b))
        r.sample({'arguments': [a, b]})
    elif job[0] == 'words':
        _, n, i = job
        for k in range(n):
            for rest in itertools.product(WORDS, repeat=k):
                r.states += 1
                check(r, job, (WORDS[i],) + rest)
        if i == 0:
            check(r, job, ())
    elif job[0] == 'plain':
        # a CLI that is no command class joins its arguments with blanks
        c = build(TOKENS + 'g: "s" S << call ev("s", $2); >> | "two" S S << call ev("two", $2, $3); >> | "num" RI << call ev("num", $2); >> | "so" << call ev("so"); >> | "sox" << call ev("sox"); >>;\n',
                  prompt='# ')
        for k in range(1, job[1] + 1):
            for args in itertools.product(PLAIN, repeat=k):
                want = c.line(' '.join(args), 'g')
                c.events = []
                c.enter_grammar('g')
                try:
                    with limit():
                        st = c.exec_args(*args)
                finally:
                    c.exit_grammar()
                r.states += 1
                r.traces += 1
                r.transitions += 1
                r.outcomes['plain: status %s' % ('0' if st == 0 else 'not 0')] += 1
                if (st, c.events) != (want[1], want[2]):
                    r.bad('plain %s' % (args,), {'args': list(args), 'via': 'plain CLI'}, {'status': want[1], 'calls': want[2]}, {'status': st, 'calls': c.events}, job)
    elif job[0] == 'class':
        # the class-level entry points construct a command object of their own
        _, tier, i = job
        seen = []

        class L(K):
            def rec(self, *a):
                seen.append(a)
        L.__doc__ = K.__doc__          # the class grammar is the docstring of the class itself
        L.base_class_grammar = property(lambda self: '')
        lists = [(a, b) for a in ('s', 'num', 'alt', 'big cat', 'end', 'w', 'x') for b in WORDS][i::8]
        for args in lists:
            ok, ev = expect(args)
            asyncio.set_event_loop(loop())
            del seen[:]
            with limit():
                st = L.execute_args(*args)
            r.traces += 1
            r.transitions += 1
            r.states += 1
            if (st == 0) != ok or seen != ([ev] if ok else []):
                r.bad('class %s' % (args,), {'args': list(args), 'via': 'class'}, {'status': 0 if ok else 'not 0', 'calls': [ev] if ok else []}, {'status': st, 'calls': list(seen)}, job)
        # and so does the one that takes a line
        for a in lists[::3]:
            line = ' '.join(w for w in a if w.strip())
            st0, want = c_line(cli(), line)
            del seen[:]
            with limit():
                st = loop().run_until_complete(L.execute_line(line))
            r.traces += 1
            r.transitions += 1
            if (st == 0) != (st0 == 0) or seen != want:
                r.bad('class line %s' % line, {'line': line, 'via': 'class'}, {'status': st0, 'calls': want}, {'status': st, 'calls': list(seen)}, job)
        # each class has the commands of its own, whichever was used before
        for seq in list(itertools.chain(*(itertools.product(itertools.product('LMN', ('so', 'more', 'only'), ('args', 'line')), repeat=k) for k in (1, 2) + (3,) * (tier != 'quick'))))[i::8]:
            class L(NessaidCmd):
                def do_so(self):
                    '''"so"'''
                    seen.append('so of ' + self.name)
                name = 'L'

            class M(L):
                def do_more(self):
                    '''"more"'''
                    seen.append('more of ' + self.name)
                name = 'M'

            class N(L):
                def do_only(self):
                    '''"only"'''
                    seen.append('only of ' + self.name)
                name = 'N'
            has = dict(L=('so',), M=('so', 'more'), N=('so', 'only'))
            for k, w, how in seq:
                asyncio.set_event_loop(loop())
                del seen[:]
                with limit():
                    if how == 'line':
                        st = loop().run_until_complete(dict(L=L, M=M, N=N)[k].execute_line(w))
                    else:
                        st = dict(L=L, M=M, N=N)[k].execute_args(w)
                ok = w in has[k]
                want = ['%s of %s' % (w, k)] * ok
                r.traces += 1
                r.transitions += 1
                if (st == 0) != ok or seen != want:
                    r.bad('classes %s' % (seq,), {'used': list(seq), 'via': 'classes'}, {'status': 0 if ok else 'not 0', 'calls': want}, {'status': st, 'calls': list(seen)}, job, size=len(seq))
                    break
            r.states += 1
            r.outcomes['classes used in turns'] += 1
    else:
        _, tier, i = job
        d = tempfile.mkdtemp(prefix='c14-')
        try:
            for cls in (0, 1):
                with open(os.path.join(d, 'p%d.py' % cls), 'w') as f:
                    f.write(PROG % {'repo': REPO, 'tokens': TOKENS.replace('"', '\\"'), 'cls': cls})
            for j, args in list(enumerate(processes(tier)))[i::16]:
                p = subprocess.run([sys.executable, '-B', '-W', 'ignore', os.path.join(d, 'p%d.py' % (j % 2))] + args, capture_output=True, text=True, encoding='utf-8', stdin=subprocess.DEVNULL,
                                   timeout=60, env=dict(os.environ, PYTHONIOENCODING='utf-8', TERM='dumb'))
                calls = [eval(l[5:]) for l in p.stdout.splitlines() if l.startswith('CALL ')]
                if any(a and a.strip(' \t') and not a.strip() for a in args):
                    continue
                ok, ev = expect(args)
                if args and args[0] == 'x':
                    ok, ev = False, None
                r.traces += 1
                r.transitions += 1
                r.states += 1
                r.outcomes['process exit %s' % ('0' if p.returncode == 0 else 'not 0')] += 1
                if (p.returncode == 0) != ok or calls != ([ev] if ok else []) or 'Traceback' in p.stderr:
                    r.bad('process %r' % args, {'args': args, 'via': 'process'}, {'exit': 0 if ok else 'not 0', 'calls': [ev] if ok else []},
                          {'exit': p.returncode, 'calls': calls, 'stderr': p.stderr[-300:]}, job)
        finally:
            for f in os.listdir(d):
                os.remove(os.path.join(d, f))
            os.rmdir(d)
