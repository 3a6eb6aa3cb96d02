"""C15: the command loop on every small command file followed by every small typed session."""
import itertools, re, shutil, tempfile
from core import *  # noqa
import nessaid_cli.cmd as _cmd
import fake
from fake import EOF, INTR
from c01 import scan
from c02 import value as read0

BOUNDS = {
    'quick': 'main command file: every sequence of at most 2 lines from a menu of 25, of 3 lines from a menu of 12 (commands, comments, joined lines, lines joined inside quotes, blanks, failing '
             'and invalid lines, raising handlers, files to load, requests for input, exit); 15 loadable files (empty, blank, missing, undecodable, a directory, nested to depth 3, '
             'ending joined, ending with a request for input, with exit); followed by every typed sequence of at most 2 entries from a menu of 9 with CTRL+C and end of file '
             '(files of 2: at most 1 entry); typed sequences of at most 3 entries from a menu of 16 without a file; a subset on a command class; files of 4 lines and files of 2 lines with 2 typed entries from a menu of 14 lines that open (also with a file of their own) '
             'and leave nested command contexts, to any depth',
    'thorough': 'files of 3 lines from the whole menu, of 4 lines from the menu of 12; typed sequences of at most 4 entries; with contexts files of 5 lines, 2 lines and 3 entries',
}
ASSUMPTIONS = ['the terminal is a scripted stand-in for the readline package with the same calls',
               'a joined line is a comment when the joined text starts with #', 'blanks at the end of file lines do not count',
               'files added by one handler are added one at a time', 'compiled grammars of equal text are shared between the CLIs of one job']
TASKS = 1000

FILES = {
    'empty': '', 'blank': '\n\n', 'one': 'say n1\n', 'two': 'say n2\nsay n3', 'bad': b'say x\n\xff\xfe\x80\nsay y\n', 'nest': 'say n4\nload two\nsay n5\n',
    'tail': 'say n6\nload one\n', 'deep': 'load nest\nsay n7\nload empty\nsay n8\n', 'lone': 'load empty\n', 'back': 'say n9 \\\n', 'asks': 'ask v\nsay na\n', 'aske': 'say nb\nask v\n',
    'note': '# say nc\n', 'out': 'quit\nsay nd\n', 'subs': 'sub\nsay ne\nload one\nquit\nsay nf\nsub\nsay ng',
}
# {i} is replaced by a letter of the position
NEST = ['sub', 'subf', 'quit', 'say {i}', 'load one', 'load aske', 'load nest', 'load subs', 'say {i} \\', 'ask d', 'inp', 'boom {i}', 'fly {i}', '# {i}']
MENU = ['say {i}', 'say {i} \\', 'say {i} \\ ', '\\', 'say "{i} \\', '# say {i}', '  # say {i} \\', '', '  ', 'fly {i}', 'say {i} {i}', 'say a\\b{i}', 'boom {i}', 'ask v', 'ask h', 'ask s', 'ask n', 'ask d',
        'inp', 'quit', 'load one', 'load empty', 'load nest', 'load missing', 'load aske']
SMALL = ['say {i}', 'say {i} \\', '# say {i}', '', 'fly {i}', 'boom {i}', 'ask v', 'ask h', 'inp', 'load two', 'load lone', 'load back']
TYPED = ['say {i}', 'say {i} \\', '\t# {i}', 'ask h', 'load one', 'quit', '', INTR, EOF]
TYPED2 = TYPED + ['say {i} \\\t ', 'boom {i}', 'say "{i} \\', 'say a\\b{i}', 'ask s', 'load deep', 'load bad']
LOADS = sorted(FILES) + ['missing', 'dir']

KEYS = ('say', 'boom', 'load', 'ask', 'inp', 'quit')
GRAMMAR = '''token S StringToken();
g: "say" S << call ev("say", $2); >> | "boom" S << call boom($2); >> | "load" S << call load($2); >> | "ask" S << call ask($2); >>
 | "inp" << $x = input("in>", False); call ev("inp", $x); >> | "quit" << call quit(); >>;
'''
ASKS = {'v': [('v>', True, False)], 'h': [('h>', False, False)], 's': [('s>', True, True)], 'n': [('n>', False, False)],
        'd': [('d1>', True, False), ('d2>', False, False)]}


class Mix:
    dir = None

    async def load(self, name):
        self.add_file_to_execute(os.path.join(self.dir, name))
        self.ev('load', name)

    async def boom(self, x):
        self.ev('boom', x)
        raise ValueError('boom')

    async def ask(self, mode):
        for p, show, term in ASKS[mode]:
            kw = {'from_stdin': True} if term else {}
            if mode == 'n':
                kw['show_prompt_for_file_lines'] = False
            self.ev('got', await self.input(p, show, **kw))

    async def quit(self):
        self.ev('quit')
        self.exit_loop()

    async def sub(self):
        self.ev('sub')
        await self.enter_context(Sub, prompt='C' + self.prompt)

    async def subf(self):
        self.ev('subf')
        await self.enter_context(Sub, prompt='C' + self.prompt, filename=os.path.join(self.dir, 'tail'))


class Loop(Mix, Cli):
    def ev(self, *a):
        if not self.readline.ended:
            self.events.append(a)


class Cmd(Mix, NessaidCmd):
    """token S StringToken();"""

    def __init__(self, **kw):
        self.events = []
        self.out, self.err = io.StringIO(), io.StringIO()
        super().__init__(loop=loop(), stdin=io.StringIO(), stdout=self.out, stderr=self.err, prompt='P>', disable_default_hooks=True, **kw)

    ev = Loop.ev

    def do_say(self, x):
        """"say" S << $x = $2; >>"""
        self.ev('say', x)

    async def do_boom(self, x):
        """"boom" S << $x = $2; >>"""
        await self.boom(x)

    async def do_load(self, x):
        """"load" S << $x = $2; >>"""
        await self.load(x)

    async def do_ask(self, x):
        """"ask" S << $x = $2; >>"""
        await self.ask(x)

    def do_inp(self, x):
        """"inp" << $x = input("in>", False); >>"""
        self.ev('inp', x)

    async def do_quit(self):
        """"quit" """
        await self.quit()

    async def do_sub(self):
        """"sub" """
        await self.sub()

    async def do_subf(self):
        """"subf" """
        await self.subf()


class Sub(Cmd):
    ""

    def __init__(self, **kw):
        NessaidCmd.__init__(self, **kw)

    def ev(self, *a):
        top = self
        while top.parent:
            top = top.parent
        if not self.readline.ended:
            top.events.append(a + (self.prompt,))

    @property
    def dir(self):
        return self.parent.dir


class End(Exception):
    pass


class Line:
    """What the loop must do, from the statement alone."""

    def __init__(self, main, typed, keys=KEYS):
        self.keys = keys
        self.files = []
        self.typed = list(typed)
        self.events, self.reads, self.hidden, self.seen, self.echo = [], [], [], [], []
        self.prompt = 'P>'
        self.failed = 0
        self.push(main)

    def push(self, text):
        if text is None or isinstance(text, bytes):
            return
        lines = [l.rstrip() for l in text.split('\n')]
        if lines and text.endswith('\n') or text == '':
            lines.pop()
        if lines:
            self.files.append(lines)

    def next(self, prompt, show=True, term=False):
        if self.files and not term:
            l = self.files[-1].pop(0)
            if not self.files[-1]:
                self.files.pop()
            (self.seen if show else self.hidden).append(l)
            self.echo.append((prompt, l if show else None))
            return l
        self.reads.append((prompt, not show))
        if not self.typed:
            raise End()
        return self.typed.pop(0)

    def ask(self, prompt, show, term, told=True):
        l = self.next(prompt if told or term or not self.files else '', show, term)
        return '' if l in (EOF, INTR) else l

    def run(self):
        joined = None
        try:
            while True:
                l = self.next(self.prompt if joined is None else None)
                if l == INTR:
                    joined = None
                    continue
                if l == EOF:
                    continue
                l = (joined or '') + l
                joined = None
                if l.rstrip().endswith('\\'):
                    joined = l.rstrip()[:-1]
                    continue
                if l.lstrip().startswith('#'):
                    continue
                if self.command(l) == 'quit':
                    if self.prompt == 'P>':
                        return
                    self.prompt = self.prompt[1:]
        except End:
            pass

    def command(self, l):
        toks = scan(l)
        if not toks:
            self.failed += toks is None
            return
        w = toks[0][0]
        if w not in self.keys or len(toks) != (1 if w in ('inp', 'quit', 'sub', 'subf') else 2):
            self.failed += 1
            return
        x = read0(toks[1][0], toks[1][2], toks[1][3]) if len(toks) > 1 else None
        if w == 'say':
            self.note('say', x)
        elif w == 'boom':
            self.note('boom', x)
            self.failed += 1
        elif w == 'load':
            self.push(FILES.get(x))
            self.failed += not isinstance(FILES.get(x), str)
            self.note('load', x)
        elif w == 'ask':
            for p, show, term in ASKS.get(x, ()):
                self.note('got', self.ask(p, show, term, x != 'n'))
        elif w == 'inp':
            self.note('inp', self.ask('in>', False, False))
        elif w in ('sub', 'subf'):
            self.note(w)
            self.prompt = 'C' + self.prompt
            if w == 'subf':
                self.push(FILES['tail'])
        else:
            self.note('quit')
            return 'quit'

    def note(self, *a):
        self.events.append(a + ((self.prompt,) if self.prompt != 'P>' else ()))


_dir = None


def scratch():
    """A directory of this process with the loadable files, removed when the process ends its jobs"""
    global _dir
    _dir = tempfile.mkdtemp(prefix='mc15')
    for n, t in FILES.items():
        with open(os.path.join(_dir, n), 'wb') as f:
            f.write(t if isinstance(t, bytes) else t.encode())
    os.mkdir(os.path.join(_dir, 'dir'))
    return _dir


def name(seq, start):
    return tuple(x if isinstance(x, tuple) else x.replace('{i}', 'abcdefghijklm'[i + start]) for i, x in enumerate(seq))


_set = None
_real = getattr(_cmd, 'compile_grammar', compile_grammar)
_memo = {}


def cached(text):
    if text not in _memo:
        _memo[text] = _real(text)
    return _memo[text]


def execute(kind, d, main, typed):
    global _set
    path = None
    if main is not None:
        path = os.path.join(d, 'main')
        with open(path, 'w') as f:
            f.write(main)
    if kind == 'cli':
        _set = _set or compile_grammar(GRAMMAR)
        c = Loop(_set, prompt='P>', filename=path)
    else:
        c = Cmd(filename=path)
    c.dir = d
    c.readline.script = list(typed)
    try:
        with limit():
            loop().run_until_complete(c.cmdloop('g') if kind == 'cli' else c.cmdloop())
    except fake.EndOfScript:
        pass
    return c


def check(r, job, kind, d, main, typed):
    ref = Line(main, typed, KEYS + ('sub', 'subf') if kind == 'cmd' else KEYS)
    ref.run()
    c = execute(kind, d, main, typed)
    r.states += 1
    r.traces += 1
    r.transitions += len(c.events) + len(c.readline.log)
    reads = [(p, h) for _, p, h in c.readline.log]
    want = ref.reads[:len(reads)]
    ok = len(reads) == len(ref.reads) and all((w[0] is None or w[0] == g[0]) and w[1] == g[1] for w, g in zip(want, reads))
    case = {'cli': kind, 'file': main, 'typed': typed}
    if c.events != ref.events:
        r.bad('order', case, ref.events, c.events, job)
    elif not ok:
        r.bad('reads', case, ref.reads, reads, job)
    out, err = c.out.getvalue(), c.err.getvalue()
    for h in ref.hidden:
        if h.strip() and (out.count(h) > sum(v.count(h) for v in ref.seen) or (' ' in h and h in err and not any(h in v for v in ref.seen))):
            r.bad('echo', case, 'hidden: ' + h, out, job)
    # every file line is shown as it would be when typed at the prompt, in order
    pos = 0
    for p, l in ref.echo:
        m = re.compile((re.escape(p) if p else '') + (r'\**' if l is None else re.escape(l)) + r'[ \t\r]*\n').search(out, pos)
        if not m:
            r.bad('echo of file lines', case, 'shown: %r %r' % (p, l), out, job)
            break
        pos = m.end()
    if bool(err) != bool(ref.failed):
        r.bad('report', case, 'something reported' if ref.failed else 'nothing reported', err, job)
    r.outcomes['%d events %d reads' % (len(ref.events), len(ref.reads))] += 1
    if ref.hidden:
        r.extra['hidden file lines'] += len(ref.hidden)


def jobs(tier):
    t = tier == 'thorough'
    out = []
    for f in [None, ''] + MENU:
        out.append(('cli', (f,), 3 if t else 2, 'T'))
    for f in itertools.product(MENU, repeat=2):
        out.append(('cli', f, 2 if t else 1, 'T'))
    for f in itertools.product(SMALL, repeat=2):
        out.append(('3', f, 0, 'T'))
        if t:
            out.append(('4', f, 0, 'T'))
    if t:
        for f in itertools.product(MENU, repeat=2):
            out.append(('3m', f, 0, 'T'))
    for a in TYPED2:
        out.append(('typed', (a,), 4 if t else 3, 'T2'))
    for n in LOADS:
        for m in ('load %s' % n, 'say a\nload %s\nsay b\n' % n, 'load %s\nload %s\nsay b' % (n, n), 'say a \\\nload %s\nsay b\nload %s' % (n, n)):
            out.append(('raw', (m,), 1, 'T'))
        out.append(('typedload', (n,), 2, 'T'))
    for f in [None] + MENU:
        out.append(('cmd', (f,), 2 if t else 1, 'T'))
    for f in itertools.product(NEST, repeat=2):
        if {'sub', 'subf', 'load subs'} & set(f):
            out.append(('nest', f, 2 if t else 1, 3 if t else 2))
    # small jobs in batches
    big = [j for j in out if j[0] in ('typed', 'nest', '3', '4', '3m')]
    rest = [j for j in out if j not in big]
    return [tuple(b) for b in chunks(big, 6)] + [tuple(b) for b in chunks(rest, 25)]


def run(job, r):
    fake.install()
    _cmd.compile_grammar = cached
    d = scratch()
    try:
        for j in job:
            one(j, r, d, (j,))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def one(j, r, d, job):
    kind, f, n, _menu = j
    menu = _menu
    menu = TYPED2 if menu == 'T2' else TYPED
    cli = 'cmd' if kind == 'cmd' else 'cli'
    if kind in ('cli', 'cmd'):
        if f[0] is None:
            mains = [(None, 0)]
        else:
            mains = [('\n'.join(name(f, 0)) + e, len(f)) for e in (('\n', '') if len(f) < 2 else ('\n',))]
        for m, k in mains:
            for l in range(n + 1):
                for t in itertools.product(menu, repeat=l):
                    check(r, job, cli, d, m, name(t, k))
    elif kind in ('3', '4', '3m'):
        for rest in itertools.product(MENU if kind == '3m' else SMALL, repeat=2 if kind == '4' else 1):
            g = f + rest
            check(r, job, cli, d, '\n'.join(name(g, 0)) + '\n', name(('say {i}', 'say {i}'), len(g)))
    elif kind == 'typed':
        for l in range(n):
            for t in itertools.product(menu, repeat=l):
                check(r, job, cli, d, None, name(f + t, 0))
    elif kind == 'nest':
        for rest in itertools.product(NEST, repeat=n):
            g = f + rest
            check(r, job, 'cmd', d, '\n'.join(name(g, 0)) + '\n', name(('say {i}', 'quit', 'say {i}', INTR, 'say {i}'), len(g)))
        for rest in itertools.product(NEST[:11] + [EOF, INTR], repeat=_menu):
            g = name(f + rest, 0)
            check(r, job, 'cmd', d, '\n'.join(g[:1]) + '\n', g[1:])
            check(r, job, 'cmd', d, None, g)
    elif kind == 'typedload':
        for l in range(n + 1):
            for t in itertools.product(menu, repeat=l):
                check(r, job, cli, d, None, name(('load ' + f[0],) + t, 0))
    else:
        for l in range(n + 1):
            for t in itertools.product(menu, repeat=l):
                check(r, job, cli, d, f[0], name(t, 5))
