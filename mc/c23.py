"""C23: the one terminal of nested contexts, the real line editor fed with keys, against a stack machine."""
import itertools
from core import *  # noqa
import nessaid_cli.cmd as _cmd
import fake
from c16 import cached, _real

try:
    from nessaid_readline.async_readline import NessaidAsyncReadline as Editor
    from nessaid_readline.key import KEY_NAME_MAP
except Exception:                                            # pragma: no cover
    Editor, KEY_NAME_MAP = object, {}

BOUNDS = {
    'quick': 'six kinds of context (bell on, bell off with fallback to the parent, one that changes bell, history size and history filter of the terminal itself, one whose start-up fails, one '
             'that leaves at once with a failing exit hook, one that cannot be created) opening each other to any depth; every session of at most 3 lines from a menu of 19 (also two contexts '
             'opened by one handler, one only created, a hidden and a shown request for input, an executed line that fails, the bell switched by its key, CTRL+C), of 4 lines from a menu of 9, x bell of the '
             'outermost CLI x completion key x 3 ways of starting up; at every prompt the completion key is pressed; a second loop after every session',
    'thorough': 'sessions of 4 lines from the menu of 19, of 5 lines from the menu of 9',
}
ASSUMPTIONS = ['the keys are fed to the readline package in place of the terminal', 'compiled grammars of equal text are shared between the CLIs of one job']
TASKS = 1000

ENTER, CLEAR, BELL, INTR = '\r', '\x0c', '\x02', '\x03'
TOG = BELL + 'who'


class EndOfKeys(BaseException):
    pass


class Term(Editor):
    """The real editor; keys come from a script, what can be seen of its settings is logged at every prompt"""
    key = '\t'

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.script, self.keys, self.log, self.probing, self.ended = [], [], [], False, False

    def rec(self, *a):
        if not self.ended:
            self.log.append(a)

    def play_bell(self):
        if not self._suppress_bell and not self.probing:
            self.rec('bell', self._enable_bell)
        super().play_bell()

    async def readline(self, prompt=None):
        self.rec('read', prompt, self._enable_bell, self._history_size, list(self._history), self._prepare_history_entry(' x Y '))
        if not self.script:
            self.ended = True
            raise EndOfKeys()
        line = self.script.pop(0)
        self.keys = list('me') + [self.key, self.key, None, CLEAR] + list(line) + ([] if line == INTR else [ENTER])
        self.probing = True
        return await super().readline(prompt)

    async def input(self, prompt=None, mask_input=False):
        self.rec('request', prompt, mask_input)
        self.keys = list('secret') + [ENTER]
        return await super().input(prompt, mask_input=mask_input)

    async def readchar(self):
        k = self.keys.pop(0)
        if k is None:
            self.rec('typed', self.get_line_buffer().strip())
            k = self.keys.pop(0)
        elif self.probing and k != self.key and self.get_line_buffer() == '':
            self.probing = k == 'm'
        return k


class Ctx(NessaidCmd):
    kind = '?'

    def __init__(self, **kw):
        self.uid = kw.pop('uid', 'r')
        self.how = kw.pop('how', None)
        super().__init__(**kw)
        if self.kind == 'x':
            raise ValueError('cannot be created')

    def rec(self, *a):
        self.readline.rec('ran', self.uid, *a)

    async def open(self, k):
        c = self
        while c.parent:
            c = c.parent
        c.n += 1
        u = '%s%d' % (k, c.n)
        await self.enter_context(CLASSES[k], prompt=u + '>', match_parent_grammar=k == 'b', uid=u, enable_bell=k in 'aefx')

    async def preloop(self):
        if self.how == 'pre':
            await self.open('a')
        if self.kind in 'wf':
            rl = self.readline
            rl.set_history_size(2)
            rl.set_prepare_history_entry(lambda e: e.strip().upper())
            rl.enable_bell(self.kind == 'w')
        if self.kind == 'f':
            raise ValueError('start')

    async def postintro(self):
        if self.how == 'post':
            await self.open('a')
            await self.open('w')
        if self.kind == 'e':
            self.readline.set_history_size(1)
            self.exit_loop()

    async def on_exit(self):
        if self.kind == 'e':
            raise ValueError('exit')

    def do_who(self):
        """"who" """
        self.rec('who')

    async def do_go(self, k):
        """"go" ("a" << $k = "a"; >> | "b" << $k = "b"; >> | "w" << $k = "w"; >> | "f" << $k = "f"; >> | "e" << $k = "e"; >> | "x" << $k = "x"; >>)"""
        self.rec('go', k)
        await self.open(k)

    async def do_two(self, k):
        """"two" ("ab" << $k = "ab"; >> | "ba" << $k = "ba"; >>)"""
        self.rec('two', k)
        for x in k:
            await self.open(x)

    def do_make(self):
        """"make" """
        self.rec('make')
        self.made = B(loop=self.loop, parent=self, stdin=self.stdin, stdout=self.stdout, stderr=self.stderr, enable_bell=not self.readline._enable_bell, disable_default_hooks=True, uid='-')

    def do_fail(self):
        """"fail" """
        self.rec('fail')
        raise ValueError('fail')

    async def do_sub(self):
        """"sub" """
        self.rec('sub', await self.exec_line('nope') != 0)

    async def do_ask(self, how):
        """"ask" ("pw" << $how = $1; >> | "name" << $how = $1; >>)"""
        self.rec('ask', how, await self.input('pw>', show_char=how == 'name'))

    def do_leave(self):
        """"leave" """
        self.rec('leave')
        self.exit_loop()


class Root(Ctx):
    kind = 'r'

    def do_me(self):
        """"me-r" """

    def do_ping(self):
        """"ping" """
        self.rec('ping')


class A(Ctx):
    kind = 'a'

    def do_me(self):
        """"me-a" """


class B(Ctx):
    kind = 'b'

    def do_me(self):
        """"me-b" """


class W(Ctx):
    kind = 'w'

    def do_me(self):
        """"me-w" """


class F(A):
    kind = 'f'


class E(A):
    kind = 'e'


class X(A):
    kind = 'x'


CLASSES = {'a': A, 'b': B, 'w': W, 'f': F, 'e': E, 'x': X}
MENU = ['who', 'ping', 'nope', 'go', '', '# x', 'fail', 'sub', 'ask pw', 'ask name', 'make', 'two ab', 'two ba', 'go a', 'go b', 'go w', 'leave', TOG, INTR]
ENDS = ['go f', 'go e', 'go x']
FEW = ['ping', 'two ba', 'go a', 'go b', 'go w', 'go e', 'leave', TOG, 'nope']
SECOND = ['who', 'nope', 'go a', 'leave', 'ping', 'leave']
SIZE = 100


class Frame:
    def __init__(self, uid, kind, bell, size, up):
        self.uid, self.kind, self.bell, self.size, self.up, self.exit = uid, kind, bell, size, up, False


class Machine:
    def __init__(self, bell, start, lines):
        self.n, self.log, self.hist, self.lines, self.stack, self.used = 0, [], [], list(lines), [], []
        self.bell, self.start = bell, start

    def fresh(self, k):
        self.n += 1
        return '%s%d' % (k, self.n)

    def push(self, k):
        top = self.stack[-1]
        f = Frame(self.fresh(k), k, k in 'aefx', top.size, top.up)
        if k in 'fex':
            return
        if k == 'w':
            f.bell, f.size, f.up = True, 2, True
        self.stack.append(f)

    def run(self, second=False):
        self.stack = [Frame('r', 'r', self.bell, SIZE, False)]
        self.n = 0
        if not second or self.start:
            if self.start == 'pre':
                self.push('a')
            if self.start == 'post':
                self.fresh('a')
                self.push('w')
        while self.stack:
            f = self.stack[-1]
            if f.exit:
                if len(self.stack) == 1:
                    self.bell = f.bell
                self.stack.pop()
                continue
            self.log.append(('read', f.uid + '>', f.bell, f.size, list(self.hist), 'X Y' if f.up else 'x Y'))
            if not self.lines:
                self.lines.append('leave')
            l = self.lines.pop(0)
            self.used.append(l)
            self.log.append(('typed', 'me-' + f.kind))
            self.line(f, l)

    def line(self, f, l):
        if l == INTR:
            return
        if l == TOG:
            f.bell = not f.bell
            l = 'who'
        if l:
            e = l.upper() if f.up else l
            if self.hist[-1:] != [e]:
                self.hist.append(e)
                del self.hist[:-f.size]
        if not l or l[0] == '#':
            return
        if l == 'ping':
            i = len(self.stack) - 1
            while i and self.stack[i].kind == 'b':
                i -= 1
            if not i:
                del self.stack[1:]
                self.log.append(('ran', 'r', 'ping'))
                return
        if l in ('ping', 'nope', 'go'):
            self.log.append(('bell', f.bell))
            return
        w = l.split()
        if w[0] == 'ask':
            self.log.append(('request', 'pw>', w[1] == 'pw'))
            w.append('secret')
        if w[0] == 'sub':
            self.log.append(('bell', f.bell))
            w.append(True)
        self.log.append(('ran', f.uid) + tuple(w))
        if w[0] == 'go':
            self.push(w[1])
        if w[0] == 'two':
            self.fresh(w[1][0])
            self.push(w[1][1])
        if w[0] == 'leave':
            f.exit = True


def check(r, job, bell, key, start, early, seq):
    m = Machine(bell, start, seq)
    m.run()
    m2 = Machine(m.bell, start, SECOND)
    m2.hist = m.hist
    m2.run(True)
    Term.key = KEY_NAME_MAP[key]
    out, err = io.StringIO(), io.StringIO()
    c = Root(loop=loop(), stdin=io.StringIO(), stdout=out, stderr=err, prompt='r>', disable_default_hooks=True, uid='r', how=start, enable_bell=bell, completekey=key)
    rl = c.readline
    case = {'bell': bell, 'key': key, 'start': start, 'opened outside of the loop': early, 'lines': seq}
    r.states += 1
    r.traces += 1
    if early:
        c.n = 0
        with limit():
            loop().run_until_complete(c.exec_line('go ' + early))
    for turn, x in enumerate((m, m2)):
        rl.log, rl.script, c.n, rl.ended = [], list(x.used), 0, False
        try:
            with limit():
                loop().run_until_complete(c.cmdloop())
        except EndOfKeys:
            pass
        r.transitions += len(rl.log)
        if rl.log != x.log:
            i = next((i for i, (a, b) in enumerate(zip(rl.log, x.log)) if a != b), min(len(rl.log), len(x.log)))
            a, b = (rl.log + [('end',)])[i], (x.log + [('end',)])[i]
            what = ' '.join(sorted({a[0], b[0]}))
            if a[0] == b[0] == 'read':
                what = [n for n, p, q in zip(('read', 'prompt', 'bell setting', 'history size', 'history', 'history filter'), a, b) if p != q][0]
            r.bad(('second loop: ' if turn else '') + what, case, x.log[max(0, i - 3):i + 1], rl.log[max(0, i - 3):i + 1], job)
            return
    r.outcomes['%d prompts, depth %d, %d bells' % (len(m.used), max([0] + [len(x[1]) > 2 and int(x[1][1:-1]) for x in m.log if x[0] == 'read']), sum(x[0] == 'bell' for x in m.log))] += 1


def jobs(tier):
    t = tier == 'thorough'
    out = []
    for bell in (False, True):
        for key in ('tab', 'ctrl-t'):
            for start in (None, 'pre', 'post'):
                plain = not start and key == 'tab'
                for a in MENU + ENDS:
                    n = 1 + plain + (t and (plain or key == 'tab'))
                    out.append((bell, key, start, None, (a,), ('MENU',) * n))
                for e in 'abwfex':
                    out.append((bell, key, start, e, (), ('FEW',)))
                if plain:
                    for a in FEW:
                        out.append((bell, key, start, None, (a,), ('FEW',) * (4 if t else 3)))
    out.sort(key=lambda j: -len(j[5]))
    return [tuple(out[i::len(out) // 8]) for i in range(len(out) // 8)]


def run(job, r):
    _cmd.compile_grammar = cached
    fake.install(Term)
    menus = {'MENU': MENU + ENDS, 'FEW': FEW}
    try:
        for j in job:
            bell, key, start, early, pre, rest = j
            for k in range(len(rest) + 1):
                for tail in itertools.product(*[menus[m] for m in rest[:k]]):
                    check(r, (j,), bell, key, start, early, pre + tail)
    finally:
        _cmd.compile_grammar = _real
