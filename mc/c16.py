"""C16: every short session over nested command contexts."""
import itertools, shutil, tempfile
from core import *  # noqa
import nessaid_cli.cmd as _cmd
import fake
from fake import INTR

BOUNDS = {
    'quick': 'three command classes opening each other to any depth; every session of at most 3 lines from a menu of 21 (commands of each level, common ones, abbreviated, partial, ambiguous, '
             'unknown, raising; opening a context directly, by two handlers, before raising, together with leaving, by a nested line; a context whose start-up fails, leaves at once or opens '
             'another; leaving, leaving a parent, leaving all; CTRL+C) x 4 parent fallback settings; of 4 lines from a menu of 9; start-up of the outermost CLI in 7 ways; lines typed '
             'or from a command file; the completer asked with nothing and with one of four letters or the beginning of a second word typed at every prompt (sessions of at most 2 lines); a second loop on the same CLI after every session',
    'thorough': 'sessions of 4 lines from a menu of 14 and of 5 lines from the menu of 9, every start-up with sessions of 3 lines, the completer asked in sessions of 3 lines',
}
ASSUMPTIONS = ['the terminal is a scripted stand-in for the readline package with the same calls', 'one context is opened by a handler, in the context the handler runs in',
               'exit hooks that raise are reported and otherwise count as run', 'compiled grammars of equal text are shared between the CLIs of one job']
TASKS = 1000

_real = getattr(_cmd, 'compile_grammar', compile_grammar)
_memo = {}


def cached(text):
    if text not in _memo:
        _memo[text] = _real(text)
    return _memo[text]


ASKED = ('', 'p', 'b', 't', 'x', 'two z')
LINE = 'who'          # executed by the nested line handler


class Term(fake.Fake):
    """Also asks the completer what it offers at each main prompt"""
    asking = False

    async def readline(self, prompt='', **k):
        if self.asking and not self.ended and self.script:
            for typed in ASKED:
                self.buffer = typed
                offered = set()
                for i in range(200):
                    o = await self.completer(typed, i)
                    if o is None:
                        break
                    offered.add(o if o.startswith('Failed') else o.split()[0])
                if offered or self.buffer == typed:
                    self.log.append(('offer', prompt, (typed, sorted(offered))))
                else:
                    # the beginning that all of them share was typed instead
                    self.log.append(('typed', prompt, (typed, self.buffer)))
                self.buffer = ''
        return await self.take(prompt, False)


class Ctx(NessaidCmd):
    kind = '?'
    fallback = {}
    start = None
    n = 0

    def __init__(self, **kw):
        for k in ('uid', 'how'):
            setattr(self, k, kw.pop(k, None))
        super().__init__(**kw)

    def rec(self, what, *a):
        if not self.readline.ended:
            self.rootlog().append((self.uid, what) + a)

    def rootlog(self):
        c = self
        while c.parent:
            c = c.parent
        return c.thelog

    def newuid(self, k):
        c = self
        while c.parent:
            c = c.parent
        c.n += 1
        return '%s%d' % (k, c.n)

    async def open(self, k, how=None):
        u = self.newuid(k)
        await self.enter_context(CLASSES[k], prompt=u + '>', match_parent_grammar=self.fallback[k], uid=u, how=how)

    async def preloop(self):
        self.rec('pre')
        if self.how == 'fail':
            raise ValueError('start')
        if self.how == 'pre':
            await self.open('a')

    async def postintro(self):
        self.rec('post')
        if self.how == 'out':
            self.exit_loop()
        if self.how == 'postfail':
            raise ValueError('start')
        if self.how in ('post', 'deep', 'outopen'):
            await self.open('a', 'more' if self.how == 'deep' else None)
        if self.how == 'more':
            await self.open('b')
        if self.how == 'outopen':
            self.exit_loop()

    async def on_exit(self):
        self.rec('bye')
        if self.how == 'badbye':
            raise ValueError('bye')

    # commands every context has
    def do_who(self):
        """"who" """
        self.rec('who')

    def do_fail(self):
        """"fail" """
        self.rec('fail')
        raise ValueError('fail')

    async def do_go(self, k):
        """"go" ("a" << $k = "a"; >> | "b" << $k = "b"; >>)"""
        self.rec('go', k)
        await self.open(k)

    def do_all(self):
        """"all" """
        self.rec('all')
        c = self
        while c:
            c.exit_loop()
            c = c.parent


class Root(Ctx):
    def do_ping(self):
        """"ping" """
        self.rec('ping')

    def do_two(self):
        """"two" """
        self.rec('two')

    def do_zap(self):
        """"two" "zap" """
        self.rec('zap')

    def do_exit(self):
        """"exit" """
        self.rec('exit')
        self.exit_loop()

    async def do_open(self, how):
        """"open" ("fail" << $how = "fail"; >> | "out" << $how = "out"; >> | "postfail" << $how = "postfail"; >> | "more" << $how = "more"; >> | "badbye" << $how = "badbye"; >>)"""
        self.rec('open', how)
        await self.open('a', how)


class A(Ctx):
    def do_leave(self):
        """"leave" """
        self.rec('leave')
        self.exit_loop()

    def do_two(self, x):
        """"two" "x" << $x = $2; >>"""
        self.rec('two', x)

    def do_pear(self):
        """"pear" """
        self.rec('pear')

    def do_peach(self):
        """"peach" """
        self.rec('peach')

    async def do_both(self):
        """"both" """
        self.rec('both')
        self.exit_loop()
        await self.open('b')

    async def do_late(self):
        """"late" """
        self.rec('late')
        await self.open('b')
        raise ValueError('late')

    async def do_sub(self, k):
        """"sub" {"go" << $k = "go"; >>}"""
        self.rec('sub')
        await self.exec_line('go b' if k else LINE)
        self.rec('end')

    def do_up(self):
        """"up" """
        self.rec('up')
        self.parent.exit_loop()


class B(Ctx):
    def do_leave(self):
        """"leave" """
        self.rec('leave')
        self.exit_loop()

    def do_bee(self):
        """"bee" """
        self.rec('bee')


CLASSES = {'a': A, 'b': B}
OFFERS = {'r': ['all', 'exit', 'fail', 'go', 'open', 'ping', 'two', 'who'],
          'a': ['all', 'both', 'fail', 'go', 'late', 'leave', 'peach', 'pear', 'sub', 'two', 'up', 'who'], 'b': ['all', 'bee', 'fail', 'go', 'leave', 'who']}
# what each kind of context executes, by the line as typed
EXEC = {
    'r': {'who': ('who',), 'fail': ('fail',), 'go a': ('go', 'a'), 'go b': ('go', 'b'), 'all': ('all',), 'ping': ('ping',), 'two': ('two',), 'two zap': ('zap',), 'two z': ('zap',), 'exit': ('exit',), 'p': ('ping',),
          'open fail': ('open', 'fail'), 'open out': ('open', 'out'), 'open postfail': ('open', 'postfail'), 'open more': ('open', 'more'), 'open badbye': ('open', 'badbye')},
    'a': {'who': ('who',), 'fail': ('fail',), 'go a': ('go', 'a'), 'go b': ('go', 'b'), 'all': ('all',), 'leave': ('leave',), 'two x': ('two', 'x'), 'pear': ('pear',), 'both': ('both',),
          'late': ('late',), 'sub': ('sub',), 'sub go': ('sub', 'go'), 'up': ('up',)},
    'b': {'who': ('who',), 'fail': ('fail',), 'go a': ('go', 'a'), 'go b': ('go', 'b'), 'all': ('all',), 'leave': ('leave',), 'bee': ('bee',)},
}
MENU = ['who', 'ping', 'p', 'two', 'two x', 'two y', 'two z', 'nope', 'fail', 'go a', 'go b', 'go', 'leave', 'exit', 'all', 'both', 'late', 'sub', 'sub go', 'up', 'bee', 'open more', INTR]
OPENS = ['open fail', 'open out', 'open postfail', 'open badbye']
MID = ['who', 'ping', 'p', 'two', 'nope', 'go a', 'go b', 'leave', 'exit', 'both', 'late', 'up', 'bee', 'sub go']
FEW = ['who', 'ping', 'two', 'go a', 'go b', 'leave', 'exit', 'both', 'bee']
STARTS = (None, 'pre', 'post', 'deep', 'out', 'outopen', 'badbye')
FALL = [(False, False), (True, True), (True, False), (False, True)]
SECOND = ['who', 'go a', 'who', 'p', 'leave', 'who', 'exit']


class Frame:
    def __init__(self, uid, kind, how):
        self.uid, self.kind, self.how, self.exit = uid, kind, how, False


class Done(Exception):
    pass


class Machine:
    def __init__(self, fall, start, lines, src):
        self.fall = dict(zip('ab', fall))
        self.stack, self.log, self.reads, self.kinds, self.lines, self.n, self.src = [], [], [], [], list(lines), 0, src
        self.start = start
        self.closing = []

    def fresh(self, k):
        self.n += 1
        return '%s%d' % (k, self.n)

    def offers(self, i, typed):
        """the commands offered at prompt i: those of the context, or where none starts so and it falls back, those of its parent"""
        for k in self.kinds[i][::-1]:
            # 'two' is the beginning of a command of two kinds, 'two z' of one
            want = ['zap'] * (k == 'r') if ' ' in typed else [x for x in OFFERS[k] if x.startswith(typed)]
            if want or not self.fall.get(k):
                break
        return want

    def push(self, uid, kind, how=None):
        f = Frame(uid, kind, how)
        self.stack.append(f)
        self.log.append((uid, 'pre'))
        nxt = None
        if how == 'fail':
            return self.pop()
        if how == 'pre':
            nxt = (self.fresh('a'), 'a', None)
        self.log.append((uid, 'post'))
        if how in ('out', 'outopen'):
            f.exit = True
        if how == 'postfail':
            return self.pop()
        if how in ('post', 'deep', 'outopen'):
            nxt = (self.fresh('a'), 'a', 'more' if how == 'deep' else None)
        if how == 'more':
            nxt = (self.fresh('b'), 'b', None)
        if nxt:
            self.push(*nxt)

    def pop(self):
        self.log.append((self.stack.pop().uid, 'bye'))

    def run(self):
        self.push('r', 'r', self.start)
        while self.stack:
            top = self.stack[-1]
            if top.exit:
                self.pop()
                continue
            if self.src == 'typed':
                self.reads.append(top.uid + '>')
                self.kinds.append([f.kind for f in self.stack])
            if not self.lines:
                # leave everything that is still open
                self.closing.append('exit' if top.kind == 'r' else 'leave')
                self.lines.append(self.closing[-1])
            self.line(self.lines.pop(0))

    def line(self, l):
        if l == INTR:
            return
        i = len(self.stack) - 1
        while l not in EXEC[self.stack[i].kind]:
            if i and self.fall[self.stack[i].kind]:
                i -= 1
            else:
                return
        while len(self.stack) - 1 > i:
            self.pop()
        f = self.stack[i]
        c = EXEC[f.kind][l]
        if c[0] in ('two',) and f.kind == 'r':
            c = ('two',)
        self.log.append((f.uid,) + ((c[0],) if c[0] == 'sub' else c))
        w = c[0]
        if w == 'go':
            self.push(self.fresh(c[1]), c[1])
        elif w == 'open':
            self.push(self.fresh('a'), 'a', c[1])
        elif w == 'all':
            for g in self.stack[:i + 1]:
                g.exit = True
        elif w in ('exit', 'leave'):
            f.exit = True
        elif w == 'both':
            f.exit = True
            self.push(self.fresh('b'), 'b')
        elif w == 'late':
            self.push(self.fresh('b'), 'b')
        elif w == 'sub':
            u = None
            if len(c) > 1:
                self.log.append((f.uid, 'go', 'b'))
                u = self.fresh('b')
            else:
                self.log.append((f.uid, LINE))
            self.log.append((f.uid, 'end'))
            if u:
                self.push(u, 'b')
        elif w == 'up':
            self.stack[i - 1].exit = True


def session(fall, start, lines, src, asking, second, d):
    Ctx.fallback = dict(zip('ab', fall))
    path = None
    if src == 'file':
        path = os.path.join(d, 'f')
        with open(path, 'w') as f:
            f.write('\n'.join(lines))
    out, err = io.StringIO(), io.StringIO()
    c = Root(loop=loop(), stdin=io.StringIO(), stdout=out, stderr=err, prompt='r>', disable_default_hooks=True, filename=path, uid='r', how=start)
    c.thelog, c.n = [], 0
    rl = c.readline
    rl.asking = asking
    rl.script = [] if src == 'file' else list(lines)
    res = []
    for turn in range(2 if second else 1):
        c.thelog, rl.log, c.n, rl.ended = [], [], 0, False
        try:
            with limit():
                loop().run_until_complete(c.cmdloop())
        except fake.EndOfScript:
            pass
        res.append((c.thelog, rl.log))
        if src == 'file':
            # the second loop finds nothing left in its file
            open(path, 'w').close()
            c.file_data.clear()
        rl.script = list(second or ())
    return c, res, err.getvalue()


def check(r, job, fall, start, seq, src, asking, d):
    m0 = Machine(fall, start, seq, src)
    m0.run()
    m2 = None
    if len(seq) < 3:
        m2 = Machine(fall, start, SECOND, 'typed')
        m2.run()
    c, res, err = session(fall, start, list(seq) + m0.closing, src, asking, m2 and SECOND + m2.closing, d)
    r.states += 1
    r.traces += 1
    case = {'fallback': fall, 'start': start, 'lines': seq, 'from': src}
    for turn, (log, reads) in enumerate(res):
        m = m2 if turn else m0
        key = 'second loop ' if turn else ''
        r.transitions += len(log) + len(reads)
        if log != m.log:
            r.bad(key + 'order', case, m.log, log, job)
            return
        prompts = [p for k, p, _ in reads if k == 'prompt']
        if prompts != m.reads:
            r.bad(key + 'prompts', case, m.reads, prompts, job)
            return
        i = 0
        for k, p, o in reads:
            if k == 'prompt':
                i += 1
                continue
            want = m.offers(i, o[0])
            if k == 'offer':
                ok = o[1] == want or not want and len(o[1]) < 2 and all(x.startswith('Failed') for x in o[1])
            else:
                ok = want and o[1].startswith(o[0]) and all((('two ' + x if ' ' in o[0] else x) + ' ').startswith(o[1]) for x in want)
            if not ok:
                r.bad(key + 'offers', case, {p: want}, [k, o], job)
                return
        if not turn:
            r.outcomes['depth %d, %d events' % (max([0] + [int(x[0][1:] or 0) for x in log]), len(log))] += 1


def jobs(tier):
    t = tier == 'thorough'
    out = []
    for fall in FALL:
        both = fall == (True, True)
        for a in MENU:
            out.append((fall, None, (a,), ('MENU',) * (2 if both or t else 1), 'typed', False))
            out.append((fall, None, (a,), ('MENU',), 'file', False))
            if both or fall == (False, False) or t:
                out.append((fall, None, (a,), ('MENU',) * (2 if t else 1), 'typed', True))
        if not (both or t):
            for a in itertools.product(MID, MID):
                out.append((fall, None, a, ('MID!',), 'typed', False))
        for a in OPENS:
            out.append((fall, None, (a,), ('MENU', 'FEW') if both or t else ('MENU',), 'typed', False))
        for s in STARTS[1:]:
            for a in MENU + OPENS:
                out.append((fall, s, (a,), ('MENU', 'MENU') if t else ('FEW',), 'typed', s in ('pre', 'deep') and not t))
        if both or fall == (False, True) or t:
            for a in itertools.product(('go a', 'go b'), FEW):
                out.append((fall, None, a, ('FEW', 'FEW!'), 'typed', False))
        if t:
            for a in itertools.product(MID, repeat=2):
                out.append((fall, None, a, ('MID', 'MID!'), 'typed', False))
            for a in itertools.product(('go a', 'go b'), FEW):
                out.append((fall, None, a, ('FEW', 'FEW', 'FEW!'), 'typed', False))
    out.sort(key=lambda j: -len(j[3]))
    return [tuple(out[i::len(out) // 10]) for i in range(len(out) // 10)]


def run(job, r):
    _cmd.compile_grammar = cached
    fake.install(Term)
    d = tempfile.mkdtemp(prefix='mc16')
    menus = {'MENU': MENU, 'MID': MID, 'FEW': FEW}
    try:
        for j in job:
            fall, start, pre, rest, src, asking = j
            # shorter sessions too, unless marked as covered elsewhere
            for k in range(len(rest) if rest[-1].endswith('!') else 0, len(rest) + 1):
                for tail in itertools.product(*[menus[m.rstrip('!')] for m in rest[:k]]):
                    seq = pre + tail
                    if src == 'file' and INTR in seq:
                        continue
                    check(r, (j,), fall, start, seq, src, asking, d)
    finally:
        _cmd.compile_grammar = _real
        shutil.rmtree(d, ignore_errors=True)
