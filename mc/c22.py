"""C22: the command loop as something that is started, left, interrupted and started again."""
import itertools, time
from core import *  # noqa
import nessaid_cli.cmd as _cmd
import fake
from fake import EOF, INTR

BOUNDS = {
    'quick': 'every sequence of at most 3 typed entries from a menu of 13 (commands, both leaving commands, one that raises, one that starts the running loop again, one that executes a line, one '
             'that leaves and goes on, a joined line, a context, CTRL+C, end of file, blank), started in 4 ways (run of a command class, run of a CLI, awaited loop, started inside a running event loop), '
             'with and without an intro, then a line executed outside of the loop, then a second start; with the start-up hooks, the after-intro hook or the exit hook raising, or the exit hook asking for the exit again; with an end of '
             'file that leaves; every sequence of at most 2 entries of 8 with a keyboard interrupt of the process before every step of the event loop, one at a time, alone or with one to three more while it is handled',
    'thorough': 'sequences of 4; every two keyboard interrupts',
}
ASSUMPTIONS = ['a keyboard interrupt of the process arrives between two steps of the event loop, while there is something left to do', 'the terminal is a scripted stand-in for the readline package with the same calls',
               'the clock of the event loop is virtual']
TASKS = 4

KINDS = ('cmd', 'cli', 'await', 'inside')
MENU = ['say {i}', 'exit', 'quit', 'boom {i}', 'again', 'line', 'stop', 'say {i} \\', 'sub', 'zip', '', INTR, EOF]
FEW = ['say {i}', 'exit', 'quit', 'again', 'line', 'sub', INTR, EOF]
AFTER = ['say z', 'again', 'sub', 'say y', 'quit', 'say x', 'exit']
GRAMMAR = '''token S StringToken();
g: "say" S << call say($2); >> | "boom" S << call boom($2); >> | "again" << call again(); >> | "line" << call line_(); >> | "stop" << call stop(); >> | "sub" << call sub(); >>
 | "exit" << call leave(); >> | "quit" << call leave(); >>;
'''


class Loop(asyncio.SelectorEventLoop):
    """An event loop without waiting, that a keyboard interrupt can hit before any of its steps"""
    now = 0
    steps = 0
    hits = ()

    def time(self):
        return self.now

    def _run_once(self):
        if not self._ready and self._scheduled:
            self.now = max(self.now, self._scheduled[0]._when)
        self.steps += 1
        if self.steps in self.hits and asyncio.all_tasks(self):
            raise KeyboardInterrupt()
        super()._run_once()


class Term(fake.Fake):
    """Reads take some steps, and end when the process was interrupted"""
    interrupted = False
    burst = ()

    def handle_external_keyboard_interrupt(self):
        # further interrupts of the process may arrive before or after this took effect
        when = self.burst[0] if self.burst else None
        self.burst = self.burst[1:]
        if when == 'before':
            raise KeyboardInterrupt()
        self.interrupted = True
        if when == 'after':
            raise KeyboardInterrupt()

    async def take(self, prompt, hidden):
        for _ in range(2):
            await asyncio.sleep(0)
        if self.interrupted:
            self.interrupted = False
            self.log.append(('prompt', prompt, hidden))
            raise fake.NessaidReadlineKeyboadInterrupt()
        return await super().take(prompt, hidden)


class Hooks:
    fault = None
    eof = False
    events = ()

    def ev(self, *a):
        if not self.readline.ended:
            self.events.append(a)

    async def preloop(self):
        self.ev('preloop', self.shown())
        if self.fault == 'preloop':
            raise ValueError('preloop')

    async def postintro(self):
        self.ev('postintro', self.shown())
        if self.fault == 'postintro':
            raise ValueError('postintro')

    async def on_exit(self):
        self.ev('on_exit')
        if self.fault == 'on_exit':
            raise ValueError('on_exit')
        if self.fault == 'leaves':
            self.exit_loop()

    async def handle_keyboard_interrupt(self):
        self.ev('interrupt')

    async def handle_eof(self):
        self.ev('eof')
        if self.eof:
            self.exit_loop()

    def shown(self):
        """times the intro was printed"""
        return self.out.getvalue().count('INTRO')

    def say(self, x):
        self.ev('say', x, self.running)

    def boom(self, x):
        self.ev('boom', x)
        raise ValueError('boom')

    async def again(self):
        try:
            self.start()
            self.ev('started twice')
        except Exception as e:
            self.ev('refused', type(e).__name__)

    async def line_(self):
        self.ev('status', await self.exec_line('say "in line"'))

    def stop(self):
        self.ev('stop')
        self.exit_loop()
        self.ev('stopped')

    async def sub(self):
        self.ev('sub')
        await self.enter_context(Sub, prompt='s>')

    def leave(self):
        self.exit_loop()


class K(Hooks, NessaidCmd):
    """token S StringToken();"""

    def __init__(self, **kw):
        self.events = []
        self.out = io.StringIO()
        super().__init__(stdin=io.StringIO(), stdout=self.out, stderr=io.StringIO(), prompt='k>', **kw)

    def start(self, intro=None):
        return self.run(intro=intro)

    def body(self, intro=None):
        return self.cmdloop(intro=intro)

    def do_say(self, x):
        '''"say" S << $x = $2; >>'''
        self.say(x)

    def do_boom(self, x):
        '''"boom" S << $x = $2; >>'''
        self.boom(x)

    async def do_again(self):
        '''"again"'''
        await self.again()

    async def do_line(self):
        '''"line"'''
        await self.line_()

    def do_stop(self):
        '''"stop"'''
        self.stop()

    async def do_sub(self):
        '''"sub"'''
        await self.sub()


class Sub(NessaidCmd):
    """token S StringToken();"""

    async def preloop(self):
        self.parent.ev('in')

    async def on_exit(self):
        self.parent.ev('out')

    async def handle_keyboard_interrupt(self):
        self.parent.ev('sub interrupt')

    async def handle_eof(self):
        self.parent.ev('sub eof')

    def do_say(self, x):
        '''"say" S << $x = $2; >>'''
        self.parent.ev('sub say', x, self.running, self.parent.running)

    def do_exit(self):
        '''"exit" | "quit"'''
        self.exit_loop()


class C(Hooks, NessaidCli):
    def __init__(self, **kw):
        self.events = []
        self.out = io.StringIO()
        super().__init__(compile_grammar(GRAMMAR), stdin=io.StringIO(), stdout=self.out, stderr=io.StringIO(), prompt='k>', **kw)

    def get_token_classes(self):
        return [T.StringToken]

    def start(self, intro=None):
        return self.run('g', intro=intro)

    def body(self, intro=None):
        return self.cmdloop('g', intro=intro)

    async def sub(self):
        self.ev('sub')


_specs = {}
_real = getattr(_cmd, 'compile_grammar', compile_grammar)


def cached(text, *a, **k):
    if text not in _specs:
        _specs[text] = _real(text, *a, **k)
    return _specs[text]


class Machine:
    """What one start does with a script"""

    def __init__(self, kind, script, intro, fault, eof):
        self.kind, self.script, self.eof, self.fault = kind, list(script), eof, fault
        self.log, self.reads = [], []
        n = int(bool(intro))
        self.ev('preloop', 0)
        if fault != 'preloop':
            self.ev('postintro', n)
            if fault != 'postintro':
                self.loop()
        self.ev('on_exit')

    def ev(self, *a):
        self.log.append(a)

    def read(self, prompt):
        self.reads.append(prompt)
        if not self.script:
            self.closing = getattr(self, 'closing', []) + ['exit']
            return 'exit'
        return self.script.pop(0)

    def loop(self):
        part, joined = False, ''
        while True:
            l = self.read('' if part else 'k>')
            if l in (INTR, EOF):
                if l == INTR:
                    part, joined = False, ''
                self.ev('interrupt' if l == INTR else 'eof')
                if l == EOF and self.eof:
                    return
                continue
            joined += l
            part = joined.endswith('\\')
            if part:
                joined = joined[:-1]
                continue
            line, joined = ' '.join(joined.split()), ''
            w = line.split(' ')
            if line in ('exit', 'quit'):
                return
            if w[0] == 'say' and len(w) == 2:
                self.ev('say', w[1], True)
            elif w[0] == 'boom' and len(w) == 2:
                self.ev('boom', w[1])
            elif line == 'again':
                self.ev('refused', 'CliAlreadyRunning')
            elif line == 'line':
                self.ev('say', 'in line', True)
                self.ev('status', 0)
            elif line == 'stop':
                self.ev('stop')
                self.ev('stopped')
                return
            elif line == 'sub':
                self.ev('sub')
                if self.kind != 'cli':
                    self.ev('in')
                    self.context()
                    self.ev('out')

    def context(self):
        part, joined = False, ''
        while True:
            l = self.read('' if part else 's>')
            if l in (INTR, EOF):
                if l == INTR:
                    part, joined = False, ''
                self.ev('sub interrupt' if l == INTR else 'sub eof')
                continue
            joined += l
            part = joined.endswith('\\')
            if part:
                joined = joined[:-1]
                continue
            w, joined = joined.split(), ''
            if w in (['exit'], ['quit']):
                return
            if w[:1] == ['say'] and len(w) == 2:
                self.ev('sub say', w[1], True, True)


def fill(seq):
    return [l.replace('{i}', 'abcd'[i]) if isinstance(l, str) else l for i, l in enumerate(seq)]


def start(lp, c, kind, intro):
    if kind == 'await':
        lp.run_until_complete(c.body(intro))
    elif kind == 'inside':
        async def main():
            c.start(intro)
            for _ in range(5000):
                if not c.running:
                    return
                await asyncio.sleep(0)
        lp.run_until_complete(main())
    else:
        c.start(intro)


def session(kind, scripts, intro, fault, eof, hits=(), burst=()):
    """[(events, prompts)] of each start, what is left afterwards, steps of the first start"""
    lp = Loop()
    asyncio.set_event_loop(lp)
    lp.set_exception_handler(lambda *a: None)
    sleep, time.sleep = time.sleep, lambda s: None
    res = []
    try:
        c = (C if kind == 'cli' else K)(loop=lp)
        c.eof = eof
        rl = c.readline
        for turn, script in enumerate(scripts):
            c.events = []
            rl.log, rl.script, rl.ended, rl.interrupted = [], list(script), False, False
            c.out.seek(0), c.out.truncate()
            rl.burst = () if turn else burst
            c.fault = None if turn else fault
            lp.steps, lp.hits = 0, () if turn else hits
            fell = None
            try:
                with limit():
                    start(lp, c, kind, intro)
            except (Exception, fake.EndOfScript, KeyboardInterrupt) as e:
                fell = type(e).__name__
            steps = lp.steps
            lp.hits = ()
            c.fault = None
            res.append((c.events, [p for _, p, _ in rl.log], fell, c.running, len(rl.script), steps))
            c.events = []
            if kind == 'cli':
                c.enter_grammar('g')
            st = lp.run_until_complete(c.exec_line('say between'))
            if kind == 'cli':
                c.exit_grammar()
            res.append((st, c.events, c.current_grammar is None))
    finally:
        time.sleep = sleep
        for t in asyncio.all_tasks(lp):
            t.cancel()
        lp.run_until_complete(asyncio.sleep(0))
        lp.close()
        asyncio.set_event_loop(None)
    return res


BURSTS = ((), ('before',), ('after',), ('before', 'before', 'before'))
BETWEEN = (0, [('say', 'between', False)], True)


def check(r, job, kind, seq, intro, fault, eof):
    """None, or the number of steps of the first start"""
    seq = fill(seq)
    m = Machine(kind, seq, intro, fault, eof)
    m2 = Machine(kind, AFTER, intro, None, eof)
    res = session(kind, [seq + getattr(m, 'closing', []), AFTER + getattr(m2, 'closing', [])], intro, fault, eof)
    r.traces += 1
    r.states += 1
    case = dict(started=kind, typed=seq, intro=bool(intro), raises=fault, eof_leaves=eof)
    ok = True
    for i, (x, mm) in enumerate(((res[0], m), (res[2], m2))):
        r.transitions += len(x[0]) + len(x[1])
        which = 'second' if i else 'first'
        fell = fault if not i and fault in ('preloop', 'postintro') else None
        if x[0] != mm.log:
            r.bad('%s start: events' % which, case, mm.log, x[0], job, len(seq)); ok = False
        elif x[1] != mm.reads:
            r.bad('%s start: reads' % which, case, mm.reads, x[1], job, len(seq)); ok = False
        elif x[3]:
            r.bad('%s start: still running' % which, case, False, x[3], job, len(seq)); ok = False
        elif (kind == 'await' and bool(x[2]) != bool(fell)) or (kind != 'await' and x[2]):
            r.bad('%s start: raised' % which, case, fell, x[2], job, len(seq)); ok = False
        if ok and res[2 * i + 1] != BETWEEN:
            r.bad('line after the %s start' % which, case, BETWEEN, res[2 * i + 1], job, len(seq)); ok = False
        if not ok:
            return None
    r.outcomes['%s, %d events%s' % (kind, len(res[0][0]), ', ' + fault if fault else '')] += 1
    r.sample(case)
    return res[0][5]


def interrupts(r, job, kind, seq, n):
    """the same, with the process interrupted"""
    steps = check(r, job, kind, seq, None, None, False)
    if steps is None:
        return
    seq = fill(seq)
    m = Machine(kind, seq, None, None, False)
    script = seq + getattr(m, 'closing', [])
    sub = ('interrupt', 'sub interrupt')
    keep = lambda l: [e for e in l if e[0] not in sub]
    have = sum(e[0] in sub for e in m.log)
    for k in range(1, n + 1):
        for hits, burst in itertools.product(itertools.combinations(range(1, steps + 1), k), BURSTS if k == 1 else ((),)):
            res = session(kind, [script], None, None, False, hits, burst)
            r.traces += 1
            x = res[0]
            r.transitions += len(x[0])
            more = sum(e[0] in sub for e in x[0]) - have
            case = dict(started=kind, typed=seq, interrupted_before_steps=hits, and_while_handling=burst)
            r.outcomes['interrupted %d, noticed %d' % (k, more)] += 1
            if keep(x[0]) != keep(m.log) or x[4] != len(m.script) or x[3] or x[2]:
                r.bad('interrupted: events', case, m.log, [x[0], dict(running=x[3], raised=x[2], left=x[4])], job, len(seq))
            elif not 0 <= more <= k:
                r.bad('interrupted: handled', case, 'at most %d times more' % k, x[0], job, len(seq))
            elif x[1] and hits[0] < 2 and not more:
                r.bad('interrupted: lost', case, 'the first read is interrupted', x[0], job, len(seq))
            elif res[1] != BETWEEN:
                r.bad('line after an interrupted loop', case, BETWEEN, res[1], job, len(seq))


def jobs(tier):
    q = tier == 'quick'
    n = 3 if q else 4
    for kind in KINDS:
        for a in MENU:
            for b in MENU if kind == 'cmd' or not q else ['']:
                yield ('seq', kind, (a, b) if kind == 'cmd' or not q else (a,), n if kind == 'cmd' or not q else 2)
        yield ('short', kind, (), 1)
        for f in ('preloop', 'postintro', 'on_exit', 'leaves'):
            yield ('fault', kind, f, 2)
        yield ('eof', kind, None, 2)
    for kind in ('cmd', 'cli'):
        for a in FEW:
            yield ('interrupts', kind, (a,), 2, 1 if q else 2)


def run(job, r):
    _cmd.compile_grammar = cached
    fake.install(Term)
    try:
        body(job, r)
    finally:
        _cmd.compile_grammar = _real


def body(job, r):
    what, kind, x, n = job[:4]
    if what == 'seq':
        for rest in itertools.product(MENU, repeat=n - len(x)):
            check(r, job, kind, x + rest, None if len(rest) % 2 else 'INTRO', None, False)
    elif what == 'short':
        for k in range(0, 3):
            for seq in itertools.product(MENU, repeat=k):
                for intro in (None, 'INTRO'):
                    check(r, job, kind, seq, intro, None, False)
    elif what in ('fault', 'eof'):
        for k in range(0, n + 1):
            for seq in itertools.product(MENU if k < 2 else FEW, repeat=k):
                for intro in (None, 'INTRO'):
                    check(r, job, kind, seq, intro, x, what == 'eof')
    else:
        for k in range(0, n):
            for rest in itertools.product(FEW, repeat=k):
                interrupts(r, job, kind, x + rest, job[4])
