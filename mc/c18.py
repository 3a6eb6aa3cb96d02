"""C18: overlapping and nested lines, every interleaving of their suspension points."""
import contextlib, contextvars, itertools
from core import *  # noqa
import fake
from c01 import scan
from c02 import value as read0
from nessaid_cli.utils import convert_to_cli_string

BOUNDS = {
    'quick': '23 lines (variables, repetition, any-order, parameters by reference, nested grammars, tokens that suspend, dynamic choices, values of earlier words, failing '
             'handlers, rejected lines, lines executed by handlers to depth 3, suggestion requests); every pair on one CLI, suspended at handler calls: every interleaving; '
             'suspended also at every token callback: every interleaving with at most 1 preemption; 8 lines on a command-class CLI: all interleavings; 8 x 8 lines on two CLIs sharing one compiled grammar; 10 lines and their pairs while profiling or timing is on, 1 preemption; '
             'every 1 to 3 words with values None, 0, False, empty before a token that looks at them',
    'thorough': 'token callbacks with at most 3 preemptions; every triple of 11 lines suspended at handler calls: every interleaving with at most 3 preemptions',
}
ASSUMPTIONS = ['suspension happens at awaits of handlers and token callbacks (the library itself awaits nothing else while matching a line)',
               'each overlapping line is its own asyncio task', 'user code keeps no state across lines']
TASKS = 1000
LIMIT = 60000

MODE = {'gate': 'h'}
who = contextvars.ContextVar('who', default='?')


class Gates:
    def __init__(self):
        self.waiting = {}

    async def wait(self, label):
        w = who.get()
        f = asyncio.get_running_loop().create_future()
        self.waiting.setdefault(w, []).append((f, label))
        await f


class Base(T.CliToken):
    @property
    def cacheable(self):
        return False

    async def gate(self, cli, what):
        if 't' in MODE['gate'] and cli is not None:
            await cli.gates.wait(what)

    def opts(self, cli):
        return ['red', 'reed', 'blue']

    async def complete(self, token_input, cli=None):
        await self.gate(cli, 'complete')
        r = [c for c in self.opts(cli) if c.startswith(token_input or '')]
        return len(r), r

    async def match(self, token_input, cli=None):
        await self.gate(cli, 'match')
        r = [c for c in self.opts(cli) if c.startswith(token_input or '')]
        return T.MATCH_FAILURE if not r else T.MATCH_SUCCESS if token_input in r else T.MATCH_PARTIAL

    async def get_value(self, match_string=None, cli=None):
        await self.gate(cli, 'value')
        r = [c for c in self.opts(cli) if c.startswith(match_string or '')]
        r = [match_string] if match_string in r else r
        return r[0] if len(r) == 1 else T.NullTokenValue


class Alt(Base):
    pass


class Cached(Base):
    @property
    def cacheable(self):
        return True


class After(Base):
    """Choices come from the words before it on the line."""
    def opts(self, cli):
        return [str(v) + '1' for v in cli.get_matched_values()[1:2]]


class Mix:
    extra_tokens = (Alt, Cached, After)

    def setup(self):
        self.gates, self.log, self.resps = Gates(), {}, {}

    def rec(self, *a):
        self.log.setdefault(who.get(), []).append(repr(a))

    async def ev(self, *a):
        self.rec(*a)
        if 'h' in MODE['gate']:
            await self.gates.wait('ev')
        return a[0] if a else None

    def sync(self, *a):
        self.rec(*a)
        return a[0] if a else None

    async def vals(self):
        if 'h' in MODE['gate']:
            await self.gates.wait('vals')
        self.rec('vals', self.get_matched_values(), self.executing)

    async def boom(self, *a):
        self.rec('boom', *a)
        if 'h' in MODE['gate']:
            await self.gates.wait('boom')
        raise ValueError('boom')

    async def nested(self, line):
        self.rec('in', line)
        st = await self.exec_line(line)
        self.rec('status', st)

    def process_cli_response(self, tokens, resp):
        self.resps.setdefault(who.get(), []).append(resp.result)
        super().process_cli_response(tokens, resp)

    def error(self, *a, **k):
        pass


TOKENS = 'token S StringToken(); token A Alt(); token K Cached(); token AF After();\n'
GRAMMAR = TOKENS + '''
sub[$x]: << call ev("sub", $x); $x = inc($x); >> "q" << $y = $1; call ev($y, $x); >>;
g: "s" S << call ev("s", $2); >> << call ev("s again", $2); >>
 | "a" A << call ev("a", $2); >>
 | "k" K << call ev("k", $2); >>
 | "after" S AF << call ev("after", $2, $3); >>
 | (<< $l = list(); call ev("acc"); >> "acc" ( (S << append($l, call ev($1)); >>) * (1:3) ) "." << call ev($l); >>)
 | (<< call ev("var", $v); >> "var" { "set" << $v = "set"; call ev($v); >> } "." << call ev("var", $v); >>)
 | "set" ({"m" << $m = call ev(1); >>}, {"n" << $n = call ev($1); >>}) << call ev("set", $m, $n); >>
 | (<< $k = 3; >> "call" sub[$k] sub[5] << call ev($k, $y, $x); >>)
 | "vals" S << call vals(); call vals(); >>
 | "boom" S << $r = 1; $r = call boom($2); call ev($r, $2); >>
 | "go" S << call nested($2); call vals(); call ev($2); >>
 | "v2" S << $v = $2; call ev($v); $w = $v; $v = call ev("x", $w); call sync($v, $w); >>
 | "two" "x" "y" | "red" << call ev("red"); >> | "reed" << call ev("reed"); >>;
'''
LINES = ['s a', 's "b c"', 'a red', 'a re', 'k blue', 'k b', 'after a a1', 'after b b1', 'acc a b .', 'acc c d e .', 'var set .', 'var .', 'set n m', 'call q q', 'vals a', 'vals "b', 'boom a',
         'v2 p', 'two x', 're', 'go "s n"', 'go "var set ."', 'go "go \\"acc n .\\""']
SOME = ['v2 p', 'acc a b .', 'call q q', 'var set .', 'vals a', 'go "var set ."', 'after a a1', 'boom a']
THREE = ['v2 p', 'v2 r', 'acc a b .', 'call q q', 'vals a', 'var .', 'go "var set ."', 'boom a', 'a red', 're', 'k blue']
SUGG = ('?', ('a', 're'), False), ('?', ('after', 'a', 'a'), False)


class C(Mix, Cli):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.setup()


class Cmd(Mix, NessaidCmd):
    __doc__ = TOKENS + 'sub[$x]: << call ev("sub", $x); $x = inc($x); >> "q" << $y = $1; call ev($y, $x); >>;\n'

    def __init__(self, **k):
        self.setup()
        super().__init__(loop=loop(), stdin=io.StringIO(), stdout=io.StringIO(), stderr=io.StringIO(), **k)

    def get_token_classes(self):
        return list(self.extra_tokens) + ALL_TOKENS

    async def do_v2(self, v, w):
        '''"v2" S << $v = $2; call ev($v); $w = $v; $v = call ev("x", $w); >>'''
        await self.ev('v2', v, w)

    async def do_acc(self, l):
        '''<< $l = list(); call ev("acc"); >> "acc" ( (S << append($l, call ev($1)); >>) * (1:3) ) "."'''
        await self.ev(l)

    async def do_call(self, k):
        '''<< $k = 3; >> "call" sub[$k] sub[5]'''
        await self.ev('call', k)

    async def do_var(self, v):
        '''"var" { "set" << $v = "set"; call ev($v); >> } "."'''
        await self.ev('var', v)

    async def do_vals(self, s):
        '''"vals" S << $s = $2; >>'''
        await self.vals()

    async def do_go(self, s):
        '''"go" S << $s = $2; >>'''
        await self.nested(s)
        await self.vals()
        await self.ev('go', s)

    async def do_after(self, a):
        '''"after" S AF << $a = $3; >>'''
        await self.ev('after', a)

    async def do_boom(self, s):
        '''"boom" S << $s = $2; >>'''
        await self.boom(s)


_spec = None


def make(kind):
    global _spec
    fake.install()
    if kind == 'cmd':
        return [_cmd()]
    if MODE['gate'] == 'h' and kind in _kept:
        for c in _kept[kind]:
            c.setup()
        return _kept[kind]
    if _spec is None:
        _spec = compile_grammar(GRAMMAR)
    clis = [C(_spec) for _ in range(2 if kind == 'shared' else 1)]
    for c in clis:
        c.enter_grammar('g')
    if MODE['gate'] == 'h':
        _kept[kind] = clis
    return clis


# Construction takes 3 ms (30 ms for a command class): where no suspension point depends on what is cached, a CLI is used for
# all schedules, which also makes every schedule a later line of a history
_kept = {}


def _cmd():
    if 'cmd' not in _kept:
        _kept['cmd'] = [Cmd()]
    c = _kept['cmd'][0]
    c.setup()
    return c


async def line(cli, w, op):
    who.set(w)
    if op[0] == '?':
        m = await cli.match(list(op[1]), dry_run=True, last_token_complete=op[2], arglist=[])
        return [m.result, sorted(str(t) for t in m.next_tokens or [] if str(t))]
    return await cli.exec_line(op)


async def settle():
    lp = asyncio.get_running_loop()
    await asyncio.sleep(0)
    while lp._ready:
        await asyncio.sleep(0)


async def play(clis, ops, choices, bound):
    """One execution: the schedule follows `choices` (task numbers), then keeps running the current task.
    Returns (schedule, alternatives at each step, outcome)"""
    tasks = {}
    started = []
    for i, op in enumerate(ops):
        cli = clis[i % len(clis)]
        g = asyncio.get_running_loop().create_future()
        started.append(g)

        async def go_(cli=cli, i=i, op=op, g=g):
            await g
            return await line(cli, i, op)
        tasks[i] = asyncio.ensure_future(go_())
    await settle()
    sched, alts, cur, pre = [], [], None, 0
    while True:
        enabled = []
        for i in tasks:
            if tasks[i].done():
                continue
            if not started[i].done() or clis[i % len(clis)].gates.waiting.get(i):
                enabled.append(i)
        if not enabled:
            break
        k = len(sched)
        if k < len(choices):
            c = choices[k]
        else:
            c = cur if cur in enabled else enabled[0]
        free = cur is None or cur not in enabled
        if not free and c != cur:
            pre += 1
        others = [e for e in enabled if e != c]
        alts.append(others if free or bound is None or pre < bound else [])
        sched.append(c)
        cur = c
        if not started[c].done():
            started[c].set_result(None)
        else:
            f, _ = clis[c % len(clis)].gates.waiting[c].pop(0)
            f.set_result(None)
        await settle()
    out = []
    for i in tasks:
        cli = clis[i % len(clis)]
        st = 'never finished'
        if tasks[i].done():
            st = repr(tasks[i].exception()) if tasks[i].exception() else tasks[i].result()
        else:
            tasks[i].cancel()
            await settle()
        out.append([st, cli.resps.get(i, []), cli.log.get(i, [])])
    return sched, alts, out


def explore(kind, ops, bound, visit, cap=LIMIT):
    """Every schedule of the suspension points of `ops` (stateless depth-first search)"""
    todo, n = [[]], 0
    while todo:
        prefix = todo.pop()
        clis = make(kind)
        sched, alts, out = go(play(clis, ops, prefix, bound))
        visit(sched, out)
        n += 1
        for k in range(len(prefix), len(sched)):
            todo += [sched[:k] + [a] for a in alts[k]]
        if n > cap:
            raise AssertionError('more than %d schedules for %r' % (cap, ops))
    return n


_alone = {}


def alone(kind, op, gate):
    """What the line does by itself; of a line that executes another one, put together from the parts"""
    k = (kind == 'cmd', op, gate)
    if k not in _alone:
        if isinstance(op, str) and op.startswith('go '):
            t = scan(op)[1]
            inner = read0(t[0], t[2], t[3])
            st, res, log = alone(kind, inner, gate)
            name = ('go', inner) if kind == 'cmd' else (inner,)
            _alone[k] = [0, res + ['success'], [repr(('in', inner))] + log + [repr(('status', st)), repr(('vals', ['go', inner], True)), repr(name)]]
        else:
            clis = make('cmd' if kind == 'cmd' else 'one')
            _alone[k] = go(play(clis, [op], [], None))[2][0]
    return _alone[k]


def jobs(tier):
    pairs = list(itertools.combinations_with_replacement(range(len(LINES)), 2))
    for c in chunks(pairs[::-1], 1):
        yield ('pairs', 'one', 'h', None, tuple(c))
    for c in chunks(pairs, 11 if tier == 'quick' else 3):
        yield ('pairs', 'one', 'ht', 1 if tier == 'quick' else 3, tuple(c))
    small = [LINES.index(l) for l in SOME]
    for i in small:
        yield ('pairs', 'shared', 'h', None, tuple((i, j) for j in small if j >= i))
        yield ('pairs', 'cmd', 'h', None, tuple((i, j) for j in small if j >= i))
        yield ('pairs', 'cmd', 'ht', 1, tuple((i, j) for j in small if j >= i))
    for i, l in enumerate(LINES):
        yield ('suggest', i)
    for on in ('cmd-profiling', 'cmd-timing'):
        yield ('hooks', on)
    yield ('seen',)
    if tier == 'thorough':
        for a, b in itertools.combinations_with_replacement(range(len(THREE)), 2):
            yield ('triples', a, b)


FALSY = {'none': None, 'zero': 0, 'false': False, 'empty': '', 'list': [], 'one': 1}


class Falsy(T.CliToken):
    async def complete(self, token_input, cli=None):
        k = [x for x in FALSY if x.startswith(token_input or '')]
        return len(k), k

    async def match(self, token_input, cli=None):
        return T.MATCH_SUCCESS if token_input in FALSY else T.MATCH_PARTIAL if (await self.complete(token_input))[0] else T.MATCH_FAILURE

    async def get_value(self, match_string=None, cli=None):
        return FALSY.get(match_string, T.NullTokenValue)


class Seen(T.CliToken):
    """Notes the values before it at each call"""
    @property
    def cacheable(self):
        return False

    async def complete(self, token_input, cli=None):
        if isinstance(token_input, str):
            cli.noted.append(repr(cli.get_matched_values()[:cli.before]))
        return (1, ['n']) if 'n'.startswith(token_input or '') else (0, [])

    async def match(self, token_input, cli=None):
        return T.MATCH_SUCCESS if (await self.complete(token_input, cli))[0] else T.MATCH_FAILURE

    async def get_value(self, match_string=None, cli=None):
        return 'n' if (await self.complete(match_string, cli))[0] else T.NullTokenValue


class D(Cli):
    extra_tokens = (Falsy, Seen)
    noted, before = [], 0

    def vals(self):
        self.noted.append('handler %r' % (self.get_matched_values(),))


def seen(r, job):
    """what a token after other words, and the handler, are told of the values of the words before, none left out"""
    fake.install()
    cli = build('token F Falsy(); token N Seen(); token S StringToken(); g: "f" (F) * (1:3) N S << call vals(); >>;', cls=D)
    for n in (1, 2, 3):
        for ws in itertools.product(FALSY, repeat=n):
            want = ['f'] + [FALSY[w] for w in ws]
            cli.noted, cli.before = [], len(want)
            res, st, _ = cli.line(' '.join(('f',) + ws + ('n', 's')), 'g')
            r.states += 1
            r.traces += 1
            r.transitions += n + 2
            got = sorted(set(cli.noted))
            handler = 'handler %r' % (want + ['n', 's'],)
            if st or not {repr(want), handler} <= set(got) <= {repr(want[:k]) for k in range(2, n + 2)} | {handler}:
                r.bad('values seen ' + ' '.join(ws), {'words': ws}, [repr(want), 'of the handler: all'], [st, got], job, n)


def run(job, r):
    if job[0] == 'seen':
        return seen(r, job)
    if job[0] == 'pairs':
        _, kind, gate, bound, ps = job
        for i, j in ps:
            one(r, job, kind, gate, bound, [LINES[i], LINES[j]])
    elif job[0] == 'suggest':
        for s in SUGG:
            one(r, job, 'one', 'ht', 2 if job[1] % 2 else 1, [LINES[job[1]], s])
    elif job[0] == 'hooks':
        # the built-in commands that measure a line do not change what it does
        small = SOME + ['go "vals a"', 'go "go \\"vals a\\""']
        with contextlib.redirect_stdout(io.StringIO()):
            for l in small:
                alone('cmd', l, 'h')
            MODE['gate'] = ''
            on = go(play(make('cmd'), [job[1] + ' on'], [], None))[2][0]
            if on[0] != 0:
                r.bad('measuring command', {'line': job[1] + ' on'}, 0, on, job)
            for i, a in enumerate(small):
                one(r, job, 'cmd', 'h', 1, [a])
                for b in small[i:]:
                    one(r, job, 'cmd', 'h', 1, [a, b])
            MODE['gate'] = ''
            off = go(play(make('cmd'), [job[1] + ' off'], [], None))[2][0]
            if off[0] != 0:
                r.bad('measuring command', {'line': job[1] + ' off'}, 0, off, job)
    else:
        _, a, b = job
        for c in range(b, len(THREE)):
            one(r, job, 'one', 'h', 3, [THREE[a], THREE[b], THREE[c]])


def one(r, job, kind, gate, bound, ops):
    MODE['gate'] = gate
    want = [alone(kind, o, gate) for o in ops]

    def visit(sched, out):
        r.transitions += len(sched)
        r.traces += 1
        for i, (w, g) in enumerate(zip(want, out)):
            if w != g:
                r.bad('%s %s disturbed' % (kind, ops[i]), {'cli': kind, 'lines': ops, 'schedule': sched, 'suspends at': gate}, w, g, job, len(sched) + sum(map(len, map(str, ops))))
        if sum(a != b for a, b in zip(sched, sched[1:])) >= len(ops):
            r.sample({'lines': ops, 'schedule': sched, 'results': [o[0] for o in out]}, 1)
    n = explore(kind, ops, bound, visit)
    r.states += n
    r.outcomes['%s %s: %s schedules' % (kind, gate, '1' if n == 1 else '2-20' if n <= 20 else '21-400' if n <= 400 else 'more')] += 1
    r.extra['largest number of schedules of one case'] = max(n, r.extra['largest number of schedules of one case'])
    MODE['gate'] = ''
    probe = go(play(make(kind), ['var set .' if kind == 'cmd' else 's z'], [], None))[2][0]
    if probe[0] != 0:
        r.bad('afterwards', {'lines': ops}, 'the next line works', probe, job)
