"""C19: exceptions at every call of user code, single and double, and what the CLI does afterwards."""
import itertools
from core import *  # noqa
import fake

BOUNDS = {
    'quick': '28 lines and 10 suggestion requests over 6 token classes (sync/async, completable or not, cacheable or not) and sync/async handlers: an exception at every call '
             '(token construction, match, complete, value, help, handler), at every pair of calls, and at every call of one kind of one class; each followed by 14 probe lines '
             'and 4 probe suggestion requests; the same with 9 lines of a command class; each execution with one of 3 exception types in turn; both iteration orders of internal sets',
    'thorough': 'every triple of calls; every single fault in one line followed by every single fault in another',
}
ASSUMPTIONS = ['user code raises subclasses of Exception with a printable message (cancellation and interpreter exit are not contained by design)',
               'a token whose construction fails stands for its name until the next line', 'user code keeps no state across lines']
TASKS = 1000

F = {'n': 0, 'at': (), 'always': None, 'mode': 'raise', 'log': [], 'exc': ValueError}


class Custom(Exception):
    pass


EXC = (ValueError, KeyError, Custom)


def hit(site):
    """A call of user code; True when it should return nothing instead of its result"""
    F['n'] += 1
    F['log'].append(site)
    if F['n'] in F['at'] or site == F['always']:
        if F['mode'] == 'none' and site == 'handler':
            return True
        raise F['exc']('fault %d' % F['n'])


def plan(at=(), always=None, mode='raise', exc=ValueError):
    F.update(n=0, at=tuple(at), always=always, mode=mode, log=[], exc=exc)


class AOpen(T.CliToken):
    """async, not completable: any word ending in z"""
    cache = False

    def __init__(self, name, *a, cli=None, helpstring=None):
        super().__init__(name, helpstring=helpstring)
        self.site = type(self).__name__
        hit(self.site + ' init')

    @property
    def cacheable(self):
        return self.cache

    @property
    def completable(self):
        return False

    async def get_helpstring(self, match_string=None, cli=None):
        hit(self.site + ' help')
        return 'help of ' + self.site

    async def complete(self, token_input, cli=None):
        hit(self.site + ' complete')
        return T.TOO_MANY_COMPLETIONS, []

    async def match(self, token_input, cli=None):
        hit(self.site + ' match')
        return T.MATCH_SUCCESS if token_input and token_input.endswith('z') else T.MATCH_PARTIAL

    async def get_value(self, match_string=None, cli=None):
        hit(self.site + ' value')
        return match_string[:-1] if match_string.endswith('z') else T.NullTokenValue


class ACachedOpen(AOpen):
    cache = True


class AList(AOpen):
    """async, completable: one of a few words, not cached"""
    opts = ('red', 'reed', 'blue')

    @property
    def completable(self):
        return True

    async def complete(self, token_input, cli=None):
        hit(self.site + ' complete')
        r = [o for o in self.opts if o.startswith(token_input or '')]
        return len(r), r

    async def match(self, token_input, cli=None):
        hit(self.site + ' match')
        r = [o for o in self.opts if o.startswith(token_input or '')]
        return T.MATCH_FAILURE if not r else T.MATCH_SUCCESS if token_input in r else T.MATCH_PARTIAL

    async def get_value(self, match_string=None, cli=None):
        hit(self.site + ' value')
        r = [o for o in self.opts if o.startswith(match_string or '')]
        r = [match_string] if match_string in r else r
        return r[0] if len(r) == 1 else T.NullTokenValue


class ACachedList(AList):
    cache = True
    opts = ('green', 'grey')


class SList(AOpen):
    """synchronous callbacks"""
    opts = ('red', 'rose')

    @property
    def completable(self):
        return True

    def complete(self, token_input, cli=None):
        hit(self.site + ' complete')
        r = [o for o in self.opts if o.startswith(token_input or '')]
        return len(r), r

    def match(self, token_input, cli=None):
        hit(self.site + ' match')
        r = [o for o in self.opts if o.startswith(token_input or '')]
        return T.MATCH_FAILURE if not r else T.MATCH_SUCCESS if token_input in r else T.MATCH_PARTIAL

    def get_value(self, match_string=None, cli=None):
        hit(self.site + ' value')
        r = [o for o in self.opts if o.startswith(match_string or '')]
        r = [match_string] if match_string in r else r
        return r[0] if len(r) == 1 else T.NullTokenValue


class SCachedList(SList):
    cache = True
    opts = ('tea', 'ten')


CLASSES = (AOpen, ACachedOpen, AList, ACachedList, SList, SCachedList)
TOKENS = 'token O AOpen(); token CO ACachedOpen(); token L AList(); token CL ACachedList(); token SL SList(); token CSL SCachedList(); token S StringToken();\n'
GRAMMAR = TOKENS + '''
sub[$x]: << call ev("sub", $x); >> SL << $x = call ev($1); $y = call aev($x, $y); >>;
g: "o" O << call ev("o", $2); >> << call aev("o again", $2); >>
 | "c" CO << call ev("c", $2); >>
 | "l" L << call aev("l", $2); >>
 | "cl" CL << call ev("cl", $2); >>
 | "sl" SL << call ev("sl", $2); >>
 | "csl" CSL << call ev("csl", $2); >>
 | "any" (L | SL | O | "red" << call ev("keyword"); >>) << call ev("any", $2); >>
 | "kw" (L << call ev("token", $1); >> | "word" << call ev("word"); >>)
 | "opt" { O << call ev("opt", $1); >> } { SL << call aev("sl", $1); >> } "end" << call ev("end"); >>
 | (<< $l = list(); call ev("acc"); >> "acc" ( (CL << append($l, call ev($1)); >>) * (1:2) ) "." << call aev($l); >>)
 | (<< $v = "u"; >> "var" { "set" << $v = call ev("set"); call ev($v); >> } "." << $w = call aev($v); call ev("var", $v, $w); >>)
 | "set" ({L << $m = call ev($1); >>}, {CSL << $n = call ev($1); >>}) << call ev("set", $m, $n); >>
 | (<< $k = 3; >> "call" sub[$k] sub[5] << call ev($k, $y, $x); >>)
 | "nest" << call ev(call ev("in"), list(call aev(1), call ev(2)), call ev(call ev(call ev(3)))); call ev("after"); >>
 | "wrong" << call noargs(1); call ev("w"); call missing(2); $r = append(); call ev("x", $r); >>
 | "go" S << call nested($2); call ev("go"); >>
 | "plain" S << call ev("plain", $2); >>
 | "two" L "y" | "done" << call ev("done"); >> | "donut" CO;
'''
LINES = ['o az', 'o a', 'c az', 'l red', 'l b', 'l re', 'cl gree', 'cl grey', 'sl rose', 'sl r', 'csl tea', 'any red', 'any rose', 'any bz', 'kw word', 'kw red', 'opt end', 'opt qz red end',
         'opt rose end', 'acc grey green .', 'var set .', 'var .', 'set red tea', 'call red rose', 'nest', 'go "nest"', 'two red', 'go "go \\"l red\\""']
SUGG = [('?', ('l',), True), ('?', ('any',), True), ('?', ('any', 're'), False), ('?', ('opt',), True), ('?', ('kw',), True), ('?', ('cl', 'gre'), False), ('?', ('set', 'red'), True), ('?', ('o',), True),
        ('?', ('c', 'a'), False), ('?', ('csl', 't'), False)]
PROBES = ['o az', 'c az', 'c bz', 'l red', 'cl gree', 'sl r', 'csl tea', 'any rose', 'opt qz red end', 'var .', 'set red tea', 'call red rose', 'wrong', 'x'] + [SUGG[1], SUGG[2], SUGG[5], SUGG[7]]


class Mix:
    extra_tokens = CLASSES

    def rec(self, *a):
        self.events.append(repr(a))

    def ev(self, *a):
        self.rec(*a)
        return None if hit('handler') else a[0]

    async def aev(self, *a):
        self.rec(*a)
        return None if hit('handler') else a[0]

    def noargs(self):
        self.rec('noargs')

    async def nested(self, line):
        st = await self.exec_line(line)
        self.rec('status', st if st == 0 else 'not 0')


class C(Mix, Cli):
    pass


class Cmd(Mix, NessaidCmd):
    __doc__ = TOKENS + 'sub[$x]: << call ev("sub", $x); >> SL << $x = call ev($1); $y = call aev($x, $y); >>;\n'

    def __init__(self, **k):
        self.events = []
        self.out, self.err = io.StringIO(), io.StringIO()
        super().__init__(loop=loop(), stdin=io.StringIO(), stdout=self.out, stderr=self.err, **k)

    def get_token_classes(self):
        return list(self.extra_tokens) + ALL_TOKENS

    def do_o(self, o):
        '''"o" O << $o = call ev($2); >>'''
        self.ev('o', o)

    async def do_l(self, l):
        '''"l" L << $l = $2; >>'''
        await self.aev('l', l)

    async def do_acc(self, l):
        '''<< $l = list(); call ev("acc"); >> "acc" ( (CL << append($l, call ev($1)); >>) * (1:2) ) "."'''
        await self.aev(l)

    def do_call(self, k):
        '''<< $k = 3; >> "call" sub[$k] sub[5]'''
        self.ev('call', k)

    def do_var(self, v):
        '''"var" { "set" << $v = call ev("set"); call ev($v); >> } "."'''
        self.ev('var', v)

    def do_any(self, v):
        '''"any" (L << $v = $1; >> | SL << $v = $1; >> | O << $v = $1; >> | "red")'''
        self.ev('any', v)

    async def do_go(self, s):
        '''"go" S << $s = $2; >>'''
        await self.nested(s)
        self.ev('go', s)


CLINES = ['o az', 'l red', 'l b', 'acc grey green .', 'call red rose', 'var set .', 'any rose', 'any bz', 'go "o az"']
CPROBES = ['o az', 'l red', 'acc grey .', 'call red rose', 'var .', 'any rose', 'x']

_spec = None
_kept = {}


def make(kind):
    global _spec
    fake.install()
    if kind == 'cmd':
        if 'cmd' not in _kept:
            plan()
            _kept['cmd'] = Cmd()
            for p in CPROBES:                       # tokens are constructed on first use
                do(_kept['cmd'], p)
        return _kept['cmd']
    if _spec is None:
        _spec = compile_grammar(GRAMMAR)
    c = C(_spec)
    c.enter_grammar('g')
    return c


def do(cli, op):
    """[status or result, events or suggestions]"""
    cli.events = []
    if isinstance(op, tuple):
        m = go(cli.match(list(op[1]), dry_run=True, last_token_complete=op[2], arglist=[]))
        return [m.result, sorted({str(t) for t in m.next_tokens or [] if str(t)}), list(cli.events)]
    st = go(cli.exec_line(op))
    return [st, list(cli.events)]


_ref = {}


def order(desc):
    """Fixes the iteration order of the sets of the implementation, so that the calls of user code come in the same order every time"""
    _ref.clear()
    _kept.clear()
    set_order(desc)


def ref(kind, op):
    """Fault-free on a fresh CLI, and the calls of user code it makes"""
    k = (kind, op)
    if k not in _ref:
        cli = make(kind)
        plan()
        out = do(cli, op)
        _ref[k] = out, list(F['log'])
    return _ref[k]


def jobs(tier):
    for kind, ops in (('cli', LINES + SUGG), ('cmd', CLINES)):
        for i in range(len(ops)):
            for desc in (False, True):
                yield ('faults', kind, i, 2 if tier == 'quick' or desc else 3, desc)
    if tier == 'thorough':
        for i in range(len(LINES)):
            yield ('two lines', i)


def judge(r, job, kind, op, got, at, always, exc, log, cli, err0, hist=None):
    """The faulty line itself"""
    base, _ = ref(kind, op)
    case = {'cli': kind, 'order': job[-1], 'line': list(op) if isinstance(op, tuple) else op, 'exception at calls': list(at) if at else 'every ' + str(always),
            'sites': [log[a - 1] for a in at if a <= len(log)], 'type': exc.__name__}
    if hist:
        case['after'] = hist
    faulted = [log[a - 1] for a in at if a <= len(log)] or ([always] if always else [])
    if not faulted:
        if got != base:
            r.bad('no fault', case, base, got, job)
        return
    size = len(str(op)) + 5 * len(at)
    err = cli.err.getvalue()[err0:]
    if isinstance(op, tuple):
        if got[0] not in (T.MATCH_SUCCESS, T.MATCH_PARTIAL, T.MATCH_FAILURE, T.MATCH_AMBIGUOUS) or got[2]:
            r.bad('suggestions', case, 'a result and no handler calls', got, job, size)
        # what the unaffected tokens and keywords offer is still offered
        hurt = {f.split()[0] for f in faulted}
        own = {'AOpen': ['help of AOpen'], 'ACachedOpen': ['help of ACachedOpen'], 'AList': ['red', 'reed', 'blue'], 'ACachedList': ['green', 'grey'], 'SList': ['red', 'rose'], 'SCachedList': ['tea', 'ten']}
        safe = set(base[1]) - {o for h in hurt for o in own.get(h, ())}
        if all(f.endswith('help') or f.endswith('complete') for f in faulted) or op[2]:
            if not any(f.endswith(('match', 'value', 'init')) for f in faulted) and not safe <= set(got[1]):
                r.bad('suggestions of others', case, sorted(safe), got, job, size)
        return
    if not isinstance(got[0], int):
        r.bad('status', case, 'an integer', got, job, size)
        return
    only_handlers = all(f == 'handler' for f in faulted)
    if only_handlers:
        cli2 = make(kind)
        plan(at, always, 'none', exc)
        want = do(cli2, op)
        plan()
        if got != want:
            r.bad('handler fault', case, want, got, job, size)
        if 'fault' not in err:
            r.bad('not reported', case, 'the exception on the error stream', err, job, size)
    elif not any(f == 'handler' for f in faulted):
        if got != base and not (got[0] != 0 and not got[1]):
            if 'go ' in str(op):
                # the outer line goes on, the inner one was rejected or ran
                inner = [e for e in got[1] if e not in base[1]]
                if got[0] == 0 and set(inner) <= {"('status', 'not 0')"}:
                    return
            if op == 'any red' and got in ([0, ["('keyword',)", "('any', 'red')"]], [0, ["('any', 'red')"]]):
                return          # of its several readings those of the failing classes are gone
            r.bad('token fault', case, [base, 'or rejected with no handler calls'], got, job, size)
        if all(f.endswith('help') for f in faulted) and got != base:
            r.bad('help fault', case, base, got, job, size)
    elif got[0] == 0 and len(got[1]) != len(base[1]) and op != 'any red' and 'go ' not in str(op):
        r.bad('mixed fault', case, 'accepted with the same number of handler calls as %r, or rejected' % base, got, job, size)
    elif got[0] != 0 and got[1]:
        r.bad('mixed fault', case, 'no handler calls for a rejected line', got, job, size)


def probe(r, job, kind, cli, case, probes):
    for p in probes:
        want, _ = ref(kind, p)
        plan()
        got = do(cli, p)
        r.transitions += 1
        if got != want:
            r.bad('afterwards', dict(case, then=list(p) if isinstance(p, tuple) else p), want, got, job, len(str(case)))


def one(r, job, kind, op, at, always, exc, probes):
    ref(kind, op)
    cli = make(kind)
    err0 = len(cli.err.getvalue())
    plan(at, always, 'raise', exc)
    got = do(cli, op)
    log = list(F['log'])
    plan()
    r.traces += 1
    r.states += 1
    r.transitions += len(log)
    r.outcomes['%s: %s' % (' + '.join(sorted(log[a - 1].split()[-1] for a in at if a <= len(log))) or 'every ' + str(always).split()[-1],
                           'ran' if got[0] == 0 else got[0] if isinstance(got[0], str) else 'rejected')] += 1
    judge(r, job, kind, op, got, at, always, exc, log, cli, err0)
    probe(r, job, kind, cli, {'cli': kind, 'line': op, 'exception at calls': list(at) or 'every %s' % always}, probes)
    if len(at) == 2:
        r.sample({'line': op, 'exception at calls': [[a, log[a - 1]] for a in at if a <= len(log)], 'outcome': got}, 1)


def run(job, r):
    if job[0] == 'faults':
        _, kind, i, depth, desc = job
        order(desc)
        op = (LINES + SUGG if kind == 'cli' else CLINES)[i]
        probes = PROBES if kind == 'cli' else CPROBES
        plan()
        base, log = ref(kind, op)
        n = len(log)
        r.extra['largest number of calls of user code of one line'] = max(n, r.extra['largest number of calls of user code of one line'])
        c = 0
        for d in range(1, depth + 1):
            for at in itertools.combinations(range(1, n + 1), d):
                # a fault can add or remove later calls: positions beyond the faulty run's calls do nothing and are counted as such
                c += 1
                one(r, job, kind, op, at, None, EXC[c % 3], probes if d < 2 or c % 2 else probes[c % 3::3])
        for site in sorted(set(log)):
            one(r, job, kind, op, (), site, EXC[c % 3], probes)
            if site.endswith(('match', 'value')):
                # a word only this class can read is never accepted while its checks raise
                needs = {'AOpen': ('o az', 'any bz', 'opt qz red end'), 'ACachedOpen': ('c az',), 'AList': ('l red', 'l b', 'kw red'), 'ACachedList': ('cl gree', 'cl grey', 'acc grey green .'),
                         'SList': ('sl rose', 'sl r', 'any rose', 'opt rose end', 'call red rose', 'opt qz red end'), 'SCachedList': ('csl tea',)}[site.split()[0]]
                if kind == 'cli' and op in needs:        # the command class still has the values of cacheable tokens from earlier lines
                    cli = make(kind)
                    plan((), site)
                    got = do(cli, op)
                    plan()
                    if got[0] == 0 or got[1]:
                        r.bad('accepted on a raising check', {'cli': kind, 'line': op, 'always raises': site}, 'rejected, no handler calls', got, job)
    else:
        _, i = job
        order(False)
        a = LINES[i]
        na = len(ref('cli', a)[1])
        for b in LINES:
            nb = len(ref('cli', b)[1])
            for k in range(1, na + 1):
                for m in range(1, nb + 1):
                    cli = make('cli')
                    plan((k,), None, 'raise', EXC[k % 3])
                    do(cli, a)
                    err0 = len(cli.err.getvalue())
                    plan((m,), None, 'raise', EXC[m % 3])
                    got = do(cli, b)
                    log = list(F['log'])
                    plan()
                    r.traces += 1
                    r.states += 1
                    r.transitions += len(log) + 1
                    if m <= len(log) and log[m - 1] != 'handler' or m > len(log):
                        if m <= len(log):
                            judge(r, job, 'cli', b, got, (m,), None, EXC[m % 3], log, cli, err0, [a, k])
                    probe(r, job, 'cli', cli, {'lines': [a, b], 'exception at calls': [k, m]}, PROBES[(k + m) % 5::5])
