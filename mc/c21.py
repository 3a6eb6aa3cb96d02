"""C21: the built-in measuring commands against a reference, for every short history of toggles and lines."""
import contextlib, itertools
from core import *  # noqa
import nessaid_cli.cmd as _cmd
from nessaid_cli.cmd import NessaidCmd

BOUNDS = {
    'quick': '28 operations (timing and profiling on, off, abbreviated, incomplete and wrong; lines that succeed, fail, are partial or ambiguous, raise, suspend, print; lines executed by '
             'handlers, also ones that toggle; suggestion requests): every sequence of 2, every sequence of 4 over 8 of them, and every operation under each of the 4 settings; the memory command with every '
             'combination of its arguments in every order, twice in a row, on a class that measures memory and on one that does not; the system information command on systems with every memory size next to a unit, 0 to 3 processors, with and without known frequencies, and without the package; every 3 measurements (plain, differences, 3 differences) in a CLI, its context or one just opened',
    'thorough': 'every sequence of 3 over all, every sequence of 5 over 8 of them',
}
ASSUMPTIONS = ['what the measurements say is not judged, only that there is one for each line that should have one, and none for the others']
TASKS = 1000

LINES = ['say a', 'say "a', 'sa a', 'say', 'two', 'two x', 'two x y', 'zip', '', '\\', 'boom b', 'slow c', 'out d', 'amb', 'go "say e"', 'go "two"', 'go "boom f"', 'go "go \\"say g\\""']
TOGGLE = ['cmd-timing on', 'cmd-timing off', 'cmd-profiling on', 'cmd-profiling off', 'cmd-t on', 'cmd-timing', 'cmd-p x', 'go "cmd-timing on"', 'go "cmd-timing off"', 'go "cmd-profiling off"']
SUGG = [('?', (), True), ('?', ('cmd',), False), ('?', ('cmd-timing',), True), ('?', ('say', 'a'), True)]
OPS = [('x', l) for l in LINES + TOGGLE]
FEW = [('x', l) for l in ('cmd-timing on', 'cmd-timing off', 'cmd-profiling on', 'cmd-profiling off', 'say a', 'go "say e"', 'two')] + [SUGG[2]]


class K(NessaidCmd):
    """token S StringToken();"""

    def __init__(self, **kw):
        self.events, self.resp, self.errs = [], None, 0
        self.out = io.StringIO()
        super().__init__(loop=loop(), stdin=io.StringIO(), stdout=self.out, stderr=io.StringIO(), prompt='k>', **kw)

    def error(self, *a, **k):
        self.errs += 1

    def process_cli_response(self, tokens, resp):
        self.resp = resp
        super().process_cli_response(tokens, resp)

    def do_say(self, x):
        '''"say" S << $x = $2; >>'''
        self.events.append(('say', x))

    def do_two(self):
        '''"two" "x"'''
        self.events.append(('two',))

    def do_boom(self, x):
        '''"boom" S << $x = $2; >>'''
        self.events.append(('boom', x))
        raise ValueError('boom')

    async def do_slow(self, x):
        '''"slow" S << $x = $2; >>'''
        self.events.append(('slow', x))
        await asyncio.sleep(0)
        self.events.append(('slow end', x))

    def do_out(self, x):
        '''"out" S << $x = $2; >>'''
        self.print(x)

    def do_amb(self):
        '''("amb" | "amb")'''
        self.events.append(('amb',))

    async def do_go(self, x):
        '''"go" S << $x = $2; >>'''
        self.events.append(('go', x))
        self.events.append(('status', await self.exec_line(x)))


class N(K):
    do_go = do_slow = do_amb = do_out = None


_specs = {}
_real = getattr(_cmd, 'compile_grammar', compile_grammar)


def cached(text, *a, **k):
    if text not in _specs:
        _specs[text] = _real(text, *a, **k)
    return _specs[text]


def do(cli, op):
    """(what must not depend on the settings, times printed, profiles printed, rest of the output)"""
    a, e = cli.out.tell(), cli.errs
    std = io.StringIO()
    cli.events, cli.resp = [], None
    with contextlib.redirect_stdout(std):
        if op[0] == 'x':
            st = go(cli.exec_line(op[1]))
            got = [st, cli.resp.result if cli.resp else None, list(cli.events)]
        else:
            cli.enter_grammar(cli.generate_root_grammar_name())
            try:
                m = go(cli.match(list(op[1]), dry_run=True, last_token_complete=op[2], arglist=[]))
            finally:
                cli.exit_grammar()
            got = [m.result, m.accepted, sorted(str(t) for t in m.next_tokens or []), list(cli.events)]
    out = cli.out.getvalue()[a:]
    times = out.count('Time taken:')
    profiles = out.count('Token Hit:')
    rest = [l for l in out.split('\n') if l and not l.startswith(('start: ', 'end: ', 'Time taken: '))] if not profiles else None
    return got + [cli.errs > e, 'printed elsewhere' if std.getvalue() else None], times, profiles, rest


class Settings:
    """which lines are measured"""
    def __init__(self):
        self.t = self.p = False

    def line(self, l, outer=True):
        """(times, profiles) printed for the line"""
        words = l.split(' ', 1)
        p0, n, toggles_time = self.p, 0, False
        if l in ('', '\\'):
            return 0, 0
        if l in ('cmd-timing on', 'cmd-t on', 'cmd-timing off'):
            self.t = l.endswith('on')
            toggles_time = True
        elif l in ('cmd-profiling on', 'cmd-profiling off'):
            self.p = l.endswith('on')
        elif words[0] == 'go':
            n, _ = self.line(words[1][1:-1].replace('\\"', '"'), False)
        return n + (self.t and not toggles_time), int(outer and p0 and self.p)


_ref = {}


def ref(op):
    if op not in _ref:
        g, t, p, rest = do(K(), op)
        _ref[op] = g, rest
    return _ref[op]


def sequence(r, job, cli, seq):
    s = Settings()
    for i, op in enumerate(seq):
        want, rest = ref(op)
        wt, wp = s.line(op[1]) if op[0] == 'x' else (0, 0)
        got, t, p, o = do(cli, op)
        r.transitions += 1
        r.outcomes['%s, %d times, %d profiles' % (got[1] if op[0] == 'x' else 'suggestions', t, p)] += 1
        case = dict(history=[list(q) for q in seq[:i]], operation=list(op))
        if got != want:
            r.bad('result %s' % (op[1],), case, want, got, job, i)
        elif (t, p) != (wt, wp):
            r.bad('measured %s' % (op[1],), case, dict(times=int(wt), profiles=wp), dict(times=t, profiles=p), job, i)
        elif p == 0 and o != rest:
            r.bad('output %s' % (op[1],), case, rest, o, job, i)
    r.traces += 1
    r.states += 1


def jobs(tier):
    n = 2 if tier == 'quick' else 3
    A = OPS + SUGG
    for i in range(len(A)):
        yield 'all', i, n
    for i in range(len(FEW)):
        yield 'few', i, 4 if tier == 'quick' else 5
    yield 'settings', 0, 0
    for i in range(len(SIZES)):
        yield 'info', i, 0
    yield 'info', None, 0
    yield 'memory', True, 0
    yield 'memory', False, 0
    for w in 'rcn':
        for d in ('', ' delta', ' delta 3'):
            yield 'differences', (w, d), 0


def run(job, r):
    _cmd.compile_grammar = cached
    try:
        body(job, r)
    finally:
        _cmd.compile_grammar = _real


def body(job, r):
    kind, i, n = job
    A = OPS + SUGG
    if kind in ('all', 'few'):
        for rest in itertools.product(A if kind == 'all' else FEW, repeat=n - 1):
            seq = ((A if kind == 'all' else FEW)[i],) + rest
            sequence(r, job, K(), seq)
            r.sample([list(o) for o in seq])
    elif kind == 'settings':
        for t, p in itertools.product((0, 1), repeat=2):
            for order in (0, 1):
                pre = [('x', 'cmd-timing on')] * t + [('x', 'cmd-profiling on')] * p
                post = [('x', 'cmd-timing off')] * t + [('x', 'cmd-profiling off')] * p
                for op in A:
                    for last in (('x', 'say a'), ('x', 'go "say e"'), ('x', 'two')):
                        sequence(r, job, K(), (pre[::-1] if order else pre) + [op] + (post[::-1] if order else post) + [last])
    elif kind == 'differences':
        differences(r, job, i)
    elif kind == 'info':
        info(r, job, i)
    else:
        memory(r, job, i)


def memory(r, job, on):
    """the memory command"""
    import tracemalloc
    class M(K):
        do_go = do_slow = do_amb = do_out = None
    try:
        cli = M(do_tracemalloc=on)
        one = [['tracemalloc'] + list(a) for k in (0, 1, 2) for a in itertools.permutations(('delta', '2', '1', '0', '101', 'x'), k)]
        good = lambda w: len(w) == 1 or sorted(w[1:]) in (['delta'], ['1'], ['2'], ['1', 'delta'], ['2', 'delta'])
        for w in one:
            for again in (1, 2):
                line = ' '.join(w)
                got, t, p, o = do(cli, ('x', line))
                r.transitions += 1
                r.traces += 1
                ok = on and good(w)
                top = [x for x in o or () if x.startswith('Top ')]
                n = [x for x in w if x in ('1', '2')] or ['20']
                r.outcomes['memory ' + str(got[1])] += 1
                if (got[0] == 0) != ok or (top != ['Top %s lines' % n[0]] if ok else o):
                    r.bad('memory %s (%d)' % (line, again), dict(enabled=on, line=line), ok and 'Top %s lines' % n[0], [got, o], job)
                if on and ok:
                    k = do(cli, ('x', 'say a'))
                    if k[0] != ref(('x', 'say a'))[0]:
                        r.bad('after memory ' + line, dict(line=line), ref(('x', 'say a'))[0], k[0], job)
            r.states += 1
        # a context has it when the CLI it is opened in has it
        q = type('Q', (NessaidCmd,), {'get_token_classes': lambda self: ALL_TOKENS})
        c = q(loop=loop(), stdin=io.StringIO(), stdout=io.StringIO(), stderr=io.StringIO(), do_tracemalloc=on)
        for depth in range(3):
            for line in ('tracemalloc', 'tracemalloc 2'):
                st = go(c.exec_line(line))
                r.transitions += 1
                if (st == 0) != on:
                    r.bad('memory in a context', dict(enabled=on, depth=depth, line=line), on, st, job, depth)
            go(c.enter_context(q, disable_default_hooks=False))
            c = c.child_cli
        # whichever other CLIs there are
        if tracemalloc.is_tracing():
            tracemalloc.stop()
        for first in (False, True):
            for seq in itertools.product((False, True), repeat=4 if on else 3):
                if first:
                    tracemalloc.start()
                cs = []
                for z in seq:
                    cs.append((M(do_tracemalloc=z), z))
                    for c, want in cs:
                        st = do(c, ('x', 'tracemalloc'))[0][0]
                        r.transitions += 1
                        if (st == 0) != want:
                            r.bad('memory of several', dict(measured_before=first, created=seq[:len(cs)]), want, st, job, len(seq))
                r.traces += 1
                r.states += 1
                tracemalloc.stop() if tracemalloc.is_tracing() else None
    finally:
        if tracemalloc.is_tracing():
            tracemalloc.stop()


SIZES = [0, 1] + [n for k in range(1, 6) for n in (1024 ** k - 1, 1024 ** k, 3 * 1024 ** k // 2)]


def readable(n):
    k = max([0] + [i for i in range(1, 6) if n >= 1024 ** i])
    return '%.2f%sB' % (n / 1024 ** k, ' KMGTP'[k].strip())


class Sys:
    """stands in for the psutil package"""
    def __init__(self, total, rest, freq, cpus):
        self.total, self.rest, self.freq, self.cpus = total, rest, freq, cpus

    def boot_time(self):
        return 86400.0 * 400

    def cpu_count(self, logical=True):
        return self.cpus + 40 if logical else self.cpus + 20

    def cpu_freq(self):
        return self.freq and type('F', (), dict(zip(('min', 'max', 'current'), self.freq)))

    def cpu_percent(self, percpu=False, interval=None):
        return [float(i) for i in range(self.cpus)] if percpu else 12.5

    def virtual_memory(self):
        return type('M', (), dict(total=self.total, available=self.rest, used=self.rest + 1, percent=7.5))


def info(r, job, i):
    """the system information command, on systems of every kind and where the package is missing"""
    def show(mod, on):
        old = sys.modules.get('psutil')
        sys.modules['psutil'] = mod
        try:
            c = K()
            if on:
                do(c, ('x', 'cmd-timing on'))
            r.traces += 1
            r.states += 1
            r.transitions += 1
            return do(c, ('x', 'system-info')), do(c, ('x', 'say a'))[0] == ref(('x', 'say a'))[0]
        finally:
            sys.modules.pop('psutil')
            if old is not None:
                sys.modules['psutil'] = old
    for on in (False, True):
        if i is None:
            (got, t, p, o), fine = show(None, on)
            if got != [0, 'success', [], False, None] or len(o) != 1 or 'psutil' not in o[0] or t != on or not fine:
                r.bad('system information without the package', dict(timing=on), 'told so', [got, t, o, fine], job)
            continue
        for rest, freq, cpus in itertools.product(SIZES, (None, (1.0, 2.5, 0.25)), (0, 1, 3)):
            (got, t, p, o), fine = show(Sys(SIZES[i], rest, freq, cpus), on)
            want = ['Physical cores: %d' % (cpus + 20), 'Total cores: %d' % (cpus + 40)]
            want += freq and ['Max Frequency: 2.50Mhz', 'Min Frequency: 1.00Mhz', 'Current Frequency: 0.25Mhz'] or []
            want += ['Core %d: %.1f%%' % (k, k) for k in range(cpus)] + ['Total CPU Usage: 12.5%', 'Total: ' + readable(SIZES[i]), 'Available: ' + readable(rest), 'Used: ' + readable(rest + 1),
                                                                     'Percentage: 7.5%']
            miss = [w for w in want if (o or []).count(w) != 1]
            more = [x for x in o or () if x not in want and x[:1] != '=' and not x.startswith(('Boot Time: 197', 'CPU Usage Per Core'))]
            if got != [0, 'success', [], False, None] or miss or more or t != on or not fine:
                r.bad('system information', dict(total=SIZES[i], available=rest, frequency=freq, cpus=cpus, timing=on), want, [got, t, o, fine], job, SIZES[i].bit_length() + rest.bit_length())


def differences(r, job, first):
    """differences are taken to the measurement before, in whichever of the contexts"""
    import tracemalloc
    try:
        for seq in itertools.product([(w, d) for w in 'rcn' for d in ('', ' delta', ' delta 3')], repeat=3):
            if seq[0] != first:
                continue
            tracemalloc.stop() if tracemalloc.is_tracing() else None
            root = N(do_tracemalloc=True)
            cs = {'r': root, 'c': N(do_tracemalloc=True, parent=root)}
            before = False
            for i, (w, d) in enumerate(seq):
                # n: a context opened just now
                c = cs.get(w) or N(do_tracemalloc=True, parent=cs['c'])
                got, t, p, o = do(c, ('x', 'tracemalloc' + (d or ' 1')))
                r.transitions += 1
                none = sum(x.startswith('No previous') for x in o)
                diffs = sum(', average=' in x or ' size=' in x for x in o)
                n = 1 if not d else 3 if d.endswith('3') else 20
                entries = sum(x.startswith('#') for x in o)
                if got[0] != 0 or none != (bool(d) and not before) or not (entries == n or n == 20 and 1 <= entries < n) or not (1 <= diffs <= n if d and before else diffs == 0):
                    r.bad('memory differences', dict(measurements=seq[:i + 1]), dict(entries=n, previous=before, differences=bool(d and before)),
                          dict(result=got, entries=entries, told_none=none, differences=diffs), job, i)
                before = True
            r.traces += 1
            r.states += 1
    finally:
        if tracemalloc.is_tracing():
            tracemalloc.stop()
