"""C24: several CLIs in one process, every interleaving of what is done with them, each against itself alone."""
import contextlib, itertools, os, pickle, re, shutil, tempfile
from core import *  # noqa
import nessaid_cli.cmd as _cmd
import fake
from c16 import _real

BOUNDS = {
    'quick': '9 kinds of CLI (two of them sharing one compiled grammar, their own compilation of the same text, another grammar with the same names, a command class, the same with the streams of the '
             'process, a class derived from it, an unrelated class of the same name and method names, the command loop of a class, a loop that opens contexts of it); for every pair of kinds '
             'every interleaved history of at most 2 operations on the two of them out of 9 to 11 each, of 3 out of 6 each (assigning and reading variables, ranged, chosen and custom tokens of the same names, '
             'a handler that waits until it is resumed, an unreadable line, a rejected line, suggestions, a measuring command, compiling rejected text, a command file, entering and leaving a context, leaving the loop); every combination of own and missing streams on three kinds of CLI under every sequence of 3 lines and redirections of the streams of the process',
    'thorough': 'histories of 3 operations out of 9 to 11 each, of 4 out of 6 each; of 3 out of 6 on three CLIs',
}
ASSUMPTIONS = ['what a CLI does alone is taken from a process that had no other CLI', 'compiling equal text gives equal grammars (the compilation of a text is repeated only in histories of at most 2 operations)']
TASKS = 1


def mine(n):
    """Token classes of one name"""
    class Mine(T.CliToken):
        def __init__(self, name, a, b, helpstring=None, cli=None):
            super().__init__(name, helpstring, cli)
            self.args = a, b

        @property
        def opts(self):
            return ['%s%s' % (n, x) for x in self.args]

        async def complete(self, token_input, cli=None):
            r = [o for o in self.opts if o.startswith(token_input or '')]
            return len(r), r

        async def match(self, token_input, cli=None):
            return T.MATCH_SUCCESS if token_input in self.opts else T.MATCH_PARTIAL if (await self.complete(token_input))[0] else T.MATCH_FAILURE

        async def get_value(self, match_string=None, cli=None):
            n, r = await self.complete(match_string)
            return r[0] if n == 1 else T.NullTokenValue
    return Mine


FILE = []
MINE = {'a': mine('m'), 'b': mine('o')}


class Term(fake.Fake):
    """Every read waits for its line"""
    def __init__(self, *a, **k):
        super().__init__()
        self.pending, self.reads = None, []

    async def take(self, prompt, hidden):
        self._input_prompt = prompt
        self.reads.append(prompt)
        self.pending = asyncio.get_running_loop().create_future()
        return await self.pending


class Mix:
    which = 'a'
    def setup(self):
        self.events, self.waiting, self.results = [], [], []

    def get_token_classes(self):
        return [MINE[self.which]] + ALL_TOKENS

    def ev(self, *a):
        self.events.append(repr(a))
        return a[0] if a else None

    async def wait(self, x):
        self.events.append('waits %r' % (x,))
        f = asyncio.get_running_loop().create_future()
        self.waiting.append(f)
        await f
        self.events.append('resumed %r' % (x,))
        return x

    def process_cli_response(self, tokens, resp):
        self.results.append(resp.result)
        super().process_cli_response(tokens, resp)


TA = 'token S StringToken(); token N RangedIntToken(1, 5); token W AlternativeStringsToken("red", "blue"); token M Mine(7, 8);\n'
TB = 'token S RangedStringToken(1, 3); token N RangedIntToken(4, 9); token W AlternativeStringsToken("rose", "green"); token M Mine(5, 6);\n'
GA = TA + '''sub[$x]: "q" << $x = "in a"; >>;
g: "set" S << $v = $2; call ev("set", $v); >> | "get" << call ev("get", $v); >> | "num" N << call ev($2); >> | "pick" W << call ev($2); >> | "mine" M << call ev($2); >>
 | "wait" S << $v = $2; $v = call wait($v); call ev($v); >> | (<< $k = 1; >> "sub" sub[$k] << call ev($k); >>);
'''
GB = TB + '''sub[$x]: "q" << $x = "in b"; >>;
g: "set" S << $v = $1; call ev("set b", $v, $2); >> | "get" << call ev("get b", $v); >> | "num" N << call ev("b", $2); >> | "pick" W << call ev("b", $2); >> | "mine" M << call ev("b", $2); >>
 | "wait" S << $v = $1; $w = call wait($2); call ev($v, $w); >> | (<< $k = 2; >> "sub" sub[$k] << call ev($k); >>);
'''
BAD = 'token S StringToken(); g: "a" | ;'


class C(Mix, NessaidCli):
    def __init__(self, spec, which):
        self.setup()
        self.which = which
        super().__init__(spec, loop=asyncio.get_running_loop(), stdin=io.StringIO(), stdout=io.StringIO(), stderr=io.StringIO())
        self.enter_grammar('g')


class Base(Mix, NessaidCmd):
    def __init__(self, **k):
        self.setup()
        self.streams = k.pop('streams', True)
        if self.streams:
            k = dict(dict(stdin=io.StringIO(), stdout=io.StringIO(), stderr=io.StringIO()), **k)
        super().__init__(**dict(dict(loop=asyncio.get_running_loop(), prompt='%s>' % type(self).__name__), **k))


def classes():
    class Here(Base):
        __doc__ = TA

        def do_set(self, v):
            """"set" S << $v = $2; >>"""
            self.ev('set', v)
            print('printed', v, file=self.stdout)

        def do_get(self, v):
            """"get" """
            self.ev('get', v)

        def do_num(self, v):
            """"num" N << $v = $2; >>"""
            self.ev(v)

        def do_pick(self, v):
            """"pick" W << $v = $2; >>"""
            self.ev(v)

        def do_mine(self, v):
            """"mine" M << $v = $2; >>"""
            self.ev(v)

        async def do_wait(self, v):
            """"wait" S << $v = $2; >>"""
            await self.wait(v)
            self.ev(v)

        def do_leave(self):
            """"leave" """
            self.exit_loop()

    class Derived(Here):
        """token X StringToken();"""

        def do_set(self, v, w):
            """"set" S {S} << $w = $2; >>"""
            self.ev('derived', v, w)
        do_get = None

        def do_other(self, v):
            """"other" X << $v = $2; >>"""
            self.ev('other', v)

    K = Here

    def other():
        class Here(Base):
            __doc__ = TB
            which = 'b'

            def do_set(self, w):
                """"set" S << $w = $1; >>"""
                self.ev('other set', w)

            def do_num(self, v):
                """"num" (N << $v = $1; >>)"""
                self.ev('b', v)

            def do_pick(self, w):
                """"pick" W << $w = $2; >>"""
                self.ev('b', w)

            def do_mine(self, v):
                """"mine" M << $v = $2; >>"""
                self.ev('b', v)

            async def do_wait(self, w):
                """"wait" S << $w = $1; >>"""
                await self.wait(w)
        return Here

    class Outer(Here):
        async def do_enter(self):
            """"enter" """
            await self.enter_context(Ctx, prompt='in>')

        def sees(self, *a):
            self.ev(*a)

    class Ctx(K):
        """Reports to its parent"""
        def __init__(self, **k):
            super().__init__(**k)
            self.events, self.waiting, self.results = self.parent.events, self.parent.waiting, self.parent.results
    Ctx.__doc__ = None
    return dict(k=Here, d=Derived, n=other(), o=Here, c=Outer, l=Here)


KLASS = classes()
KINDS = ('s', 'g', 'b', 'k', 'd', 'n', 'o', 'l', 'c')
LINES = ['set "a\\n"', 'get', 'num 4', 'pick r', 'mine m7', 'wait a', '+', 'set \\', '?pick ']
MENU = {'s': LINES + ['sub q', '!'], 'g': LINES + ['sub q', '!'], 'b': LINES + ['sub q', '!'],
        'k': LINES + ['cmd-timing on'], 'd': LINES + ['other x', 'set a b'], 'n': LINES + ['cmd-timing on'], 'o': LINES + ['cmd-timing on'],
        'l': ['set "a\\n"', 'num 4', 'pick r', 'wait a', '+', 'set \\', 'get x', '?', 'cmd-timing on', 'leave', 'file'],
        'c': ['set "a\\n"', 'pick r', 'wait a', '+', 'set \\', '?', 'enter', 'leave', 'get', 'file']}
FEW = {'s': ['set "a\\n"', 'get', 'wait a', '+', 'set \\', 'pick r'], 'g': ['set "a\\n"', 'mine m7', 'wait a', '+', '!', 'num 4'], 'b': ['set "a\\n"', 'get', 'wait a', '+', 'pick r', 'sub q'],
       'k': ['set "a\\n"', 'wait a', '+', 'set \\', 'cmd-timing on', 'pick r'], 'd': ['set a b', 'wait a', '+', 'other x', 'get', 'num 4'], 'n': ['set "a\\n"', 'wait a', '+', 'pick r', 'num 4', 'cmd-timing on'],
       'o': ['set "a\\n"', 'wait a', '+', 'set \\', 'cmd-timing on'], 'l': ['set "a\\n"', 'wait a', '+', 'cmd-timing on', 'leave', 'file'], 'c': ['set "a\\n"', 'wait a', '+', 'enter', 'leave', 'get']}


class One:
    """A CLI made at its first operation"""
    def __init__(self, kind, world):
        self.kind, self.world, self.cli, self.tasks, self.seen = kind, world, None, [], [0, 0, 0, 0, 0]

    def make(self):
        k = self.kind
        if k == 's':
            if 's' not in self.world:
                self.world['s'] = compiled(GA)
            self.cli = C(self.world['s'], 'a')
        elif k in 'gb':
            self.cli = C(compiled(GA if k == 'g' else GB), 'a' if k == 'g' else 'b')
        else:
            self.cli = KLASS[k](streams=False, disable_default_hooks=True) if k == 'o' else KLASS[k]()
            if k in 'lc':
                self.tasks.append(asyncio.ensure_future(self.cli.cmdloop(intro='hello')))

    async def op(self, o):
        if self.cli is None:
            self.make()
            await settle()
        c = self.cli
        if o == '+':
            w = list(c.waiting)
            del c.waiting[:]
            for f in w:
                f.set_result(None)
        elif o == 'file':
            c.add_file_to_execute(FILE[0])
        elif o == '!':
            old, sys.stderr = sys.stderr, io.StringIO()          # where the reason goes
            try:
                _real(BAD)
                c.events.append('compiled')
            except Exception as e:
                c.events.append('rejected ' + type(e).__name__)
            finally:
                sys.stderr = old
        elif o[0] == '?':
            rl = c.readline
            if self.kind in 'lc':
                rl.buffer = 'pick '
                rows = []
                while rl.completer:
                    x = await rl.completer(rl.buffer, len(rows))
                    if x is None or len(rows) > 100:
                        break
                    rows.append(x)
                c.events.append('rows %r' % (rows,))
            elif self.kind in 'sgb':
                m = await c.match(o[1:].split(), dry_run=True, last_token_complete=True, arglist=[])
                c.events.append('offers %r' % (sorted(str(t) for t in m.next_tokens or []),))
            else:
                c.enter_grammar(c.generate_root_grammar_name())
                m = await c.match(o[1:].split(), dry_run=True, last_token_complete=True, arglist=[])
                c.exit_grammar()
                c.events.append('offers %r' % (sorted(str(t) for t in m.next_tokens or []),))
        elif self.kind in 'lc':
            p = c.readline.pending
            if p and not p.done():
                p.set_result(o)
        else:
            self.tasks.append(asyncio.ensure_future(c.exec_line(o)))
        await settle()

    def look(self):
        """what happened since the last look"""
        if self.cli is None:
            return None
        c = self.cli
        own = getattr(c, 'streams', True)
        done = [t for t in self.tasks if t.done()]
        now = [c.events, c.results, [repr(t.exception()) if t.exception() else t.result() for t in done], getattr(c.readline, 'reads', []),
               [c.stdout.getvalue() if own else sys.stdout.getvalue(), c.stderr.getvalue() if own else sys.stderr.getvalue()]]
        new = [list(x[n:]) for x, n in zip(now[:4], self.seen)]
        self.seen = [len(x) for x in now[:4]] + [self.seen[4]]
        text = now[4]
        if text != self.seen[4]:
            new.append([re.sub(r'\d+\.\d+(e-?\d+)?', '#', t[len(u):]) for t, u in zip(text, self.seen[4] or ('', ''))])
            self.seen[4] = text
        return new if any(new[:4]) or new[4:] and any(new[4]) else []


_texts = {}
again = False


def compiled(text):
    if again:
        return _real(text)
    if text not in _texts:
        _texts[text] = _real(text)
    return _texts[text]


async def settle():
    lp = asyncio.get_running_loop()
    await asyncio.sleep(0)
    while lp._ready:
        await asyncio.sleep(0)


async def play(kinds, hist):
    """For each operation what each CLI did meanwhile"""
    world = {}
    clis = [One(k, world) for k in kinds]
    old = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    out = []
    try:
        for i, o in hist:
            await clis[i].op(o)
            out.append([c.look() for c in clis])
        if not any(k == 'o' for k in kinds):
            out.append([sys.stdout.getvalue(), sys.stderr.getvalue()])
        return out
    finally:
        for c in clis:
            for t in c.tasks:
                t.cancel()
        await settle()
        sys.stdout, sys.stderr = old


_alone = {}
_server = []


def solo(kind, ops, wr):
    """Forked: the operations on a CLI that is the only one its process ever had"""
    pid = os.fork()
    if not pid:
        try:
            try:
                with limit():
                    res = [x[0] for x in loop().run_until_complete(play([kind], [(0, o) for o in ops]))[:len(ops)]]
            except BaseException as e:
                res = repr(e)
            pickle.dump(res, wr)
            wr.flush()
        finally:
            os._exit(0)
    os.waitpid(pid, 0)


def serve():
    """A process that stays as it is now, without any CLI, and forks the lone ones"""
    rq, ra = os.pipe(), os.pipe()
    if not os.fork():
        try:
            os.close(rq[1])
            os.close(ra[0])
            rd, wr = os.fdopen(rq[0], 'rb'), os.fdopen(ra[1], 'wb')
            while True:
                solo(*pickle.load(rd), wr)
        except BaseException:
            pass
        finally:
            os._exit(0)
    os.close(rq[0])
    os.close(ra[1])
    _server[:] = [os.fdopen(rq[1], 'wb'), os.fdopen(ra[0], 'rb')]


def alone(kind, ops):
    """What each of the operations does on a CLI that is the only one in its process"""
    if (kind, ops) not in _alone:
        pickle.dump((kind, ops), _server[0])
        _server[0].flush()
        res = pickle.load(_server[1])
        for n in range(1, len(ops) + 1):
            _alone[kind, ops[:n]] = res[:n] if isinstance(res, list) else res
    return _alone[kind, ops]


def fill(todo, n=NPROC):
    """All of them beforehand, so that no job has to"""
    pipes = []
    for k in range(n):
        rd, wr = os.pipe()
        if not os.fork():
            try:
                os.close(rd)
                with os.fdopen(wr, 'wb') as f:
                    for kind, ops in todo[k::n]:
                        solo(kind, ops, f)
            finally:
                os._exit(0)
        os.close(wr)
        pipes.append(rd)
    for k, rd in enumerate(pipes):
        with os.fdopen(rd, 'rb') as f:
            for kind, ops in todo[k::n]:
                try:
                    res = pickle.load(f)
                except EOFError:
                    break
                for i in range(1, len(ops) + 1):
                    _alone[kind, ops[:i]] = res[:i] if isinstance(res, list) else res
        os.wait()


def check(r, job, kinds, hist):
    want = [alone(k, tuple(o for i, o in hist if i == j)) if any(i == j for i, _ in hist) else [] for j, k in enumerate(kinds)]
    with limit():
        got = loop().run_until_complete(play(kinds, hist))
    r.states += 1
    r.traces += 1
    r.transitions += len(hist)
    case = {'kinds': kinds, 'history': [list(h) for h in hist]}
    pos = [0] * len(kinds)
    for (i, o), seen in zip(hist, got):
        for j, s in enumerate(seen):
            if j == i:
                w = want[j][pos[j]] if isinstance(want[j], list) else want[j]
                if s != w:
                    r.bad('%s on %s' % (o, kinds[j]), case, w, s, job)
                    return
            elif s and not (kinds[j] == 'o' == kinds[i]):
                r.bad('%s on %s is noticed by %s' % (o, kinds[i], kinds[j]), case, [], s, job)
                return
        pos[i] += 1
    if len(got) > len(hist) and got[-1] != ['', '']:
        r.bad('streams of the process', case, ['', ''], got[-1], job)
        return
    for j, k in enumerate(kinds):
        if want[j]:
            r.outcomes['%s: %s' % (k, json.dumps(want[j][-1])[:60])] += 1


STEPS = ('put a', 'fail', 'no', 'out', 'err')


def streams(job, r, how, given):
    """Which streams a CLI writes to: its own, else the one the process has at that moment"""
    old = sys.stdout, sys.stderr
    TEXT = 'token S StringToken(); g: "put" S << print($2); >> | "fail" << $x = call nothing(); >>;'
    K = type('K', (Base,), {'__doc__': 'token S StringToken();', 'do_put': do_put, 'do_fail': do_fail})
    try:
        for n in (1, 2, 3):
            for steps in itertools.product(STEPS[:3] if how == 'child' else STEPS, repeat=n):
                now = {'out': io.StringIO(), 'err': io.StringIO()}
                all_ = [('out', now['out']), ('err', now['err'])]
                sys.stdout, sys.stderr = now['out'], now['err']
                kw = {'std' + x: io.StringIO() for x in given}
                own = {x: kw['std' + x] for x in given}
                all_ += list(own.items())

                async def steps_():
                    k = dict(kw, loop=asyncio.get_running_loop(), stdin=io.StringIO())
                    if how == 'cli':
                        cli = Plain(compiled(TEXT), **k)
                        cli.enter_grammar('g')
                    else:
                        cli = K(streams=False, **k)
                        if how == 'child':
                            await cli.enter_context(K, streams=False)
                            cli = cli.child_cli
                    got, want = [], []
                    for s in steps:
                        if s in now:
                            now[s] = io.StringIO()
                            all_.append((s, now[s]))
                            setattr(sys, 'std' + s, now[s])
                            continue
                        before = [len(f.getvalue()) for _, f in all_]
                        await cli.exec_line(s)
                        got.append([s, [[x, i] for i, (x, f) in enumerate(all_) if len(f.getvalue()) > before[i]]])
                        x = 'out' if s == 'put a' else 'err'
                        f = own.get(x, now[x])
                        want.append([s, [[x, [g for _, g in all_].index(f)]]])
                    return got, want
                with limit():
                    got, want = loop().run_until_complete(steps_())
                sys.stdout, sys.stderr = old
                r.states += 1
                r.transitions += n
                r.traces += 1
                if got != want:
                    r.bad('where it is written', {'cli': how, 'own streams': given, 'steps': steps}, want, got, job, n)
    finally:
        sys.stdout, sys.stderr = old


class Plain(NessaidCli):
    def get_token_classes(self):
        return ALL_TOKENS


def do_put(self, v):
    """"put" S << $v = $2; >>"""
    print('printed', v, file=self.stdout)


def do_fail(self):
    """"fail" """
    self.error('failed')


def jobs(tier):
    t = tier == 'thorough'
    fake.install(Term)
    with files():
        fill([(k, ops) for k in KINDS for n in (2, 3)[:1 + t] for ops in itertools.product((MENU if n == 2 else FEW)[k], repeat=n)])
    out = []
    for a, b in itertools.combinations_with_replacement(KINDS, 2):
        if a == b == 'o':
            continue
        for i in (0, 1)[:1 + (a != b)]:
            for first in MENU[(a, b)[i]]:
                out.append(((a, b), (i, first), t))
    if t:
        for a, b, c in itertools.combinations_with_replacement(KINDS, 3):
            if not a == b == c and (a, b, c).count('o') < 2:
                for i, k in enumerate((a, b, c)):
                    for first in FEW[k]:
                        out.append(((a, b, c), (i, first), t))
    return out + [('streams', how, g) for how in ('cli', 'cmd', 'child') for g in ((), ('out',), ('err',), ('out', 'err'))]


@contextlib.contextmanager
def files():
    d = tempfile.mkdtemp(prefix='mc24')
    FILE[:] = [os.path.join(d, 'f')]
    with open(FILE[0], 'w') as f:
        f.write('num 4\n')
    try:
        yield
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(job, r):
    global again
    fake.install(Term)
    if job[0] == 'streams':
        return streams(job, r, job[1], job[2])
    kinds, first, t = job
    ops = [(i, o) for i, k in enumerate(kinds) for o in MENU[k]]
    few = [(i, o) for i, k in enumerate(kinds) for o in FEW[k]]
    _cmd.compile_grammar = compiled
    with files():
        serve()
        for rest in itertools.product(ops if len(kinds) < 3 else few, repeat=1):
            again = len(kinds) < 3
            check(r, job, kinds, (first,) + rest)
        again = False
        for n in (2, 3)[:1 + (t and len(kinds) < 3)]:
            for rest in itertools.product(few if n == 3 or not t or len(kinds) > 2 else ops, repeat=n):
                h = (first,) + rest
                if len({i for i, _ in h}) < 2 or (n == 3 or not t) and first not in few:
                    continue
                check(r, job, kinds, h)
    for f in _server:
        f.close()
    os.wait()
