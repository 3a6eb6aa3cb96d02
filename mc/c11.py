"""C11: every short key sequence with TAB on the real line editor, the keyboard replaced by a script."""
import itertools, shutil, tempfile
from core import *  # noqa
from refgrammar import Ref, render
from c01 import scan
import fake

try:
    from nessaid_readline.async_readline import NessaidAsyncReadline as Editor
except Exception:                                            # pragma: no cover
    Editor = object

BOUNDS = {
    'quick': '15 grammars (keywords with common beginnings, one keyword only, end of command, free strings with descriptions that begin like the typed text, keywords next to free '
             'strings, booleans, integers, quoted choices, choices in either letter case, choices from earlier words, optional and any-order blocks, repetition, paths); for each every '
             'sequence of at most 4 keys from pieces of its words, blank, TAB, backspace and ENTER, each ending in TAB followed by one more TAB, and by a blank and 2 TABs; sessions '
             'with joined lines, requests for input, history, cursor keys and CTRL+C of at most 5 keys; the line entered at the end of every session',
    'thorough': 'sequences of at most 6 keys, sessions of at most 7 keys',
}
ASSUMPTIONS = ['the keys are fed to the readline package in place of the terminal', 'the file system does not change during a session']
TASKS = 1000

TAB, ENTER, BS, LEFT, UP, INTR = '\t', '\r', '\x7f', '\x1b[D', '\x1b[A', '\x03'


class EndOfKeys(BaseException):
    pass


class Keys(Editor):
    """The real editor; keys come from a list, and watch() sees the line around each"""
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.keys, self.watch, self.last = [], None, None

    async def readchar(self):
        if self.last is not None:
            self.watch(*self.last, self.get_line_buffer())
            self.last = None
        if not self.keys:
            raise EndOfKeys()
        k = self.keys.pop(0)
        self.last = (k, self.get_line_buffer())
        return k


class Either(T.CliToken):
    """completable, letter case does not matter"""
    opts = ('Alpha', 'Alto', 'Beta')

    @property
    def case_insensitive(self):
        return True

    async def complete(self, token_input, cli=None):
        r = [c for c in self.opts if c.lower().startswith((token_input or '').lower())]
        return len(r), r

    async def match(self, token_input, cli=None):
        n, r = await self.complete(token_input)
        return T.MATCH_FAILURE if not r else T.MATCH_SUCCESS if any(token_input.lower() == o.lower() for o in r) else T.MATCH_PARTIAL

    async def get_value(self, match_string=None, cli=None):
        n, r = await self.complete(match_string)
        r = [o for o in r if o.lower() == match_string.lower()] or r
        return r[0] if n == 1 or len(r) == 1 else T.NullTokenValue


class Later(T.CliToken):
    """choices made of the word before"""
    @property
    def cacheable(self):
        return False

    def opts(self, cli):
        v = cli.get_matched_values()
        return [str(v[1]) + x for x in ('-in', '-out')] if len(v) > 1 else []

    async def complete(self, token_input, cli=None):
        r = [c for c in self.opts(cli) if c.startswith(token_input or '')]
        return len(r), r

    async def match(self, token_input, cli=None):
        r = [c for c in self.opts(cli) if c.startswith(token_input or '')]
        return T.MATCH_FAILURE if not r else T.MATCH_SUCCESS if token_input in r else T.MATCH_PARTIAL

    async def get_value(self, match_string=None, cli=None):
        r = [c for c in self.opts(cli) if c.startswith(match_string or '')]
        r = [match_string] if match_string in r else r
        return r[0] if len(r) == 1 else T.NullTokenValue


class Free(T.CliToken):
    """not completable, described by a text like its values"""
    @property
    def completable(self):
        return False

    async def get_helpstring(self, match_string=None, cli=None):
        return 'value of the setting'

    async def complete(self, token_input, cli=None):
        return T.TOO_MANY_COMPLETIONS, []

    async def match(self, token_input, cli=None):
        return T.MATCH_SUCCESS

    async def get_value(self, match_string=None, cli=None):
        return match_string


TOKENS = '''token S StringToken(); token N RangedIntToken(9, 12); token BIG RangedIntToken(100, 200000); token B BooleanToken(); token F Free(); token E Either(); token LA Later();
token Q AlternativeStringsToken("red one", "red two", "rose"); token P PathToken(); token D RangedDecimalToken(1.0, 1.5); token ONE AlternativeStringsToken("only one");
'''
QUOTED = {'Q': ['"red one"', '"red two"', 'rose'], 'ONE': ['"only one"']}
FREE = ('S', 'F', 'BIG', 'D', 'P')


def kw(k):
    return ('leaf', 0, k)


def seq(*x):
    return ('seq', tuple(kw(i) if isinstance(i, str) else i for i in x))


def alt(*x):
    return ('alt', tuple(kw(i) if isinstance(i, str) else i for i in x))


def opt(x):
    return ('opt', kw(x) if isinstance(x, str) else x)


def anyorder(*x):
    return ('set', tuple(kw(i) if isinstance(i, str) else i for i in x))


def h(kind, text):
    return ('leaf', text, kind)


GRAMMARS = {
    'show': (alt(seq('show', 'interface'), seq('show', 'interim'), 'shut', seq('reload', opt('now'))), ['s', 'sh', 'ow', 'in', 'show ', 'ter', 'r']),
    'only': (seq('status', 'full'), ['s', 'st', 'status', ' ', 'f', 'x']),
    'string': (alt(seq('set', 'S'), seq('setup', h('S', 'a text'))), ['set', 'up', ' ', 'A', 'Any', 'a', '"A']),
    'both': (alt(seq('set', alt('value', 'F', )), seq('v', h('S', 'val'))), ['set ', 'v', 'va', 'val', ' ', 'value']),
    'first': (alt('S', 'start', seq('stop', 'now')), ['A', 's', 'st', 'op', ' ', 'n']),
    'bool': (alt(seq('flag', 'B'), seq('flag', 'trip'), seq('fly', 'B', 'S')), ['fl', 'ag ', 't', 'T', 'tr', 'F', ' ', 'y true']),
    'int': (alt(seq('n', 'N', opt('x')), seq('big', 'BIG')), ['n ', '1', '9', '10', ' ', 'b', 'A']),
    'dec': (alt(seq('d', 'D'), seq('dd', 'N'), seq('do', opt('N'))), ['d', ' ', '1', '1.', 'o', '0']),
    'quoted': (alt(seq('pick', 'Q'), seq('pick', 'ring'), seq('put', 'Q', 'S')), ['pick ', '"re', 'd ', 'r', '"', 'ro', 'o', ' ']),
    'one': (alt(seq('ask', 'ONE'), seq('asker', 'ONE', 'E')), ['ask', 'er', ' ', '"', 'o', '"only']),
    'case': (alt(seq('e', 'E'), seq('e', 'alps')), ['e ', 'a', 'A', 'AL', 'al', 'b', ' ']),
    'later': (seq('of', 'S', 'LA'), ['of ', 'u', 'u ', '-', 'u-', 'i', 'A']),
    'blocks': (seq('x', anyorder(opt('yes'), opt('yep'), opt(seq('z', 'S')))), ['x', ' ', 'y', 'ye', 's', 'z', 'yes ']),
    'many': (seq('go', ('rep', alt('left', 'right', 'lead'), 1, 2), opt('end')), ['go', ' ', 'l', 'le', 'r', 'e', 'left ']),
    'path': (alt(seq('cd', 'P'), seq('rm', 'P', 'now')), ['cd ', '"', '"al', '"s', 'sub', '/', 'n', '"my ']),
}
EXTRA = {
    'joined': ('show', ['sh', 'show \\', 'in', 'show', '\\', ENTER, TAB, LEFT]),
    'request': ('request', ['ask', ENTER, 'v', TAB, ' ', 'ye']),
    'history': ('only', ['st', 'status', ENTER, TAB, UP, 'f', ' ']),
    'cursor': ('show', ['sh', 'show ', 'in', TAB, LEFT, INTR]),
}
REQUEST = (alt('ask', seq('yes', 'S')), [])


def fits(kind, w):
    """can the finished word w stand for this kind"""
    t = scan(w)
    if not t or len(t) != 1:
        return False
    if kind in ('S', 'F'):
        return True
    if kind == 'N':
        return w in ('9', '10', '11', '12')
    if kind == 'BIG':
        return w.isdigit() and 100 <= int(w) <= 200000
    if kind == 'D':
        return w.replace('.', '', 1).isdigit() and w[-1:] != '.' and 1 <= float(w) <= 1.5
    if kind in ('B', 'E'):
        return sum(c.lower().startswith(w.lower()) for c in KINDS[kind]) == 1
    return any(c.startswith(w) for c in QUOTED.get(kind, [kind]))


KINDS = {'B': ['true', 'false'], 'E': list(Either.opts)}


def begins(kind, w, last):
    """can the unfinished word w be continued to one of this kind"""
    if not w:
        return True
    if kind in ('S', 'F', 'P'):
        return True
    if kind == 'N':
        return any(x.startswith(w) for x in ('9', '10', '11', '12'))
    if kind == 'BIG':
        return w.isdigit() and any(100 <= int(w + '0' * k) <= 200000 for k in range(7))
    if kind == 'D':
        return any(('1.%s' % x).startswith(w) for x in ('0', '1', '2', '3', '4', '5'))
    if kind == 'LA':
        return any((last + x).startswith(w) for x in ('-in', '-out'))
    if kind in KINDS:
        return any(c.lower().startswith(w.lower()) for c in KINDS[kind])
    return any(c.startswith(w) for c in QUOTED.get(kind, [kind]))


def choices(kind, w, last):
    """the texts the word w can be completed to, None when they are not listed"""
    if kind == 'BIG' and fits(kind, w) and not any(begins(kind, w + d, last) for d in '0123456789'):
        return [w]                        # nothing can be added to this number
    if kind in FREE:
        return None
    if kind == 'N':
        return [x for x in ('9', '10', '11', '12') if x.startswith(w)]
    if kind == 'LA':
        return [last + x for x in ('-in', '-out') if (last + x).startswith(w)]
    if kind == 'B':
        return [w + c[len(w):] for c in (('True', 'False') if not w else KINDS['B']) if c.lower().startswith(w.lower())]
    if kind == 'E':
        return [c for c in KINDS['E'] if c.lower().startswith(w.lower())]
    return [c for c in QUOTED.get(kind, [kind]) if c.startswith(w)]


def words(line):
    """(finished words, word being typed) or None"""
    t = scan(line)
    if t is None:
        return None
    w = [x[0] for x in t]
    return (w, '') if not w or line[-1] == ' ' and not t[-1][3] else (w[:-1], w[-1])


def matches(done):
    def m(kind, w):
        if kind == 'LA':
            return any((done[1] + x) == w or (done[1] + x).startswith(w) and w not in (done[1], done[1] + '-') for x in ('-in', '-out'))
        if kind == 'P':
            return True
        return fits(kind, w)
    return m


def viable(g, line):
    """some accepted command begins with the line"""
    x = words(line)
    if x is None:
        return False
    done, w = x
    D, nxt = Ref(done, matches(done)).run(g)
    if not w:
        return bool(D) or bool(nxt) or not done
    last = done[-1] if done else ''
    return any(begins(n[2], w, last) for n in nxt)


def allowed(g, line):
    """the texts TAB may append"""
    x = words(line)
    if x is None:
        return {''}
    done, w = x
    D, nxt = Ref(done, matches(done)).run(g)
    last = done[-1] if done else ''
    kinds = {n[2] for n in nxt if begins(n[2], w, last)}
    opts = [choices(k, w, last) for k in kinds]
    out = {''}
    listed = sorted({c for o in opts if o for c in o})
    if w and w in listed and sum(c.startswith(w) for c in listed) == 1:
        out.add(' ')                      # the word is finished
    if not listed or None in opts:
        return out
    if not w:
        if len(listed) == 1 and not (D and done):
            out.add(listed[0])
            out.add(listed[0] + ' ')
        return out
    cp = os.path.commonprefix(listed)
    if cp.lower().startswith(w.lower()):
        out.add(cp[len(w):])
        if len(listed) == 1:
            out.add(cp[len(w):] + ' ')
    return out


def must(g, line):
    """a second TAB on the unchanged line has to append something: all that can come is listed and has more in common"""
    x = words(line)
    if x is None or allowed(g, line) == {''}:
        return False
    done, w = x
    last = done[-1] if done else ''
    return not any(n[2] in FREE and begins(n[2], w, last) for n in Ref(done, matches(done)).run(g)[1])


def leaf(n):
    k = n[2]
    t = k if k.isupper() and k in 'S N BIG B F E LA Q P D ONE'.split() else '"%s"' % k
    if n[1]:
        t += ' : "%s"' % n[1]
    return t + ' << call ev("%s", $1); >>' % k


class C(Cli):
    extra_tokens = (Either, Later, Free)
    rec = True

    def ev(self, *a):
        self.events.append(a)

    async def ask(self):
        self.events.append(('asked', await self.input('v>')))

    def process_cli_response(self, tokens, resp):
        self.events.append(('result', resp.result))
        super().process_cli_response(tokens, resp)


_sets = {}
MARK = ('ask',)


def grammar(name):
    if name not in _sets:
        g = REQUEST[0] if name == 'request' else GRAMMARS[name][0]
        text = TOKENS + 'g: ' + render(g, leaf, True) + ';\n'
        if name == 'request':
            text = TOKENS + 'g: "ask" << call ask(); >> | "yes" S << call ev("yes", $2); >>;\n'
        _sets[name] = compile_grammar(text), g
    return _sets[name]


def session(name, keys):
    """run the keys; returns (cli, steps): steps are (key, line before, line after, events so far)"""
    spec, g = grammar(name)
    c = C(spec, prompt='> ')
    steps = []
    rl = c.readline
    rl.keys = list(keys)
    rl.watch = lambda k, a, b: steps.append((k, a, b, len(c.events), rl._input_prompt))
    try:
        with limit():
            loop().run_until_complete(c.cmdloop('g'))
    except EndOfKeys:
        pass
    return c, g, steps


def split(pieces):
    out = []
    for p in pieces:
        out += [p] if p[0] in '\x1b\x7f\t\r\x03' else list(p)
    return out


def byhand(name, line, memo={}):
    """what the line does when typed without TAB"""
    k = (name, line)
    if k not in memo:
        spec, _ = grammar(name)
        c = C(spec, prompt='> ')
        c.enter_grammar('g')
        go(c.exec_line(line))
        if len(memo) > 20000:
            memo.clear()
        memo[k] = c.events
    return memo[k]


def check(r, job, name, pieces, base=''):
    keys = split(pieces) + [ENTER]
    c, g, steps = session(name, keys)
    r.traces += 1
    case = {'grammar': name, 'keys': ['TAB' if k == TAB else 'ENTER' if k == ENTER else k for k in pieces]}
    joined, seen, exp = '', 0, 0
    asking = False
    before = None                                # the line at the TAB before, when that added nothing
    for k, a, b, n, prompt in steps:
        r.transitions += 1
        again, before = before, None
        if k == TAB:
            r.states += 1
            if n != seen:
                return r.bad('ran', case, 'no command runs at TAB', c.events, job)
            if asking:
                if b != a:
                    return r.bad('typed into the answer', case, a, b, job)
                continue
            a0 = joined + a
            if joined and b.startswith(joined):
                joined = ''                      # the parts joined so far are shown again
                if prompt != '> ':
                    return r.bad('prompt', case, '> ', prompt, job)
            elif joined and b == a:
                a0 = a
            if joined == '' and not b.startswith(a0):
                return r.bad('altered', case, a0, b, job)
            add = b[len(a0):] if joined == '' else ''
            r.outcomes['adds ' + ('nothing' if not add else 'a blank' if add == ' ' else 'text')] += 1
            if joined == '' and not add and a0 == a:
                if a == again and name != 'path' and must(g, a):
                    return r.bad('not completed', case, sorted(allowed(g, a)), [a, b], job)
                before = a
            if add:
                ok = allowed(g, a0)
                if name == 'path':
                    if not paths(a0, b):
                        return r.bad('typed', case, 'nothing or the rest of a path', [a0, b], job)
                elif add not in ok:
                    return r.bad('typed', case, sorted(ok), [a0, b], job)
                elif not viable(g, b):
                    return r.bad('not viable', case, a0, b, job)
        elif k == ENTER:
            if asking:
                asking = False
                if c.events[exp][:1] != ('asked',) or c.events[exp][1] != a:
                    return r.bad('answer', case, a, c.events, job)
                exp += 1
                if c.events[exp:exp + 1] == [('result', 'success')]:
                    exp += 1
                seen = n
                continue
            line = joined + a
            if line.rstrip().endswith('\\'):
                joined = line.rstrip()[:-1]
                continue
            joined = ''
            if name == 'request' and line.split() and 'ask'.startswith(line.split()[0]) and len(line.split()) == 1:
                asking = True
                seen = n
                continue
            want = byhand(name, line)
            got = c.events[exp:exp + len(want)]
            if got != want or n != exp + len(want):
                return r.bad('entered', case, {line: want}, c.events[exp:], job)
            exp = seen = n
        elif k == INTR:
            joined = ''
            asking = False
            seen = exp = n
    if len(c.events) != seen and not asking:
        r.bad('ran', case, seen, c.events, job)


TREE = ['alpha', 'sub/beta', 'sub/bean', 'song', 'my dir/gamma']


def paths(a, b):
    """b is a begun command whose last word names something there or the beginning of it"""
    xa, xb = words(a), words(b)
    if xb is None:
        return False
    done, w = xb
    if not w:
        w = done[-1]
        return w.strip('"') in TREE + ['', 'sub', 'sub/', 'my dir', 'my dir/', 'cd', 'rm', 'now', '.', '..', './', '../', '/'] or 'now'.startswith(w)
    p = w.strip('"')
    return any(t.startswith(p) for t in TREE + ['.', './', '..', '../', '/', 'now', 'cd', 'rm'])


def jobs(tier):
    n = 6 if tier == 'thorough' else 4
    out = []
    for name, (g, pieces) in GRAMMARS.items():
        ks = pieces + [TAB]
        for a in itertools.product(ks, repeat=2):
            out.append((name, a, n - 2, True))
    for name, (g, ks) in EXTRA.items():
        for a in itertools.product(ks, repeat=2):
            out.append((name, a, n - 1, False))
    return [tuple(out[i::len(out) // 6]) for i in range(len(out) // 6)] + [('requests',)]


def requests(r, job):
    """TAB completes again after a request for input, however that ended"""
    spec, g = grammar('request')
    fake.install()
    try:
        c = C(spec, prompt='> ')
        async def run(ends):
            c.enter_grammar('g')
            rl = c.readline
            for e in ends:
                async def answer(prompt='', **k):
                    if e == 'cancelled':
                        await asyncio.sleep(3600)
                    if isinstance(e, type):
                        raise e()
                    return e
                rl.input = answer
                try:
                    t = asyncio.ensure_future(c.input('v>'))
                    for _ in range(3):
                        await asyncio.sleep(0)
                    t.cancel()
                    await t
                except BaseException:
                    pass
            out = []
            for text in ('ye', 'ye'):
                rl.buffer = text
                o = await c.complete(text, 0)
                out.append([rl.buffer, (o or '').strip()])
            c.exit_grammar()
            return out
        for n in (0, 1, 2):
            for ends in itertools.product(('x', 'cancelled', fake.NessaidReadlineEOF, fake.NessaidReadlineKeyboadInterrupt, ValueError), repeat=n):
                c = C(spec, prompt='> ')
                with limit():
                    got = loop().run_until_complete(run(ends))
                r.states += 1
                r.transitions += n + 2
                r.traces += 1
                if not n:
                    want = got
                if got != want or any('\t' in b for b, _ in got):
                    r.bad('completing after a request', {'requests end with': [str(e) for e in ends]}, want, got, job, n)
    finally:
        fake.install(Keys)


def run(job, r):
    if job[0] == 'requests':
        return requests(r, job)
    fake.install(Keys)
    d = tempfile.mkdtemp(prefix='mc11')
    old = os.getcwd()
    try:
        for t in TREE:
            os.makedirs(os.path.dirname(os.path.join(d, t)), exist_ok=True)
            open(os.path.join(d, t), 'w').close()
        os.chdir(d)
        for j in job:
            one(j, r)
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def dead(name, q):
    """a key follows a line that no command begins with, before the first TAB"""
    g = grammar(name)[1]
    t = ''
    bad = False
    for k in q:
        if k in (TAB, BS):
            return False
        if bad:
            return True
        t += k
        bad = name != 'path' and not viable(g, t)


def one(j, r):
    name, pre, n, plain = j
    full = n > 2
    if plain:
        ks = GRAMMARS[name][1] + [TAB, BS]
        for rest in itertools.product(ks, repeat=n):
            q = pre + rest
            if TAB not in q or dead(name, q):
                continue
            if q[-1] != TAB or full:
                check(r, (j,), name, q)
            if q[-1] == TAB:
                check(r, (j,), name, q + (TAB,))
                check(r, (j,), name, q + (' ', TAB, TAB))
    else:
        g, ks = EXTRA[name]
        for rest in itertools.product(ks, repeat=n):
            q = pre + rest
            if TAB in q:
                check(r, (j,), g, q)
