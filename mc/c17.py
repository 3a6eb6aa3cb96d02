"""C17: every line does after any history of lines what it does on a fresh CLI."""
import itertools
from core import *  # noqa
from nessaid_cli.utils import convert_to_cli_string

BOUNDS = {
    'quick': '72 operations (lines that collide in text, fail, raise, are partial or ambiguous, suggestion requests, changes of a token\'s choices, excursions into another '
             'grammar, a flood of 140 lines): every pair from a fresh CLI for cache sizes 0, 1, 128; every window of 3 of about every second operation on long-lived CLIs (cache size 1); 11 operations: '
             'every sequence of 3 on a fresh command-class CLI',
    'thorough': 'every triple from a fresh CLI for cache sizes 0, 1; every window of 3 for all cache sizes',
}
ASSUMPTIONS = ['user code keeps no state of its own except the choices of the non-cacheable token, which are part of the compared state',
               'compared: result, status, handler calls with arguments, printed text, suggestions, whether something was reported on the error stream']
TASKS = 1000

CHOICES = [['red', 'blue'], ['red', 'reed', 'x y'], []]
state = {'c': 0}


class Dyn(T.CliToken):
    """Choices may change at any time."""
    @property
    def cacheable(self):
        return False

    def opts(self):
        return [convert_to_cli_string(c) for c in CHOICES[state['c']]]

    async def complete(self, token_input, cli=None):
        r = [c for c in self.opts() if c.startswith(token_input or '')]
        return len(r), r

    async def match(self, token_input, cli=None):
        n, r = await self.complete(token_input)
        return T.MATCH_FAILURE if not n else T.MATCH_SUCCESS if token_input in r else T.MATCH_PARTIAL

    async def get_value(self, match_string=None, cli=None):
        n, r = await self.complete(match_string)
        r = [match_string] if match_string in r else r
        return [state['c'], r[0]] if len(r) == 1 else T.NullTokenValue


class Split(T.CliToken):
    """A cacheable token with a fresh mutable value each time it is asked."""
    def __init__(self, name, separator='.', helpstring=None, cli=None):
        self.separator = separator
        super().__init__(name, helpstring=helpstring, cli=cli)

    @property
    def completable(self):
        return False

    async def complete(self, token_input, cli=None):
        return T.TOO_MANY_COMPLETIONS, []

    async def match(self, token_input, cli=None):
        return T.MATCH_SUCCESS if token_input and '.' in token_input else T.MATCH_FAILURE

    async def get_value(self, match_string=None, cli=None):
        return match_string.split(self.separator)


class Bag(Split):
    """Values with collections in them."""
    async def get_value(self, match_string=None, cli=None):
        a = match_string.split('.')
        return set(a) if a[0] == 's' else {'k': a, 's': set(a)}


class After(T.CliToken):
    """Choices come from the words before it on the line."""
    @property
    def cacheable(self):
        return False

    def opts(self, cli):
        return [convert_to_cli_string(str(v) + '1') for v in cli.get_matched_values()[1:2]]

    def complete(self, token_input, cli=None):
        r = [c for c in self.opts(cli) if c.startswith(token_input or '')]
        return len(r), r

    def match(self, token_input, cli=None):
        n, r = self.complete(token_input, cli)
        return T.MATCH_FAILURE if not n else T.MATCH_SUCCESS if token_input in r else T.MATCH_PARTIAL

    def get_value(self, match_string=None, cli=None):
        n, r = self.complete(match_string, cli)
        return r[0] if n == 1 else T.NullTokenValue


class Mode(Dyn):
    """Cacheable with the first choices only."""
    @property
    def cacheable(self):
        return state['c'] == 0


TOKENS = '''
token S StringToken(); token RS RangedStringToken(2, 3, helpstring="some text"); token RI RangedIntToken(1, 20); token B BooleanToken(); token RD RangedDecimalToken(-1, 1);
token ALT AlternativeStringsToken("red", "reed", "a b"); token D Dyn(); token L Split(".", helpstring="parts"); token L2 Split("a", helpstring="parts"); token RS2 RangedStringToken(4, 5, helpstring="some text"); token BAG Bag(); token AF After(); token MO Mode();
'''
GRAMMAR = TOKENS + '''
sub[$x]: << $x = inc($x); >> "q" << call ev("q", $x, $y); $y = 1; >>;
g: "s" S << call ev("s", $2); >>
 | "t" RS << call ev("t", $2); >>
 | "i" RI << call ev("i", $2); >>
 | "b" B << call ev("b", $2); >>
 | "f" RD << call ev("f", $2); >>
 | "alt" ALT << call ev("alt", $2); >>
 | "dyn" D << append($2, "seen"); call ev("dyn", $2); >>
 | "mode" MO << call ev("mode", $2); >>
 | "u" RS2 << call ev("u", $2); >>
 | "cut" L2 << append($2, "tail"); call ev("cut", $2); >>
 | "split" L << append($2, "tail"); call ev("split", $2); >>
 | "bag" BAG << call touch($2); call ev("bag", $2); >>
 | "after" S AF << call ev("after", $2, $3); >>
 | "red" << call ev("red", $1); >>
 | "reed" << call ev("reed", $1); >>
 | (<< $l = list(); >> "acc" ( { S << append($l, $1); >> } * (1:2) ) << call ev("acc", $l); >>)
 | (<< call ev("var", $v); >> "var" { "set" << $v = "set"; >> } << call ev("var", $v); >>)
 | "set" ({"m" << $m = 1; >>}, {"n" << $n = $1; >>}) << call ev("set", $m, $n); >>
 | (<< $k = 3; >> "call" sub[$k] sub[5] sub[] << call ev("call", $k, $y, $x); >>)
 | "boom" { << $z = "z"; >> "b" << $r = call boom($z); >> } << call ev("boom", $r, $z); $r = 7; >>
 | "amb" ("w" | "w") << call ev("amb"); >>
 | "out" S << print($2); >>
 | "go" S << call nested($2); call ev("go", $2); >>
 | "two" "x" "y";
'''
OTHER = '''
h: "red" S << call ev("h", $2); >> | "s" << call ev("h s"); >>;
'''
LINES = ['s a', 's "a"', 's "a', 's "\\"a\\""', 's red', 's "a\\\\n"', 's "a\\n"', 's 007', 't ab', 't "\\n\\n"', 't a', 't abcd', 'u abcd', 'u ab', 'i 1', 'i 07', 'i 2', 'i 21', 'b t', 'b True', 'f 1', 'f .5',
         'alt red', 'alt re', 'alt "a', 'alt r', 'dyn red', 'dyn re', 'dyn r', 'mode re', 'split a.b', 'split a', 'cut a.b', 'bag s.b', 'bag a.b', 'after a a1', 'after b a1', 'red', 're', 'r', 'acc', 'acc a b', 'acc a',
         'var', 'var set', 'set m', 'set n m', 'call q q q', 'boom b', 'boom', 'amb w', 'out "a\\n"', 'go "s a"', 'go "boom b"', 'two x', 'two', '\\', 'x']
OPS = [('x', l) for l in LINES]
SUGG = [('?', ('alt', 're'), False), ('?', ('dyn',), True), ('?', ('after', 'a', 'a'), False), ('?', ('acc', 'a'), True), ('?', ('two', 'x'), False), ('?', ('re',), False), ('?', ('boom', 'b'), True)]
EXTRA = [('c', 0), ('c', 1), ('c', 2), ('h', 'red "a'), ('h', 's'), ('h', 'x'), ('flood',)]
OPS = OPS + SUGG + EXTRA
MUST = [('x', 'mode re'), ('x', 'dyn re'), ('c', 1)]
SMALL = [('x', l) for l in ('s "a"', 't "a\\n"', 'dyn re', 'split a.b', 'acc a b', 'var set', 'call q q', 'two', 'go "boom b"')] + [
    ('?', ('dyn',), True), ('c', 1)]


class Mix:
    extra_tokens = (Dyn, Split, Bag, After, Mode)

    def boom(self, *a):
        self.ev('boom', *a)
        raise ValueError('boom')

    def touch(self, v):
        for x in [v] if isinstance(v, set) else v.values():
            (x.add if isinstance(x, set) else x.append)('touched%d' % len(x))

    async def nested(self, line):
        self.ev('status', await self.exec_line(line))


class C(Mix, Cli):
    def error(self, *a, **k):
        self.errs = getattr(self, 'errs', 0) + 1


def snapshot(ev):
    return [repr([plain(x) for x in e]) for e in ev]


def plain(v):
    return sorted(v) if isinstance(v, set) else {k: plain(x) for k, x in v.items()} if isinstance(v, dict) else v


def do(cli, op):
    """Run one operation; what is observable about it"""
    out0, err0 = cli.out.tell(), getattr(cli, 'errs', 0)
    if op[0] == 'c':
        state['c'] = op[1]
        return None
    if op[0] == 'flood':
        for i in range(140):
            cli.line('s v%d' % i, 'g')
        return None
    if op[0] == 'x':
        cli.events, cli.resp = [], None
        if isinstance(cli, NessaidCmd):
            st = go(cli.exec_line(op[1]))
            res, ev = cli.resp.result if cli.resp else None, cli.events
        else:
            res, st, ev = cli.line(op[1], 'g')
        got = [res, st, snapshot(ev)]
    elif op[0] == 'h':
        cli.enter_grammar('g')
        res, st, ev = cli.line(op[1], 'h')
        after = cli.line('s a')
        cli.exit_grammar()
        got = [res, st, snapshot(ev), after[0], snapshot(after[2])]
        # in g, as it was before h was entered
        back = ['success', [repr(['s', 'a'])]]
        if [after[0], snapshot(after[2])] != back:
            got.append(['the grammar before is not back', back])
    else:
        if isinstance(cli, NessaidCmd):
            cli.enter_grammar(cli.generate_root_grammar_name())
            m = go(cli.match(list(op[1]), dry_run=True, last_token_complete=op[2], arglist=[]))
            cli.exit_grammar()
            got = [m.result, sorted(str(t) for t in m.next_tokens or [] if str(t))]
        else:
            got = list(cli.suggest(op[1], op[2], 'g'))
    return got + [cli.out.getvalue()[out0:], getattr(cli, 'errs', 0) > err0, len(cli._grammar_stack) if hasattr(cli, '_grammar_stack') else 0]


_ref = {}
_spec = None


def spec(fresh=False):
    global _spec
    if fresh or _spec is None:
        s = compile_grammar(GRAMMAR + OTHER)
        if fresh:
            return s
        _spec = s
    return _spec


def ref(op, kind):
    """What the operation does on a fresh CLI with a freshly compiled grammar, for the current choices"""
    k = (kind, op, state['c'])
    if k not in _ref:
        _ref[k] = do(make(kind, 128, True), op)
    return _ref[k]


def make(kind, size, fresh=False):
    if kind == 'cli':
        return C(spec(fresh), str_cache_size=size)
    return K(str_cache_size=size)


class K(Mix, NessaidCmd):
    __doc__ = TOKENS + 'sub[$x]: << $x = inc($x); >> "q" << call ev("q", $x, $y); $y = 1; >>;\n'

    def __init__(self, **kw):
        self.events, self.resp = [], None
        self.out, self.err = io.StringIO(), io.StringIO()
        super().__init__(loop=loop(), stdin=io.StringIO(), stdout=self.out, stderr=self.err, disable_default_hooks=True, **kw)

    def get_token_classes(self):
        return list(self.extra_tokens) + ALL_TOKENS

    def ev(self, *a):
        self.events.append(a)

    def error(self, *a, **k):
        self.errs = getattr(self, 'errs', 0) + 1

    def process_cli_response(self, tokens, resp):
        self.resp = resp
        super().process_cli_response(tokens, resp)

    def do_s(self, s):
        '''"s" S << $s = $2; >>'''
        self.ev('s', s)

    def do_t(self, s):
        '''"t" RS << $s = $2; >>'''
        self.ev('t', s)

    async def do_dyn(self, d):
        '''"dyn" D << append($2, "seen"); $d = $2; >>'''
        self.ev('dyn', d)

    async def do_split(self, d):
        '''"split" L << append($2, "tail"); $d = $2; >>'''
        self.ev('split', d)

    def do_acc(self, l):
        '''<< $l = list(); >> "acc" ( { S << append($l, $1); >> } * (1:2) )'''
        self.ev('acc', l)

    def do_var(self, v):
        '''"var" { "set" << $v = "set"; >> }'''
        self.ev('var', v)

    def do_call(self, k):
        '''<< $k = 3; >> "call" sub[$k] sub[5]'''
        self.ev('call', k)

    def do_boom(self, z):
        '''"boom" { "b" << $z = "z"; >> }'''
        self.boom(z)

    def do_red(self):
        '''"red"'''
        self.ev('red')

    def do_two(self):
        '''"two" "x" "y"'''
        self.ev('two')

    async def do_go(self, s):
        '''"go" S << $s = $2; >>'''
        await self.nested(s)


def debruijn(k, n):
    a, seq = [0] * (k * n), []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq + seq[:n - 1]


def jobs(tier):
    for size in (0, 1, 128):
        for i in range(len(OPS)):
            yield ('from', 'cli', size, i, 2 if tier == 'quick' or size == 128 else 3)
    for c in range(8):
        yield ('from small', c)
    parts = 12
    for size in ((1,) if tier == 'quick' else (0, 1, 128)):
        for c in range(parts):
            yield ('window', size, c, parts, tier)


def check(r, job, cli, op, kind, hist):
    want = ref(op, kind)
    got = do(cli, op)
    r.transitions += 1
    if got is not None:
        r.outcomes['%s %s' % (op[0], got[0])] += 1
    if got != want or op[0] == 'h' and len(got) > 8:
        r.bad('%s %s' % (op[0], op[1:]), {'cli': kind, 'history': [list(h) for h in hist[-6:]], 'operation': list(op), 'choices': CHOICES[state['c']]}, want, got, job, len(hist))


def run(job, r):
    state['c'] = 0
    if job[0] == 'from':
        _, kind, size, i, n = job
        for rest in itertools.product(OPS, repeat=n - 1):
            seq = (OPS[i],) + rest
            if any(o[0] == 'flood' for o in (seq if size == 0 else seq[1:])):
                continue
            state['c'] = 0
            cli = make(kind, size)
            for k, op in enumerate(seq):
                check(r, job, cli, op, kind, seq[:k])
            r.traces += 1
            r.states += 1
            r.sample({'sequence': [list(o) for o in seq]})
    elif job[0] == 'from small':
        seqs = list(itertools.product(SMALL, repeat=3))[job[1]::8]
        for seq in seqs:
            state['c'] = 0
            cli = make('cmd', (0, 1, 128)[job[1] % 3])
            for k, op in enumerate(seq):
                check(r, job, cli, op, 'cmd', seq[:k])
            r.traces += 1
            r.states += 1
    else:
        _, size, c, parts, tier = job
        ops = [o for o in OPS if o[0] != 'flood']
        ops = [o for i, o in enumerate(ops) if i % 2 == 0 and o != ('x', 's red') or o in MUST] if tier == 'quick' else ops
        seq = debruijn(len(ops), 3)
        n = len(seq) // parts + 1
        seq = [ops[i] for i in seq[c * n:(c + 1) * n + 2]]
        cli = make('cli', size)
        for k, op in enumerate(seq):
            check(r, job, cli, op, 'cli', seq[max(0, k - 6):k])
            if k % 2000 == 1999:
                cli.out.seek(0), cli.out.truncate()
        r.traces += 1
        r.states += len(seq)
