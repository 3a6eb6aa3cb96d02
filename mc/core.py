"""Shared machinery: running the real CLI, counting, parallel jobs, evidence, replay files."""
import asyncio, collections, importlib, io, itertools, json, multiprocessing, os, signal, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NESSAID_REPO', '/repo')
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

HANG_S = 30          # one execution may not run longer than this (they take milliseconds)
NPROC = int(os.environ.get('MC_NPROC', '8'))
FAILFAST = bool(os.environ.get('MC_FAILFAST'))     # stop at the first violation (mutation testing)


class Hang(BaseException):
    pass


def _alarm(_s, _f):
    raise Hang()


class limit:
    """Bound the wall time of one execution of the code under test."""

    def __init__(self, s=HANG_S):
        self.s = s

    def __enter__(self):
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)


# ---------------------------------------------------------------- results

class R:
    """What one job covered and found."""
    MAXV = 40

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes = collections.Counter()
        self.violations = []
        self.samples = []
        self.extra = collections.Counter()
        self.nviol = 0

    def sample(self, s, n=2):
        if len(self.samples) < n:
            self.samples.append(s)

    def bad(self, key, case, expected, got, job=None, size=None):
        """key: short stable name of this violation; case: JSON able description of the execution."""
        self.nviol += 1
        if len(self.violations) < self.MAXV:
            self.violations.append(dict(key=key, case=case, expected=_j(expected), got=_j(got), job=job,
                                        size=size if size is not None else len(json.dumps(_j(case)))))

    def merge(self, o):
        self.states += o.states
        self.transitions += o.transitions
        self.traces += o.traces
        self.outcomes.update(o.outcomes)
        self.extra.update(o.extra)
        self.nviol += o.nviol
        self.violations += o.violations
        for s in o.samples:
            if len(self.samples) < 6:
                self.samples.append(s)


def _j(x):
    try:
        json.dumps(x)
        return x
    except Exception:
        if isinstance(x, dict):
            return {str(k): _j(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [_j(v) for v in x]
        return repr(x)


def in_repo(tb):
    return any(REPO in f.filename for f in traceback.extract_tb(tb))


def run_job(args):
    modname, job = args
    mod = importlib.import_module(modname)
    r = R()
    t = time.time()
    try:
        mod.run(job, r)
    except Hang:
        r.bad('hang', {'job': job}, 'terminates', 'an execution ran for more than %d s' % HANG_S, job)
    except Exception as e:                       # the code under test raised where it must not, or our bug
        txt = traceback.format_exc()
        if in_repo(e.__traceback__):
            r.bad('raises ' + type(e).__name__, {'job': job}, 'no exception', txt, job)
        else:
            r.error = txt
    r.t = time.time() - t
    return r


def load_known(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#'):
                d = json.loads(l)
                if d.get('property') == pid and d.get('status') == 'known':
                    out.append(d)
    return out


def main(pid, modname):
    """Run the check of one property; returns the exit status."""
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    stale = os.path.join(VERIF, 'replays', pid + '.json')
    if os.path.exists(stale):
        os.remove(stale)
    sys.path.insert(0, os.path.join(VERIF, 'mc'))
    try:
        mod = importlib.import_module(modname)
    except Exception as e:
        if in_repo(e.__traceback__):             # the package under test cannot even be imported
            tot = R()
            tot.bad('import', {}, 'package imports', traceback.format_exc())
            return finish(pid, None, tier, seed, tot, t0, [])
        raise
    jobs = list(mod.jobs(tier))
    if os.environ.get('MC_SAMPLE'):                  # tools/mutate.py only: a part of the jobs, for speed
        jobs = jobs[::int(os.environ['MC_SAMPLE'])]
    tot = R()
    errors = []
    # every job in a process forked from a clean parent: nothing leaks from one job to the next
    with multiprocessing.Pool(NPROC, maxtasksperchild=getattr(mod, 'TASKS', 20)) as pool:
        for r in pool.imap_unordered(run_job, [(modname, j) for j in jobs], chunksize=1):
            if hasattr(r, 'error'):
                errors.append(r.error)
            tot.merge(r)
            if FAILFAST and (errors or tot.nviol):
                pool.terminate()
                break
    tot.extra['jobs'] = len(jobs)
    if hasattr(mod, 'after'):
        mod.after(tot, tier)
    return finish(pid, mod, tier, seed, tot, t0, errors)


def finish(pid, mod, tier, seed, tot, t0, errors):
    known = load_known(pid)
    kkeys = {k['key'] for k in known}
    fresh = [v for v in tot.violations if v['key'] not in kkeys]
    seen_keys = {v['key'] for v in tot.violations}
    fresh.sort(key=lambda v: v['size'])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    cov = dict(states=tot.states, transitions=tot.transitions, traces_validated_against_impl=tot.traces,
               samples=tot.samples[:6], distinct_outcomes=dict(tot.outcomes.most_common(40)),
               bounds=getattr(mod, 'BOUNDS', {}).get(tier, '') if mod else '',
               exhaustive=not errors and tot.nviol == 0, details=dict(tot.extra))
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=getattr(mod, 'ASSUMPTIONS', []) if mod else [],
              wall_s=round(time.time() - t0, 2), violations=tot.nviol)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in known:
        if k['key'] in seen_keys:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    print('%s tier=%s states=%d transitions=%d executions=%d outcomes=%d violations=%d wall=%.1fs' % (
        pid, tier, tot.states, tot.transitions, tot.traces, len(tot.outcomes), tot.nviol, time.time() - t0))
    if fresh:
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        for v in fresh[:5]:
            sys.stdout.write('  %s\n' % json.dumps(_j(v))[:1500])
        p = os.path.join(d, '%s.json' % pid)
        with open(p, 'w') as f:
            json.dump(dict(property=pid, first=fresh[0], others=fresh[1:200],
                           replay='/opt/venv/bin/python mc/run.py replay ' + p), f, indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    if errors:
        print('ERROR in the harness:\n' + errors[0])
        return 2
    if tot.traces == 0:
        print('ERROR: nothing was executed')
        return 2
    return 0


def replay(path):
    d = json.load(open(path))
    sys.path.insert(0, os.path.join(VERIF, 'mc'))
    import run as runmod
    v = d['first']
    print('recorded:', json.dumps(v, indent=1))
    r = run_job((runmod.MODULES[d['property']], totuple(v['job'])))
    again = [w for w in r.violations if w['case'] == v['case']] or r.violations
    if again:
        print('reproduced:', json.dumps(_j(again[0]), indent=1))
        return 1
    print('not reproduced')
    return 0


def totuple(x):
    return tuple(totuple(i) for i in x) if isinstance(x, list) else x


# ---------------------------------------------------------------- the CLI under test

import fastply                                             # noqa: E402
fastply.install()
from nessaid_cli.compiler import compile_grammar          # noqa: E402
from nessaid_cli.cli import NessaidCli                    # noqa: E402
from nessaid_cli.cmd import NessaidCmd                    # noqa: E402
import nessaid_cli.tokens as T                            # noqa: E402
import nessaid_cli.elements as _elements                  # noqa: E402

_loop = None


def loop():
    global _loop
    if _loop is None or _loop.is_closed() or getattr(_loop, 'pid', None) != os.getpid():
        _loop = asyncio.new_event_loop()
        _loop.pid = os.getpid()
        asyncio.set_event_loop(_loop)
    return _loop


def go(co, s=HANG_S):
    """Run one coroutine of the code under test to completion, bounded in time."""
    with limit(s):
        return loop().run_until_complete(co)


def set_order(desc):
    """Iteration order of sets of lookup tokens: creation order, or the reverse.

    The implementation keeps its candidate lists and tokens in sets of objects
    hashed by address, so their order is an accident of memory layout: own it."""
    for cls in (getattr(_elements, 'LookupToken', None), T.CliToken):
        if cls is None or '__eq__' in cls.__dict__:
            continue
        cls.__hash__ = _hash(desc)


def _hash(desc):
    ctr = itertools.count(1)

    def h(self):
        v = self.__dict__.get('_mc_h')
        if v is None:
            v = self.__dict__['_mc_h'] = (1 << 40) - next(ctr) if desc else next(ctr)
        return v
    return h


ALL_TOKENS = [c for c in (getattr(T, n, None) for n in (
    'CliToken', 'AlternativeStringsToken', 'StringToken', 'RangedStringToken', 'RangedIntToken',
    'RangedDecimalToken', 'BooleanToken', 'PathToken')) if c]


class Cli(NessaidCli):
    """A CLI that records handler calls and the result of the last line."""
    extra_tokens = ()

    def __init__(self, spec, **kw):
        self.events = []
        self.resp = None
        self.out = kw.pop('stdout', None) or io.StringIO()
        self.err = kw.pop('stderr', None) or io.StringIO()
        super().__init__(spec, loop=loop(), stdin=io.StringIO(), stdout=self.out, stderr=self.err, **kw)

    def get_token_classes(self):
        return list(self.extra_tokens) + ALL_TOKENS

    def ev(self, *a):
        self.events.append(a)

    def ret(self, *a):
        self.events.append(('ret',) + a)
        return a[0] if a else None

    def process_cli_response(self, tokens, resp):
        self.resp = resp
        super().process_cli_response(tokens, resp)

    def line(self, line, grammar=None):
        """(result, status, events) of executing one line"""
        self.events = []
        self.resp = None
        if grammar is not None:
            self.enter_grammar(grammar)
        try:
            st = go(self.exec_line(line))
        finally:
            if grammar is not None:
                self.exit_grammar()
        return (self.resp.result if self.resp is not None else None), st, list(self.events)

    def suggest(self, toks, last_complete, grammar=None):
        """(result, sorted suggestions, offers end) of asking for suggestions"""
        self.events = []
        if grammar is not None:
            self.enter_grammar(grammar)
        try:
            r = go(self.match(list(toks), dry_run=True, last_token_complete=last_complete, arglist=[]))
        finally:
            if grammar is not None:
                self.exit_grammar()
        nt = list(r.next_tokens or [])
        self.offered = [t for t in nt if isinstance(t, str)]
        eoi = any(t == _elements.EndOfInpuToken for t in nt)
        nt = sorted({str(t) for t in nt if not (t == _elements.EndOfInpuToken)})
        return r.result, nt, eoi

    def shown(self, line, grammar=None):
        """(rows the first TAB on a line shows, the line after it); the terminal is a fake.Fake"""
        async def tab():
            rows = []
            while True:
                c = await self.complete(rl.buffer, len(rows))
                if c is None or len(rows) > 1000:
                    return rows
                rows.append(c)
        rl = self.readline
        rl.buffer = line
        if grammar is not None:
            self.enter_grammar(grammar)
        try:
            rows = go(tab())
        finally:
            if grammar is not None:
                self.exit_grammar()
        return rows, rl.buffer


def build(text, cls=Cli, **kw):
    return cls(compile_grammar(text), **kw)


def strings(alphabet, n, lo=0):
    for k in range(lo, n + 1):
        for t in itertools.product(alphabet, repeat=k):
            yield ''.join(t)


def chunks(seq, n):
    seq = list(seq)
    return [seq[i:i + n] for i in range(0, len(seq), n)]
