"""C07: integer tokens of every small range against a reference set of integers."""
import inspect, itertools, re
from core import *  # noqa

SYM = '-0123456789'
B1 = (-1001, -100, -99, -21, -10, -9, -2, -1, 0, 1, 2, 5, 9, 10, 11, 19, 20, 99, 100, 101, 110, 999, 1000)
B2 = tuple(range(-22, 34)) + (99, 100, 101, 109, 110, 111, 999, 1000, -99, -100, -101, -999)
BOUNDS = {
    'quick': 'all ordered pairs of 23 bounds from -1001 to 1000 and all pairs of -12..22, limits 0, 1, 3, 10, 100, every input up to 3 characters over digits and minus '
             '(limit 10; up to 2 for the others), 4 characters for 40 ranges; through a CLI: every range of the first family, inputs up to 2 characters and all numbers around '
             'the bounds; pairs of alternative ranges; huge bounds around 10**6, 10**12, 10**20',
    'thorough': 'all ordered pairs of 66 bounds, limits 0, 1, 2, 3, 10, 12, 100, inputs up to 3 characters for every one; 4 characters for 240 ranges',
}
ASSUMPTIONS = ['a typed integer is an optional minus and ASCII digits; leading zeros are allowed for values but are no prefix of an integer\'s text']
TASKS = 6


def drive(x):
    if not inspect.isawaitable(x):
        return x
    try:
        x.send(None)
    except StopIteration as e:
        return e.value
    raise RuntimeError('suspended')


def jobs(tier):
    q = tier == 'quick'
    small = [(a, b) for a in range(-12, 23) for b in range(a, 23)]
    fam = [(a, b) for a in B1 for b in B1]
    if q:
        for ch in chunks(fam + small, 12):
            yield 'tok', tuple(ch), ((10, 3), (0, 2), (1, 2), (3, 2), (100, 2))
        four = [(a, b) for a in (-1001, -99, -1, 0, 9, 99) for b in (0, 5, 101, 999, 1000, 12345)]
    else:
        for ch in chunks([(a, b) for a in B2 for b in B2], 12):
            yield 'tok', tuple(ch), ((10, 3), (0, 3), (1, 3), (2, 3), (3, 3), (12, 3), (100, 3))
        four = [(a, b) for a in B1 for b in B1 + (12345,) if a <= b]
    for ch in chunks(four, 2):
        yield 'tok', tuple(ch), ((10, 4),)
    for ch in chunks(fam if q else fam + small, 40):
        yield 'cli', tuple(ch)
    yield 'pairs', 1
    yield 'pairs', 10
    yield 'big',


# no integers
ODD = ['+1', '+0', '+', '\u0663', '\uff11', '\u00b2', '1_0', '1.', '1e0', '0x1', '--1', '1-']


def ref(lo, hi, p):
    """the integers whose text starts with p, as text, and the value of p"""
    M = [str(v) for v in range(lo, hi + 1) if str(v).startswith(p)] if hi - lo < 30000 else None
    v = int(p) if re.fullmatch('-?[0-9]+', p) else None
    return M, v if v is not None and lo <= v <= hi else None


def inputs(n):
    return list(strings(SYM, n))


def index(lo, hi):
    d = {}
    for v in range(lo, hi + 1):
        s = str(v)
        for k in range(len(s) + 1):
            d.setdefault(s[:k], []).append(s)
    return d


def judge(r, tk, lo, hi, lim, p, M, val, case, job):
    n, comps = drive(tk.complete(p))
    got = drive(tk.get_value(p))
    m = drive(tk.match(p))
    r.transitions += 3
    r.traces += 1
    comps = list(comps)
    if len(M) <= lim:
        ok = n == len(M) and sorted(comps) == sorted(M) and all(isinstance(c, str) for c in comps)
    else:
        ok = comps == [] and n in (len(M), T.TOO_MANY_COMPLETIONS)
    ok = ok and ((got is T.NullTokenValue) if val is None else (type(got) is int and got == val))
    ok = ok and ((m == T.MATCH_FAILURE) == (not M and val is None)) and (m != T.MATCH_SUCCESS or val is not None)
    if len(M) == 1 <= lim and val is not None:
        ok = ok and m == T.MATCH_SUCCESS
    if not ok:
        r.bad('%d..%d limit %d: %r' % (lo, hi, lim, p), case, dict(completions=M[:20], count=len(M), value=val), dict(complete=[n, comps[:20]], value=got, match=m), job,
              size=len(p) * 100 + len(str(lo)) + len(str(hi)))
    return n


def run(job, r):
    if job[0] == 'tok':
        for a, b in job[1]:
            lo, hi = min(a, b), max(a, b)
            idx = index(lo, hi)
            for lim, n in job[2]:
                tk = T.RangedIntToken('N', a, b, lim)
                r.states += 1
                for p in inputs(n):
                    M = idx.get(p, [])
                    v = int(p) if p not in ('', '-') and '-' not in p[1:] else None
                    val = v if v is not None and lo <= v <= hi else None
                    k = judge(r, tk, lo, hi, lim, p, M, val, dict(bounds=[a, b], limit=lim, input=p), ('tok', ((a, b),), ((lim, n),)))
                    r.outcomes['%s%s' % ('none' if not M else 'one' if len(M) == 1 else 'listed' if k > 0 and len(M) <= lim else 'too many', ', value' if val is not None else '')] += 1
        r.sample(dict(bounds=job[1][0], limits=[l for l, _ in job[2]]))
    elif job[0] == 'cli':
        text = []
        for i, (a, b) in enumerate(job[1]):
            text.append('token N%d RangedIntToken(%d, %d);\ng%d: N%d << call ev($1); >>;\nh%d: "n" { N%d << call ev($1); >> } "end";' % (i, a, b, i, i, i, i))
            text.append('token L%d RangedIntToken(%d, %d, 4);\nl%d: L%d << call ev($1); >>;' % (i, a, b, i, i))
        cli = build('\n'.join(text))
        for i, (a, b) in enumerate(job[1]):
            lo, hi = min(a, b), max(a, b)
            idx = index(lo, hi)
            near = sorted({str(v + d) for v in (a, b, 0) for d in (-1, 0, 1)})
            for p in [x for x in inputs(2) if x] + near + ODD:
                M, val = ref(lo, hi, p)
                for line, g, end in ((p, 'g%d' % i, False), (p, 'l%d' % i, False), ('n ' + p + ' end', 'h%d' % i, True)):
                    res, st, evs = cli.line(line, g)
                    r.transitions += 1
                    r.traces += 1
                    ok = (st == 0) == (val is not None) and (evs == [(val,)] and type(evs[0][0]) is int if val is not None else evs == [])
                    r.outcomes['cli ' + res] += 1
                    if not ok:
                        r.bad('cli %d..%d %s %r' % (lo, hi, g[0], p), dict(bounds=[a, b], line=line), val, dict(result=res, status=st, events=evs), ('cli', ((a, b),)))
                if re.match('-?0.', p) or p == '-0':
                    continue
                for g, lim in (('g%d' % i, 10), ('l%d' % i, 4)):
                    for q in (p, ''):
                        M = idx.get(q, [])
                        want = sorted(M) if 0 < len(M) <= lim else ['An integer between %d and %d' % (lo, hi)] if M else []
                        res, nt, eoi = cli.suggest([q] if q else [], False, g)
                        r.transitions += 1
                        r.traces += 1
                        if nt != want or eoi or (res == T.MATCH_FAILURE) != (not M):
                            r.bad('suggest %d..%d %d %r' % (lo, hi, lim, q), dict(bounds=[a, b], limit=lim, typed=q), want, dict(result=res, suggest=nt), ('cli', ((a, b),)))
            r.states += 1
    elif job[0] == 'pairs':
        R_ = [(1, 9), (1, 100), (2, 2), (20, 25), (200, 900), (-5, 5), (-100, -1), (2000, 2100), (0, 0)]
        lim = job[1]
        for (a, b), (c, d) in itertools.product(R_, R_):
            cli = build('token A RangedIntToken(%d, %d, %d), B RangedIntToken(%d, %d, %d), S StringToken();\n'
                        'g: A << call ev("A", $1); >> | B << call ev("B", $1); >>;\n'
                        'h: (A << call ev("A", $1); >>, {B << call ev("B", $1); >>});\n'
                        's: A << call ev("A", $1); >> | S << call ev("S", $1); >>;' % (a, b, lim, c, d, lim))
            r.states += 1
            for p in [str(x) for x in list(range(-12, 32)) + [99, 100, 199, 200, 250, 1999, 2000, 2050, 2100]] + ['00', '-']:
                va, vb = ref(a, b, p)[1], ref(c, d, p)[1]
                for g in 'ghs':
                    res, st, evs = cli.line(p, g)
                    r.transitions += 1
                    r.traces += 1
                    if g == 'g':
                        cand = [('A', va)] * (va is not None) + [('B', vb)] * (vb is not None)
                        ok = st != 0 and not cand if not cand else (st == 0 and evs == cand if len(cand) == 1 else st != 0 and not evs or evs in ([cand[0]], [cand[1]]))
                    elif g == 'h':
                        cand = [('A', va)] * (va is not None)
                        ok = (st == 0) == bool(cand) and evs == cand
                    else:
                        cand = [('A', va)] if va is not None else [('S', p)]
                        ok = st == 0 and (evs == cand or va is not None and evs == [('S', p)])
                    r.outcomes['pair ' + res] += 1
                    if not ok:
                        r.bad('pair %s %s %s %s' % ((a, b), (c, d), g, p), dict(A=[a, b], B=[c, d], limit=lim, grammar=g, line=p), cand, dict(result=res, status=st, events=evs), job)
    else:
        for a in (10**6, 10**12, 10**20, -10**20, -10**6):
            for w in (0, 1, 12, 10**6, 10**19):
                for lim in (10, 1000):
                    lo, hi = a - 3, a + w
                    tk = T.RangedIntToken('N', lo, hi, lim)
                    r.states += 1
                    for v in (lo - 1, lo, a, hi, hi + 1, (lo + hi) // 2):
                        s = str(v)
                        for k in range(len(s) + 1):
                            p = s[:k]
                            cnt, lst = 0, []
                            for e in range(0, len(str(hi)) + len(str(lo))):
                                if p in ('', '-'):
                                    x, y = (lo, hi) if p == '' else (lo, min(hi, -1))
                                    if e:
                                        break
                                elif p == '0' and e:
                                    break
                                else:
                                    x, y = (int(p) * 10**e, (int(p) + 1) * 10**e - 1) if p[0] != '-' else ((int(p) - 1) * 10**e + 1, int(p) * 10**e)
                                x, y = max(x, lo), min(y, hi)
                                if y >= x:
                                    cnt += y - x + 1
                                    if cnt <= lim:
                                        lst += [str(z) for z in range(x, y + 1)]
                            val = int(p) if p not in ('', '-') and lo <= int(p) <= hi else None
                            M = lst if cnt <= lim else ['?'] * (lim + 1)
                            n, comps = drive(tk.complete(p))
                            got, m = drive(tk.get_value(p)), drive(tk.match(p))
                            r.transitions += 3
                            r.traces += 1
                            ok = sorted(comps) == sorted(M) and n == cnt if cnt <= lim else comps == [] and n in (cnt, -1)
                            ok = ok and (got == val if val is not None else got is T.NullTokenValue) and (m == T.MATCH_FAILURE) == (cnt == 0)
                            if not ok:
                                r.bad('big %d..%d %r' % (lo, hi, p), dict(bounds=[lo, hi], limit=lim, input=p), dict(count=cnt, value=val), dict(complete=[n, comps[:20]], value=got, match=m), job)
        r.outcomes['big'] += 1
