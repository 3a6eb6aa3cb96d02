"""C13: command classes of a family are built, and every command they must have (and none other) is there and calls its method."""
import itertools
from core import *  # noqa

BOUNDS = {
    'quick': 'handler tables: 1 method name over 3 levels of classes and 2 names over 2 levels, each level having no such method, a synchronous or asynchronous one, one without docstring, None, '
             'or a value that is not callable (972 classes); 60 parameter lists x 10 grammar shapes x 3 argument counts; grammars and tokens of 4 classes (in a line, a diamond, two lines) and of 4 nested contexts that refer to all those above; 96 placements of tokens and grammars in classes, bases, mixins and parent contexts; '
             '96 combinations of options and default handlers; every class probed with every word of the family and the suggestions for an empty line',
    'thorough': '2 names over 3 levels (46656 classes)',
}
ASSUMPTIONS = ['handlers are methods, not static methods or other callable attributes', 'a class without any documented handler echoes its input (a documented convenience), which is not judged',
               'a parent context contributes the grammar of its class, not of the bases of its class']
TASKS = 200
STATES = ('no', 'sync', 'async', 'undoc', 'none', 'value')
LOG = []


class Base(NessaidCmd):
    """ """
    def __init__(self, **kw):
        self.out, self.err = io.StringIO(), io.StringIO()
        super().__init__(**dict(kw, loop=loop(), stdin=io.StringIO(), stdout=self.out, stderr=self.err))

    def get_token_classes(self):
        return ALL_TOKENS

    def process_cli_response(self, tokens, resp):
        self.resp = resp
        super().process_cli_response(tokens, resp)


def method(name, kind, doc, tag, params=(), defaults=None):
    """A handler that records its tag and arguments"""
    if kind == 'none':
        return None
    if kind == 'value':
        return 'not callable'
    ns = {'LOG': LOG}
    src = '%sdef %s(%s):\n    LOG.append((%r, %s))\n' % ('async ' if kind == 'async' else '', name, ', '.join(('self',) + tuple(params)), tag, ''.join(p + ', ' for p in params))
    exec(src, ns)
    f = ns[name]
    if defaults:
        f.__defaults__ = defaults
    f.__doc__ = None if kind == 'undoc' else doc
    return f


def run_line(cli, line):
    del LOG[:]
    cli.resp = None
    st = go(cli.exec_line(line))
    return st, list(LOG)


def firsts(cli):
    cli.enter_grammar(cli.generate_root_grammar_name())
    try:
        m = go(cli.match([], dry_run=True, last_token_complete=True, arglist=[]))
    finally:
        cli.exit_grammar()
    return sorted({str(t) for t in m.next_tokens or [] if str(t)})


DEFAULTS = {'exit': 'do__exit', 'quit': 'do__exit', 'cmd-profiling': 'do__profile', 'cmd-timing': 'do__timing', 'system-info': 'do__system_info'}


# ---------------------------------------------------------------- which methods are commands

def hierarchy(job, r, names, table):
    """table[level][i]: state of method i at that level"""
    cls = Base
    for lv, row in enumerate(table):
        ns = {}
        for n, s in zip(names, row):
            if s != 'no':
                ns['do_' + n] = method('do_' + n, s, '"%s%d"' % (n, lv), '%s%d' % (n, lv))
        cls = type('L%d' % lv, (cls,), ns)
    want = {}
    for i, n in enumerate(names):
        top = [(s, lv) for lv, s in enumerate(row[i] for row in table) if s != 'no']
        if top and top[-1][0] in ('sync', 'async'):
            want['%s%d' % (n, top[-1][1])] = '%s%d' % (n, top[-1][1])
    r.states += 1
    if not want:
        r.outcomes['no handler'] += 1
        disable = False
    else:
        disable = True
    cli = cls(prompt='# ', disable_default_hooks=disable)
    case = {'levels': [dict(zip(names, row)) for row in table]}
    exp = sorted(want) if disable else sorted(DEFAULTS)
    got = firsts(cli)
    r.traces += 1
    if got != exp:
        r.bad('commands %s' % (table,), case, exp, got, job)
    words = ['%s%d' % (n, lv) for n in names for lv in range(len(table))]
    for w in words + ['exit', 'do_' + names[0]]:
        st, log = run_line(cli, w)
        r.traces += 1
        r.transitions += 1
        if w in want:
            ok = st == 0 and log == [(want[w],)]
        else:
            ok = log == [] and (st != 0 or (w == 'exit' and not disable))
        r.outcomes['ran' if log else 'rejected'] += 1
        if not ok:
            r.bad('line %s %s' % (w, table), dict(case, line=w), [0, [want[w]]] if w in want else ['not 0', []], [st, log], job)
    r.sample(case, 1)


# ---------------------------------------------------------------- parameters

PNAMES = ('a', 'b', 'ab', 'list', 'arg_1', 'call', 'x1')
# grammar shape -> (text, {line: bound variables}); $a, $b, $ab are assigned where named
SHAPES = [
    ('"k" S << $a = $2; >>', {'k v': {'a': 'v'}, 'k "x y"': {'a': 'x y'}, 'k': None}),
    ('<< $a = "d"; >> "k" { "o" S << $b = $2; $a = 5; >> }', {'k': {'a': 'd'}, 'k o v': {'a': 5, 'b': 'v'}, 'k o': None}),
    ('<< $ab = list(); >> "k" (S << append($ab, $1); >>) * (1:2)', {'k u': {'ab': ['u']}, 'k u v': {'ab': ['u', 'v']}, 'k u v w': None}),
    ('"k" ("y" S << $a = $2; >>) (RI "z" << $b = $1; >>)', {'k y v 3 z': {'a': 'v', 'b': 3}, 'k y v 99 z': None, 'k y 3 v z': None}),
    ('"k" | "j" << $x1 = True; >> | "i" << $list = None; >>', {'k': {}, 'j': {'x1': True}, 'i': {'list': None}}),
    ('"k" ({"m" << $a = "m"; >>}, {"n" << $b = "n"; $arg_1 = 1.5; >>})', {'k m': {'a': 'm'}, 'k n m': {'a': 'm', 'b': 'n', 'arg_1': 1.5}, 'k x': None}),
    ('"k" sub[$a] sub[$b]', {'k s v s w': {'a': 'v', 'b': 'w'}, 'k s v': None}),
    ('<< $ab = 0; >> "k" sub[$ab] << $call = $ab; >>', {'k s "q\\"q"': {'ab': 'q"q', 'call': 'q"q'}}),
    ('"k" << $other = "local"; $a = $other; >>', {'k': {'a': 'local'}}),
    ('"k" S : "help" << $a = $2; $b = $1; >>', {'k z': {'a': 'z', 'b': None}}),
]
SUB = 'token S StringToken(); token RI RangedIntToken(1, 9);\nsub[$v]: "s" S << $v = $2; >>;\n'


def params(job, r, plist, nargs):
    for kind in ('sync', 'async'):
        for i, (g, lines) in enumerate(SHAPES):
            ns = {'__doc__': SUB, 'do_k': method('do_k', kind, g, 'k', plist), 'do_z': method('do_z', 'sync', '"z" S << $a = $2; $zz = 1; >>', 'z', plist)}
            if kind == 'async':
                # Python defaults do not matter: every parameter is passed
                ns['do_k'].__defaults__ = ('python default',) * len(plist) if plist else None
            cli = type('P', (Base,), ns)(prompt='# ', disable_default_hooks=True, cli_nargs=nargs)
            r.states += 1
            for line, bound in list(lines.items()) + [('z 1', {'a': '1'})] + list(lines.items()):
                st, log = run_line(cli, line)
                r.traces += 1
                r.transitions += 1
                if bound is None:
                    want = ['not 0', []]
                    ok = st != 0 and not log
                else:
                    vals = tuple(bound[p] if p in bound else '' for p in plist)
                    if 'S : "help"' in g and line == 'k z':
                        vals = tuple({'a': 'z', 'b': 'k'}.get(p, '') for p in plist)
                    want = [0, [('z' if line == 'z 1' else 'k',) + vals]]
                    ok = [st, log] == want
                r.outcomes['called' if log else 'not called'] += 1
                if not ok:
                    r.bad('params %s %s %s' % (plist, i, line), {'parameters': list(plist), 'grammar': g, 'line': line, 'arguments of the grammar': nargs, 'handler': kind}, want, [st, log], job)
    r.sample({'parameters': list(plist), 'cli_nargs': nargs}, 1)


# ---------------------------------------------------------------- grammar of classes, bases, mixins and parents

ENDS = ('', '\n', ' // note', ' # note', ' /* note */', '\n    ')


def grammars(job, r, where_tok, where_sub, end, mixin):
    """Token S and grammar sub each declared in one place; a handler of each class uses both"""
    docs = {k: '' for k in ('base', 'own', 'parent')}
    docs[where_tok] += 'token S StringToken();'
    docs[where_sub] += ' token Q RangedIntToken(1, 5); sub[$v]: "s" Q << $v = $2; >>;'
    docs = {k: ('token X%s;%s%s' % (k, v, end) if v or k == 'base' else None) for k, v in docs.items()}

    class Mixin:
        """Some prose; not a grammar: it says "nothing\""""
    setattr(Mixin, 'do_m', method('do_m', 'sync', '"m" S << $v = $2; >>', 'm', ('v',)))
    B = type('B', (Base,), {'__doc__': docs['base'], 'do_b': method('do_b', 'sync', '"b" S sub[$v]', 'b', ('v',))})
    bases = {'no': (B,), 'first': (Mixin, B), 'last': (B, Mixin)}[mixin]
    C = type('C', bases, {'__doc__': docs['own'], 'do_c': method('do_c', 'async', '"c" sub[$v] S << $w = $3; >>', 'c', ('w', 'v'))})
    parent = None
    use_parent = 'parent' in (where_tok, where_sub)
    if use_parent:
        PB = type('PB', (Base,), {'__doc__': docs['parent'] + '\n token PX;', 'do_p': method('do_p', 'sync', '"p"', 'p')})
        parent = PB(prompt='$ ', disable_default_hooks=True)
    if parent and len(end) % 2:
        # as a context
        go(parent.enter_context(C, prompt='# ', use_parent_grammar=True))
        cli = parent.child_cli
    else:
        cli = C(prompt='# ', disable_default_hooks=True, parent=parent, use_parent_grammar=use_parent)
    r.states += 1
    want = {'b z s 3': ('b', 3), 'c s 2 zz': ('c', 'zz', 2), 'b z s 9': None, 'c s 2': None, 'p': None, 'b s s 1': ('b', 1)}
    if mixin != 'no':
        want['m w'] = ('m', 'w')
    case = {'token in': where_tok, 'grammar in': where_sub, 'text ends with': end, 'mixin': mixin}
    for line, ev in want.items():
        st, log = run_line(cli, line)
        r.traces += 1
        r.transitions += 1
        r.outcomes['called' if log else 'not called'] += 1
        if (st == 0) != (ev is not None) or log != ([ev] if ev else []):
            r.bad('grammar %s %s %r %s %s' % (where_tok, where_sub, end, mixin, line), dict(case, line=line), ev, [st, log], job)
    exp = sorted(['b', 'c'] + (['m'] if mixin != 'no' else []))
    got = firsts(cli)
    if got != exp:
        r.bad('grammar commands %s' % case, case, exp, got, job)


# ---------------------------------------------------------------- grammars that refer to those of the classes above

# class -> bases, in order of definition; the first is the farthest from the command class, which is the last
FAMILIES = {
    'line': [('A', ()), ('B', ('A',)), ('C', ('B',)), ('D', ('C',))],
    'diamond': [('A', ()), ('B', ('A',)), ('C', ('A',)), ('D', ('B', 'C'))],
    'two': [('A', ()), ('B', ()), ('C', ('A',)), ('D', ('C', 'B'))],
}


def above(fam, n):
    """the classes above class n"""
    out = set()
    for b in dict(FAMILIES[fam])[n]:
        out |= {b} | above(fam, b)
    return out


def chain(job, r, fam, how, empty):
    """Each class has a grammar that refers to those of the classes above it, and a handler that uses its own one"""
    names = [n for n, _ in FAMILIES[fam]]
    want = {}
    cs = {}
    parent = None
    for n, bases in FAMILIES[fam]:
        up = sorted(above(fam, n)) if how != 'contexts' else names[:names.index(n)]
        if n == empty:
            doc = None
        else:
            up = [u for u in up if u != empty]
            doc = ('token Q RangedIntToken(1, 9);' if n == 'A' or fam == 'two' and n == 'B' and how != 'contexts' else '').replace('Q', 'Q' + n)
            doc += ' g%s[$v]: "%s" << $v = %d; >>%s ;' % (n, n.lower(), ord(n), ''.join(' { g%s[$v] }' % u for u in up) if n != 'A' and not (fam == 'two' and n == 'B' and how != 'contexts') else ' Q' + n)
        own = n if n != empty else max([u for u in up], default=None)
        ns = {'__doc__': doc}
        if own:
            ns['do_h' + n] = method('do_h' + n, 'sync', '"h%s" g%s[$v]' % (n, own), 'h' + n, ('v',))
        if how == 'contexts':
            c = type(n, (Base,), ns)
            parent = c(prompt=n, disable_default_hooks=True, parent=parent, use_parent_grammar=True)
            if own:
                want = {('h' + n, own): parent}
        else:
            cs[n] = type(n, tuple(cs[b] for b in bases) or (Base,), ns)
            if own:
                want[('h' + n, own)] = None
    cli = parent if how == 'contexts' else cs['D'](prompt='# ', disable_default_hooks=True)
    case = {'family': fam, 'grammars of': how, 'class without grammar': empty}
    r.states += 1
    exp = sorted(h for h, _ in want)
    got = firsts(cli)
    r.traces += 1
    if got != exp:
        r.bad('chain commands %s' % case, case, exp, got, job)

    def texts(n):
        """(words, value) of each line of the grammar of n, with at most one grammar inside"""
        if n == 'A' or fam == 'two' and n == 'B' and how != 'contexts':
            yield n.lower() + ' 5', True
            yield n.lower(), False
            return
        yield n.lower(), True
        up = sorted(above(fam, n)) if how != 'contexts' else names[:names.index(n)]
        for u in up:
            if u != empty:
                for w, ok in texts(u):
                    yield n.lower() + ' ' + w, ok
    for h, g in want:
        for w, ok in texts(g):
            line = h + ' ' + w
            st, log = run_line(cli, line)
            r.traces += 1
            r.transitions += 1
            r.outcomes['called' if log else 'not called'] += 1
            # the innermost grammar is the last that sets the variable
            ev = [(h, ord([x for x in w if x.isalpha()][-1].upper()))] if ok else []
            if (st == 0) != ok or log != ev:
                r.bad('chain %s %s' % (line, case), dict(case, line=line), ev, [st, log], job)


# ---------------------------------------------------------------- options

def options(job, r, disable, base_grammar, prefix, override, via):
    ns = {'__doc__': 'token S StringToken();', prefix + 'one': method(prefix + 'one', 'sync', '"one" S << $v = $2; >>', 'one', ('v',)),
          prefix: method(prefix, 'async', '"bare"', 'bare'), 'other_two': method('other_two', 'sync', '"two"', 'two'), prefix.upper() + 'three': method(prefix.upper() + 'three', 'sync', '"three"', 'three')}
    want = {'one': ('one', 'v'), 'bare': ('bare',)}
    d = {} if disable or prefix != 'do_' else dict(DEFAULTS)
    if override == 'class none':
        ns['do__exit'] = None
        d = {k: v for k, v in d.items() if v != 'do__exit'}
    elif override == 'own':
        ns['do__exit'] = method('do__exit', 'sync', '"leave"', 'leave')
        had = bool(d)
        d = {k: v for k, v in d.items() if v != 'do__exit'}
        if had:
            want['leave'] = ('leave',)
    elif override == 'names':
        ns['generate_grammar_name'] = lambda self, hook: 'hook_' + hook.__name__.replace('_', 'U')
        ns['get_cli_hook'] = lambda self, name: name[5:].replace('U', '_') if name.startswith('hook_') else name
        ns['generate_root_grammar_name'] = lambda self: 'the_root'
    elif override == 'instance':
        # another object of the class with its default handlers disabled does not matter
        pass
    O = type('O', (Base,), ns)
    if override == 'instance':
        O(prompt='# ', cli_hook_prefix=prefix, disable_default_hooks=not disable)
    if via == 'child':
        cli = O(prompt='# ', cli_hook_prefix=prefix, disable_default_hooks=disable, use_base_grammar=base_grammar, parent=type('Q', (Base,), {'do_q': method('do_q', 'sync', '"zip"', 'zip')})(prompt='$ '),
                use_parent_grammar=False)
    elif via == 'context':
        # the parent has a token of the same name
        parent = type('Q', (Base,), {'__doc__': 'token S RangedIntToken(3, 4);', 'do_q': method('do_q', 'sync', '"zip" S', 'zip')})(prompt='$ ')
        go(parent.enter_context(O, prompt='# ', cli_hook_prefix=prefix, use_base_grammar=base_grammar, **({} if disable else {'disable_default_hooks': False})))
        cli = parent.child_cli
    else:
        cli = O(prompt='# ', cli_hook_prefix=prefix, disable_default_hooks=disable, use_base_grammar=base_grammar, show_grammar=(via == 'show'))
    r.states += 1
    case = {'default handlers disabled': disable, 'base grammar': base_grammar, 'prefix': prefix, 'override': override, 'via': via}
    exp = sorted(set(want) | set(d))
    got = firsts(cli)
    r.traces += 1
    if got != exp:
        r.bad('options %s' % case, case, exp, got, job)
    for line in ('one v', 'bare', 'two', 'three', 'zip', 'leave', 'exit', 'quit', 'cmd-timing off', 'cmd-profiling off', 'cmd-timing', 'end', 'one', 'S', prefix + 'one'):
        w = line.split()[0]
        st, log = run_line(cli, line)
        r.traces += 1
        r.transitions += 1
        if w in want and line != 'one':
            ok, ex = st == 0 and log == [want[w]], [0, want[w]]
        elif w in d and line != 'cmd-timing':
            ok, ex = st == 0 and not log, [0, []]
        else:
            ok, ex = st != 0 and not log, ['not 0', []]
        r.outcomes['default' if w in d else 'called' if log else 'not called'] += 1
        if not ok:
            r.bad('options %s %s' % (line, case), dict(case, line=line), ex, [st, log], job)


def jobs(tier):
    one = list(itertools.product([(s,) for s in STATES], repeat=3))
    for c in chunks(one, 27):
        yield ('hier', ('f',), tuple(c))
    two = list(itertools.product(itertools.product(STATES, repeat=2), repeat=2 if tier == 'quick' else 3))
    for c in chunks([t for t in two if tier != 'quick' or t[0] != ('no', 'no')], 60):
        yield ('hier', ('f', 'g'), tuple(c))
    pl = [()] + [(p,) for p in PNAMES] + [p for p in itertools.permutations(PNAMES, 2)] + [('a', 'b', 'ab'), ('ab', 'a', 'b'), ('x1', 'list', 'call'), ('b', 'arg_1', 'a', 'call', 'ab', 'x1', 'list')]
    for i, p in enumerate(pl):
        yield ('params', p, (3, 0, 1)[i % 3])
    for w1 in ('base', 'own', 'parent'):
        for w2 in ('base', 'own', 'parent'):
            yield ('grammar', w1, w2)
    for fam in FAMILIES:
        for how in ('bases', 'contexts'):
            yield ('chain', fam, how)
    for disable in (False, True):
        for bg in (False, True):
            for prefix in ('do_', 'cmd_', 'x'):
                yield ('options', disable, bg, prefix)


def run(job, r):
    if job[0] == 'hier':
        for table in job[2]:
            hierarchy(job, r, job[1], table)
    elif job[0] == 'params':
        params(job, r, job[1], job[2])
    elif job[0] == 'grammar':
        for end in ENDS:
            for mixin in ('no', 'first', 'last'):
                grammars(job, r, job[1], job[2], end, mixin)
    elif job[0] == 'chain':
        for empty in (None,) + (('B', 'C') if job[1] == 'line' or job[2] == 'contexts' else ()):
            chain(job, r, job[1], job[2], empty)
    else:
        for override in ('no', 'class none', 'own', 'names', 'instance'):
            for via in ('object', 'child', 'show', 'context'):
                options(job, r, job[1], job[2], job[3], override, via)
