"""Build every ply table once per process and class instead of once per object.

The tables depend on the class of the lexer or parser only (docstrings and patterns); the
functions they call are bound to each object anew.  This changes no behaviour of the code
under test, it makes constructing a compiler or a CLI some ten times cheaper."""
import copy
import ply.lex as lex
import ply.yacc as yacc

_yacc, _lex = yacc.yacc, lex.lex
_ytab, _ltab = {}, {}


def fast_yacc(*a, **kw):
    module = kw.get('module')
    if a or module is None or isinstance(module, type):
        return _yacc(*a, **kw)
    key = (type(module), tuple(sorted((k, repr(v)) for k, v in kw.items() if k != 'module')))
    if key not in _ytab:
        box = []
        real = yacc.LRGeneratedTable

        def table(*x, **y):
            box.append(real(*x, **y))
            return box[-1]
        yacc.LRGeneratedTable = table
        try:
            p = _yacc(**kw)
        finally:
            yacc.LRGeneratedTable = real
        if len(box) != 1:
            return p
        _ytab[key] = box[0]
    t = copy.copy(_ytab[key])
    pdict = {k: getattr(module, k) for k in dir(module) if k.startswith('p_')}
    prods = []
    for p in t.lr_productions:
        q = object.__new__(type(p))
        q.__dict__.update(p.__dict__)
        q.bind(pdict)
        prods.append(q)
    t.lr_productions = prods
    return yacc.LRParser(t, pdict.get('p_error'))


def fast_lex(*a, **kw):
    module = kw.get('module')
    if a or list(kw) != ['module'] or isinstance(module, type):
        return _lex(*a, **kw)
    key = type(module)
    if key not in _ltab:
        _ltab[key] = _lex(**kw)
    c = copy.copy(_ltab[key])
    c.lexmodule = module

    def mine(f):
        return getattr(module, f.__name__)
    c.lexstatere = {k: [(cre, [(mine(f[0]), f[1]) if f and f[0] else f for f in fs]) for cre, fs in v]
                    for k, v in c.lexstatere.items()}
    c.lexstateerrorf = {k: f and mine(f) for k, f in c.lexstateerrorf.items()}
    c.lexstateeoff = {k: f and mine(f) for k, f in c.lexstateeoff.items()}
    c.begin('INITIAL')
    return c


def install(on=True):
    yacc.yacc, lex.lex = (fast_yacc, fast_lex) if on else (_yacc, _lex)
