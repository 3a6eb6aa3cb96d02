"""Writes MANIFEST.json: one entry per check module present in mc/."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
TECH = {
    'C01': ('bounded exhaustive enumeration of lines against a reference scanner', 'every line over the alphabet up to the bound, and every ordered pair of short lines on one tokenizer'),
    'C02': ('bounded exhaustive enumeration of string values and cache histories', 'every value/token text up to the bound, round-tripped through the real tokenizer, converter and a real command'),
    'C03': ('bounded exhaustive enumeration of grammars and inputs, reference derivation model replayed on the implementation', 'every grammar tree and word list in the bound, both set orders'),
    'C04': ('bounded exhaustive enumeration of grammars and inputs, reference action semantics replayed on the implementation', 'every grammar tree in the bound with an action at every block boundary'),
    'C05': ('bounded exhaustive enumeration of action programs and call shapes against a reference store', 'every straight-line program and call shape in the bound'),
    'C06': ('bounded exhaustive enumeration of prefix-colliding grammars and abbreviated inputs against a reference reading model', 'every grammar and line in the bound, both set orders'),
    'C07': ('bounded exhaustive enumeration of ranges, limits and inputs against a reference set of integers', 'every range, limit and input text in the bound'),
    'C08': ('bounded exhaustive enumeration of token parameters and inputs against reference token predicates', 'every input text up to the bound for every parameterisation'),
    'C09': ('bounded exhaustive enumeration of directory trees and path texts against a reference directory listing', 'every path text in the bound over every tree of the family, in a scratch directory'),
    'C10': ('bounded exhaustive enumeration of grammars and input prefixes, reference continuation sets replayed on the implementation', 'every grammar and prefix in the bound, last word complete and incomplete'),
    'C11': ('explicit-state exploration of key sequences on the real completer', 'every key sequence in the bound on every grammar of the family'),
    'C12': ('bounded exhaustive enumeration of grammar rewrites and malformations, differential execution', 'every rewrite of every small grammar compared on every short input; every malformation of the set'),
    'C13': ('bounded exhaustive enumeration of class shapes and options against a reference command table', 'every class of the family, every probe line'),
    'C14': ('bounded exhaustive enumeration of argument vectors', 'every argument text up to the bound and every small vector'),
    'C15': ('bounded exhaustive enumeration of command files and typed inputs on the real command loop, reference line machine', 'every script in the bound'),
    'C16': ('explicit-state exploration of context histories on the real command loop, reference stack machine', 'every line sequence in the bound'),
    'C17': ('exhaustive exploration of line histories, differential against a fresh CLI', 'every history in the bound, every cache size listed'),
    'C18': ('stateless model checking under a controlled scheduler: all interleavings of suspension points', 'every interleaving of every pair (thorough: some triples) of commands in the menu'),
    'C19': ('exhaustive fault enumeration at every user-code call (single and double faults)', 'every fault placement on every command of the menu followed by every probe'),
    'C20': ('bounded exhaustive enumeration of action expressions against a reference evaluator', 'every expression up to the depth bound'),
    'C21': ('exhaustive exploration of histories of measuring commands and lines, differential against a CLI that measures nothing', 'every history in the bound'),
    'C22': ('exhaustive exploration of typed histories and of every point for a keyboard interrupt under a controlled event loop, reference loop machine', 'every history and every interrupted step in the bound'),
    'C23': ('explicit-state exploration of context histories on the real line editor fed with keys, reference stack machine', 'every line sequence in the bound'),
    'C24': ('exhaustive exploration of interleaved histories of several CLIs in one process, differential against each CLI alone in a process', 'every history in the bound'),
}
checks = []
missing = []
for p in sorted(TECH):
    if os.path.exists(os.path.join(ROOT, 'mc', p.lower() + '.py')):
        t, n = TECH[p]
        checks.append(dict(property=p, quick_cmd='/opt/venv/bin/python mc/run.py ' + p,
                           thorough_cmd='/opt/venv/bin/python mc/run.py %s --thorough' % p,
                           evidence_file='evidence/%s.json' % p, technique='model checking: ' + t, level='model_checking',
                           level_note='Exhaustive within the bounds recorded in the evidence (%s); every model execution is run on the '
                                      'real code. Trusts the reference model in mc/ and CPython; nothing is claimed outside the bounds.' % n))
    else:
        missing.append(dict(property=p, reason='check not built yet'))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -c "import ply, nessaid_readline"', checks=checks,
               not_applicable=missing, notes='See DESIGN.md.'), open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
