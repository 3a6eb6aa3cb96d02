"""Writes DESIGN.md: the text below, the bounds from the check modules, the findings and the planted changes."""
import glob, importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'mc'))

HEAD = '''# Model checking nessaid_cli

Generated by `tools/gen_design.py` (bounds come from the check modules, findings from
`known_findings.jsonl`, planted changes from `seeded/`).

## Approach

Every property in `properties.jsonl` is decided by *bounded exhaustive enumeration of
the behaviours of the real code* against a small reference model written in Python:

* stateless exploration of programs and inputs (grammars, class shapes, lines, texts,
  argument lists, directory trees) for C01-C10, C12-C14 and C20;
* exploration of histories and sessions on the real command loop, the real TAB
  completer and the real line editor (the keyboard, terminal and files replaced by
  scripts) for C11, C15, C16, C17, C21, C22, C23 and C24 (which also interrupts the process
  before every step of its event loop);
* a controlled scheduler that owns every suspension point and explores every
  interleaving, stateless with replay, for C18;
* fault injection at every call of user code, singly and in pairs, for C19.

Nothing is sampled and no solver is involved.  The models never decide alone: every
trace of a model (a derivation, a reading, a session, a schedule) is replayed on the
implementation and compared, so `traces_validated_against_impl` in the evidence counts
real executions, `states` the cases of the bounded space and `transitions` the steps
(lines executed, suggestions asked for, keys pressed, scheduling decisions).
A job list is built deterministically; `VERIF_SEED` changes nothing.  Nondeterminism the
code has (iteration order of sets of objects hashed by address) is owned: `set_order`
replaces the hash by creation order or its reverse, and checks that could depend on it
run both.

No hooks were needed in /repo: the checks subclass the public classes, replace the
`nessaid_readline` stream by stand-ins, and read results, handler calls, the streams and
the editor's line.  A check never looks at how the code is written, and it needs no
private attribute of the objects under test (two things are replaced from outside: the
readline class the `cli` module uses, and ply's table construction, which is built once
per process; see `mc/fastply.py`.  The isolation family of C12 runs without that).

Layout: `mc/core.py` (counting, parallel jobs, evidence, replay files, the recording CLI),
`mc/refgrammar.py` (reference semantics of the grammar notation: all derivations of a
word list and all ways it can be the beginning of one), `mc/gram.py` (all trees with a
number of leaves and an operator depth), `mc/fake.py` (scripted terminal), `mc/cNN.py`
(one check each), `mc/run.py` (entry; `run.py replay FILE` repeats a violation).
`tools/` regenerates properties, manifest, findings and this file; `tools/plant.py`
confirms planted changes; `tools/mutate.py` is mutation testing of the checks.

Every check runs in a fresh process tree (a pool of 8 workers; every job starts from a
clean parent state); each execution has a time limit, so a change that makes the code
loop is a violation and not a silent time-out.  Files are only written below
`tempfile.mkdtemp` directories that the check removes.  Quick runs take 2 to 60 s each,
about 6 minutes for all; thorough runs 1 to 12 minutes each.

The trees are written (leaves, operator depth, multipliers): (3,2,{1:2}) means all trees
with up to that number of leaves and nesting of operators whose multipliers are `*(1:2)`;
"all" means 2, 0:2, 1:2, 2:3, 0:3, 1:3.

## Properties
'''

TEXT = {
 'C01': ('''Specified: `c01.scan`, a 40 line scanner written from the statement (blanks separate, a quote starts a section, escapes inside, where an unclosed section ends,
which characters are illegal). Enumerated: lines; for each, the token list (text, position, length, quoted, unclosed) or the error of the real tokenizer is compared; ordered pairs of
lines on one tokenizer object show that no lexer state survives; lines through `exec_line` show that the loop reports illegal lines and runs nothing. The tests sample a handful of lines; the
interesting ones are particular adjacent combinations of quote, backslash and blank, and all of those up to the bound are run.''',
  'Nothing was repaired here; several readings of the statement had to be settled (a raw tab ends an unclosed section, a backslash that starts no escape is its last character).'),
 'C02': ('''Specified: `value`/`unescape` (the documented escapes, resolved exactly once). Enumerated: values -> `convert_to_cli_string` -> tokenizer (one token) -> `convert_to_python_string` and the
value a keyword, alternative or free string delivers to a handler; token texts -> value; ordered pairs of conversions through one cache (sizes 0, 1, 128); pairs of commands on one CLI.''', ''),
 'C03': ('''Specified: the reference derivations of `refgrammar.Ref`. Enumerated: every grammar tree in the bound with every labelling by keywords up to renaming, written in place and with every composite
block moved to a grammar of its own, compiled by the real compiler; every word list up to a length; both set orders. Compared: success / partial / failure / ambiguous, exit status, and that a rejected line is
reported on the error stream. With exactly one derivation the line must succeed; with several it may be ambiguous (C06 says when not).''', ''),
 'C04': ('''Specified: the action sequence of a derivation, with the values of $n per block and repetition, computed from the reference derivation tree. Enumerated: the same kind of trees with a leading and
a trailing action on every block; events compared in order; a rejected line must have none.''',
  'False alarm corrected: $n in a leading action is not documented, so only trailing actions read it.'),
 'C05': ('''Specified: a store with one cell per variable, cells shared by reference parameters, copied by assignment. Enumerated: straight-line programs of assignments laid out over one action, a sequence,
nested blocks, leading actions and repetitions, for locals, parameters and root parameters; call shapes (parameter lists x argument lists x callee bodies x argument state), two call levels; every program twice on one
CLI, followed by a probe for leaks.''', 'False alarm corrected: what passing an unassigned variable by reference does is not documented and is not judged.'),
 'C06': ('''Specified: all readings of a line (a derivation whose words each fit a keyword in full, as an abbreviation, or a free string), ordered by exactness per word; the statement says which reading runs.
Enumerated: trees labelled with keywords that are prefixes of one another and free strings.''', 'False alarm corrected: readings that differ only in how an empty optional was skipped count as one.'),
 'C07': ('''Specified: the set of integers of the range and their decimal texts. Enumerated: ranges (order of bounds included), suggestion limits, inputs; compared: match, complete (count and list), value, and the
same through a CLI with the token in a command, as one of two alternatives, and followed by a keyword. Because the code generates candidates digit by digit, off-by-one errors need particular combinations of
sign, digits and both bounds: all pairs of small bounds are run.''', ''),
 'C08': ('''Specified: a predicate and a value function per token type. Enumerated: parameters and texts, one token alone (match, complete, value), in a command, suggestions with every offer executed, pairs of
tokens as alternatives and as a sequence, custom subclasses with synchronous and asynchronous methods.''', 'False alarms corrected: exponents, underscores, inf and nan of decimals, and needlessly quoted words, are not judged.'),
 'C09': ('''Specified: a listing of the scratch tree. Enumerated: trees x texts x (closed, unclosed, unquoted) x (relative, absolute); names with blanks, quotes, backslashes; the same line before and after the tree
changed. Only scratch directories are read or written.''', 'False alarms corrected: texts with * ? [ are patterns; hidden entries as completions of a typed "." are not judged.'),
 'C10': ('''Specified: the leaves the reference derivations want next. Enumerated: trees x word lists x (last word finished, being typed); compared: the result, the set of suggestions, the offer of the end, that no
action ran, that a keyword comes with its help text, and the list the first TAB shows through the real completer.''', ''),
 'C11': ('''Specified: `viable` (some accepted command begins with the line), `allowed` (what TAB may append) and `must` (what a second TAB has to append) from the reference derivations and the choices of each token.
Explored: every key sequence on the real line editor of `nessaid_readline`, keys fed in place of the terminal; after every TAB the line, after every ENTER the result are compared with the same line typed by hand.''',
  'False alarms corrected: a number of a long range that nothing can be added to is finished; a finished keyword next to a free value gets no blank.'),
 'C12': ('''Specified: an independent reader of the notation (lexer, recursive descent parser, binding of arguments) in `mc/c12.py`, and the reference semantics. Enumerated: all token sequences from several
vocabularies up to a length (rejected exactly when the reader rejects), single characters and runs of special characters in every gap, fillers and comments in every gap, every small tree in 9 spellings, all sequences of
three compilations; what is accepted is executed on every short line.''', 'False alarms corrected: an escaped line break is a blank; a help text that equals another word; words that are prefixes of one another (C06).'),
 'C13': ('''Specified: the table of commands of a class from its MRO. Enumerated: handler tables over class hierarchies, parameter lists x grammar shapes, placements of grammars and tokens in classes, bases, mixins and
parent contexts, option combinations. Every class is probed with every word and asked for suggestions.''', 'False alarm corrected: a class without any handler echoes its input.'),
 'C14': ('''Specified: an argument is one token with the argument as its value. Enumerated: texts and lists, on the long-lived and the class-level entry point, compared with the reference and with the typed line; a part as
real operating-system processes.''', 'Two readings were settled by the tests of the repository (blank arguments are ignored) and by the documentation (an argument that is a quoted token already is taken as written).'),
 'C15': ('''Specified: a line machine (file stack, joined lines, comments, requests for input, CTRL+C, end of file) of 60 lines. Enumerated: command files x typed sessions on the real loop; compared: handler calls in
order, every prompt shown by the terminal and whether it hides the input, and that hidden input is not echoed.''', ''),
 'C16': ('''Specified: a stack machine of contexts. Enumerated: sessions x parent fallback settings x ways to start; compared: handler calls, hooks, prompts, the completer's suggestions at every prompt, a second loop on the
same CLI.''', 'False alarm corrected: a handler that opens a context of its parent while its own context is left is not judged.'),
 'C17': ('''Differential: a fresh CLI is the oracle for every operation after every history. Enumerated: pairs and windows of three over 70 operations, three cache sizes.''', ''),
 'C18': ('''Differential: each line alone is the oracle. A scheduler owns every suspension point (handler calls, token callbacks); all interleavings, or all with a bounded number of preemptions, are explored by replaying
schedule prefixes.  A schedule is a sequence of choices of the line that goes on next; the exploration is exhaustive because every choice point reports how many lines were waiting and all of them are tried.''',
  'False alarm corrected: the order in which error messages of two lines reach the shared stream is not compared.'),
 'C19': ('''Fault injection: a dry run of a line counts its calls of user code; then every call (and pair of calls, and all calls of one kind) raises. Compared: a status, a report, the remaining actions as if the call had returned
nothing, no acceptance by a token whose check raised, and probes behaving as on a fresh CLI.''', ''),
 'C20': ('''Specified: an evaluator of action expressions. Enumerated: every well-typed expression up to a depth over the inline functions and literals, each as argument, assigned value and statement, with a synchronous and an
asynchronous handler, twice on one CLI; and every short program of statements that change, share and nest the variables.''', ''),
 'C21': ('''Specified: which settings are on after which toggles, hence which lines print a measurement; everything else about a line is compared with a CLI on which nothing was turned on.''', ''),
 'C22': ('''Specified: a machine of one start (hooks, prompts, lines, contexts) of 90 lines. The event loop is the checker's own: its clock is virtual and it can raise a keyboard interrupt before any of its steps; a run without
interrupts counts the steps, then every one of them (thorough: every two) is hit.''', ''),
 'C23': ('''Specified: a stack of contexts with their settings, and the history list (machine of 100 lines). The editor is the real one of the readline package, only its keyboard is replaced; at every prompt its settings are read
and the completion key is pressed on the beginning of a word that each context completes differently.''', ''),
 'C24': ('''Differential: what each operation does on a CLI that is alone in a freshly forked process. Enumerated: every interleaving of operations on two CLIs of nine kinds, created at their first operation; compared are the CLI
that was used, the one that was not (nothing may happen to it) and the streams of the process.''', ''),
}

TAIL = '''
## What is not covered

* Nothing outside the bounds is claimed: larger grammars, longer lines, deeper nestings, more than three overlapping lines.
* Windows branches of the path token, real terminals, and the diagnostic command `system-info` are not executed.
* The texts of error messages are not judged, only that there is one.
* Left as they are, because neither the documentation nor the tests settle them: a forward reference to a grammar by bare name is a plain keyword (by `[]` it is rejected); a help text after the name of a grammar turns the
  name into a keyword; a leading action before `x | y` belongs to `x` only, a trailing action to the element before it; hexadecimal numbers, `007`, `1e5`, `1.` are no literals; the
  integer token takes no abbreviations; strings a custom token returns are in typed form; two files added by one handler run last added first; what is left of a command file after the loop was left is run by the next loop;
  `fix_sequences` may report ambiguity where one reading is better (C06 only requires a reading that fits every word at least as exactly as all others to win); a failing `BaseException` (cancellation, exit) is not contained; `match(arglist=None, dry_run=False)` raises a TypeError (the CLI never calls it like that).
'''


def main():
    out = [HEAD]
    props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    finds = [json.loads(l) for l in open(os.path.join(ROOT, 'known_findings.jsonl')) if l.strip()]
    for p in props:
        i = p['id']
        m = importlib.import_module(i.lower())
        out.append('### %s %s\n' % (i, p['title']))
        t, n = TEXT[i]
        out.append('\n'.join(x.strip() for x in t.split('\n')) + '\n')
        out.append('*Quick:* %s.\n\n*Thorough:* %s.\n' % (m.BOUNDS['quick'], m.BOUNDS['thorough']))
        out.append('*Assumed:* %s.\n' % '; '.join(m.ASSUMPTIONS))
        f = [x for x in finds if x['property'] == i]
        if f:
            out.append('*Defects found and repaired:* ' + '; '.join('%s (%s)' % (x['what'], x['commit']) for x in f if x['status'] == 'fixed') + '.\n')
        if n:
            out.append(n + '\n')
    out.append('\n## Planted changes\n\nEach is a patch in `seeded/` with a demonstration; it builds and passes the tests of the repository. "Caught by" lists the quick checks that report a violation\n(the check of the property it was planted for first).\n')
    out.append('| change | property | what it breaks | needs | caught by |\n|---|---|---|---|---|')
    res = json.load(open(os.path.join(ROOT, 'tools', 'caught.json'))) if os.path.exists(os.path.join(ROOT, 'tools', 'caught.json')) else {}
    for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*'))):
        mm = json.load(open(d + '/meta.json'))
        k = os.path.basename(d)
        out.append('| %s | %s | %s | %s | %s |' % (k, mm['property'], mm['what_it_breaks'], mm['needs'], ', '.join(res.get(k, [])) or '-'))
    notes = os.path.join(ROOT, 'tools', 'design_notes.md')
    if os.path.exists(notes):
        out.append('\n' + open(notes).read())
    out.append(TAIL)
    open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out))


if __name__ == '__main__':
    main()
