"""Writes /verif/properties.jsonl (kept as a script so the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe, "hook_needed": None}})
N = "nessaid_cli/"

prop("C01", "A command line is split into exactly the tokens the user typed",
 "Every input line is either split into tokens at unquoted blanks, with each double-quoted section (including its escapes, and a last unclosed one) kept as one token that reports its text, position, length and whether the quote was closed, or is reported as invalid because of an illegal character such as a backslash outside quotes. A quoted section ends at its closing quote or, unclosed, at the end of the line or before the first character it cannot contain (a raw tab, line break or NUL, or a backslash that starts no escape). Every non-blank character of an accepted line belongs to exactly one token, in order. Tokenizing never raises, never loses input silently, and the result depends on the line alone, not on lines tokenized before.",
 ["inputs", "histories"], "every line over an alphabet of quote, backslash, blank, tab, escape letters and ordinary characters; every pair of lines tokenized one after the other",
 "The existing test samples a few hand-written lines; quoting bugs hide in particular adjacent combinations of quote, backslash and blank.",
 [N+"tokenizer/tokenizer.py", N+"cli.py"],
 [("lexer rules for text, quoted and unterminated quoted text", N+"tokenizer/tokenizer.py"), ("line tokenization entry point and its error report", N+"cli.py")],
 ["tokenizer parse result", "cli tokenize() result", "exec_line status and events"])

prop("C02", "Any string value survives being typed, quoted and read back",
 "Quoting any string value for the command line yields exactly one input token, and reading that token back yields the original value, for every value including blanks, quotes, backslashes, control characters and the empty string. Reading the typed form of a token (quoted with escapes, or plain) yields the value the documented escape rules give it, whether or not a conversion cache is in use and whatever was converted before.",
 ["inputs", "histories"], "every string value over an alphabet of special and ordinary characters up to a length; every quoted token text over the escape alphabet; every pair of conversions through one cache",
 "No test converts strings containing backslashes or edge quotes; the round trip is a for-all over strings and over cache histories.",
 [N+"utils.py", N+"tokenizer/tokenizer.py", N+"tokens.py"],
 [("conversion from typed form to value", N+"utils.py"), ("conversion from value to typed form", N+"utils.py")],
 ["conversion function results", "value delivered to the handler of a command using a keyword or string token"],
 [("string conversion cache", "remembers earlier conversions per CLI", N+"interface.py")])

prop("C03", "A command is accepted exactly when the grammar derives it",
 "For every grammar built from sequences, alternatives, optional blocks, multipliers (fixed and ranged), any-order sets and references to named grammars, a non-blank line succeeds only if the grammar derives it, and does succeed when it has exactly one derivation; a line with several derivations either runs one of them or is reported ambiguous. A line that is not derivable is reported partial when it can be extended to a derivable one, and failure otherwise. A line that is not accepted is reported on the error stream, the result of one that fails names the first word at which no command goes on (words typed in full), and that of an accepted one has its values. The verdict does not depend on hash seeds or object addresses.",
 ["programs", "inputs", "configurations"], "every grammar tree up to a size over a small keyword alphabet, every input over that alphabet up to a length, both iteration orders of internal unordered collections",
 "Tests use a handful of fixed grammars; acceptance is a claim about all nestings of the operators and all inputs.",
 [N+"compiler.py", N+"elements.py", N+"interface.py"],
 [("grammar operators to element tree", N+"compiler.py"), ("next-token computation over the element tree", N+"elements.py"), ("matching loop and ambiguity resolution", N+"interface.py")],
 ["matching result of a line (success/partial/failure/ambiguous)", "exec_line exit status"])

prop("C04", "Actions of an accepted command run once each, in order, with its tokens",
 "When a line is accepted, the actions attached to the grammar blocks of its derivation run exactly once per occurrence and in grammar order: a block's leading actions before those of its contents, its trailing actions after them, nothing for blocks the input skipped. Each $n gives the value matched by the n-th element of the enclosing block (all matched values when the element spans several tokens), of the current repetition only. When a line is not accepted no action runs.",
 ["programs", "inputs"], "every grammar tree up to a size with an action on every block boundary, every input over the alphabet up to a length",
 "Tests check only final printed output of a few commands; order, multiplicity and numbering across nested optional, repeated and any-order blocks are never examined.",
 [N+"interface.py", N+"elements.py", N+"compiler.py"],
 [("walk of the matched sequence that enters and leaves blocks", N+"interface.py"), ("attachment of actions to blocks", N+"compiler.py")],
 ["sequence of handler calls and their arguments"],
 [("element stack of an execution", "which blocks are open", N+"interface.py")])

prop("C05", "Grammar variables hold what was assigned and parameters pass by reference",
 "After any sequence of assignments, each local variable or parameter of a grammar holds the value most recently assigned to it, and assigning from another variable copies its current value (later assignments to one do not show in the other). A variable that has been assigned and is passed to a referenced grammar is shared with the caller, so the callee's assignments are visible to the caller; literal arguments, defaults and unset parameters give the callee its own value, positional and keyword arguments bind to the declared parameters, and local variables of one grammar or one command are invisible to others.",
 ["programs", "histories"], "every straight-line action program up to a length over two or three variables; every call shape (by reference, literal, default, missing, keyword) up to two call levels; consecutive commands on one CLI",
 "Tests only ever assign each variable once and never observe aliasing, swaps, or two references to the same grammar.",
 [N+"interface.py", N+"binding_parser/binding_objects.py", N+"elements.py", N+"compiler.py"],
 [("assignment and evaluation of action statements", N+"interface.py"), ("argument to parameter mapping", N+"elements.py")],
 ["arguments of handler calls"], [("named variables of a grammar block", "current values", N+"elements.py")])

prop("C06", "Abbreviations run only the command they unambiguously stand for",
 "A keyword may be abbreviated to a prefix when the line with that prefix stands for one command only, and a word that equals a keyword always means that keyword even when it is also a prefix of others or fits a free-form string. Of several readings of a line, one that fits every word at least as exactly as all the others (typed in full, abbreviated, free-form text) is the one that runs; with several equally good commands nothing runs and the line is reported as not successful. No abbreviation ever runs a command other than one it stands for.",
 ["programs", "inputs", "configurations"], "every small grammar over keywords that are prefixes of one another plus a free string token, every line of prefixes of those keywords up to a length, both iteration orders",
 "Tests contain no keyword that is a prefix of another; precedence depends on which alternatives survive, on every combination of words.",
 [N+"interface.py", N+"tokens.py"],
 [("exact/prefix classification and elimination of weaker readings", N+"interface.py"), ("keyword prefix match", N+"tokens.py")],
 ["matching result", "handler calls"])

prop("C07", "An integer token takes exactly the integers of its range and completes to them",
 "An integer token with bounds a and b accepts a complete typed decimal integer exactly when it lies between a and b (negative ones included) and delivers it as that integer, in either order of bounds. Its completions of any typed prefix are exactly the in-range integers whose decimal text starts with that prefix, as text, listed when their number is within the suggestion limit and otherwise reported as too many. Leading zeros are accepted in a value but are no beginning of a completion. An unambiguous prefix of one in-range integer is never read as a number outside the range.",
 ["inputs", "configurations"], "every range with bounds in a small interval around powers of ten on both sides of zero, every suggestion limit in a set, every input of up to four characters over digits and minus",
 "Tests try a few values of five ranges; digit-boundary and sign cases are for-all over bounds, limits and prefixes.",
 [N+"tokens.py"], [("range token match, completion and value", N+"tokens.py")],
 ["token match/complete/value results", "value delivered to a handler", "suggestions for a line"])

prop("C08", "Typed tokens agree on what they match, complete and deliver",
 "Each built-in token type (string, ranged string, decimal, boolean, alternatives, plain keyword, and custom subclasses of them, synchronous or asynchronous) delivers a value for exactly the inputs its type describes: any string; strings whose value length is in range; decimals in range; any-case prefixes of true/false; an exact or uniquely abbreviated alternative. Everything it offers as a completion extends the typed text (ignoring case for booleans) and is itself accepted with the value it stands for, and no acceptable completion of a finite choice is omitted. A text is reported as a possible beginning whenever some accepted text starts with it (a decimal being a sign, digits and a point, its minus sign only where the range reaches below zero), and not where nothing longer can be accepted: a string already too long, a decimal already beyond the range.",
 ["inputs", "configurations"], "every input text up to a length over each type's alphabet, every small parameterisation (length ranges, decimal bounds, sets of alternatives incl. prefixes of each other and quoted ones), through the CLI",
 "Tests sample a few values per type; agreement between the three operations is never checked.",
 [N+"tokens.py", N+"interface.py"], [("token classes", N+"tokens.py"), ("value/match/complete dispatch", N+"interface.py")],
 ["token match/complete/value results", "exec_line status and delivered values"])

prop("C09", "Path tokens complete to and deliver existing paths only",
 "Over any directory tree, a path token never delivers a complete (closed-quote) name that does not exist and never rejects a closed-quote plain path that exists; an unclosed path is delivered only when some entry starts with it: as typed when it exists or several entries start with it, else as the one entry. Typed '.' and '..' stand for themselves and repeated separators count as one; a text with one of * ? [ is a pattern and not judged unless, with its closing quote, it names an entry: then it is that entry. Its completions of an unclosed path are existing entries of the directory being typed whose names start with the typed part, and every entry with such a name is offered.",
 ["inputs", "configurations"], "every small directory tree from a family (files, directories, names that are prefixes of each other, hidden and empty directories) and every path text up to a length over its names, dots and separators",
 "No test touches path tokens.", [N+"tokens.py"], [("path lookup and completion", N+"tokens.py")],
 ["token complete/value results", "exec_line status and delivered values"])

prop("C10", "Suggestions are exactly the ways the line can continue",
 "For every grammar and every typed line that can be continued, the suggestions for the next (or partly typed) word are exactly those words or token descriptions that some accepted command has at that point, and the end of the command is offered, after a finished word, exactly when the line as typed is a complete command. A line that no command starts with is reported as failing. Asking for suggestions never runs an action.",
 ["programs", "inputs", "configurations"], "every grammar tree up to a size, every input prefix over the alphabet up to a length, each with the last word complete or still being typed",
 "No test asks for suggestions at all.",
 [N+"interface.py", N+"elements.py"], [("next-token computation", N+"elements.py"), ("suggestion set construction", N+"interface.py")],
 ["next tokens in the result of a dry-run match"])

prop("C11", "The TAB key only ever types text the command could contain",
 "Pressing TAB any number of times, mixed with typing, never runs an action, never deletes or alters what was typed (on a joined line it shows the parts joined so far again in front of it), and only appends text that keeps the line the beginning of an accepted command (apart from letter case for case-insensitive tokens): the common part of the possible completions of the word, or a separating blank after a finished word. Descriptions shown for free-form values are never typed into the line, and the line entered afterwards behaves as if typed by hand.",
 ["histories", "inputs", "programs"], "every key sequence up to a length over a small alphabet of characters and TAB, on a family of grammars with keyword, prefix, string, integer and boolean tokens",
 "No test drives the completer; its behaviour depends on the history of presses and the line at each press.",
 [N+"cli.py", N+"interface.py"], [("completer callback", N+"cli.py"), ("common prefix and single-continuation computation", N+"interface.py")],
 ["line buffer after each key", "completion list", "handler calls"],
 [("remembered line and shown-suggestion flag", "state between TAB presses", N+"cli.py")])

prop("C12", "Grammar text compiles to the grammar it denotes or is rejected",
 "Equivalent spellings of a grammar (blanks, line breaks, the three comment styles, redundant parentheses, quoted keyword versus declared plain token, a block written in place versus as a named grammar, a multiplier versus its expansion, the order of token declarations) accept the same lines with the same action events. Malformed text, duplicate grammar or token names, zero or negative multipliers, unknown keyword arguments, too many arguments, references with [] to a grammar not defined before and actions that cannot be read are rejected with an error instead of being compiled to something else, and compiling one text does not affect another. The arguments of a token declaration reach the constructor of its class, by position or by name.",
 ["programs", "inputs"], "every pair of equivalent spellings from a rewrite set applied to every small grammar, compared on every input up to a length; every single-token mutation from a malformation set",
 "The grammar test is a dummy; equivalence and rejection are claims over all grammar texts.",
 [N+"compiler.py", N+"lex_yacc_common.py", N+"elements.py", N+"binding_parser/binding_text_parser.py"],
 [("grammar lexer and parser", N+"compiler.py"), ("action parser", N+"binding_parser/binding_text_parser.py")],
 ["compile result or error", "matching result and events of lines"])

prop("C13", "Every documented handler method is a command, and nothing else is",
 "A command class offers exactly one command per method that has the handler prefix and a grammar docstring, its own or inherited, with overriding, disabled (set to None) and undocumented handlers removed (a class without any echoes its input); the grammar and tokens of the class, its bases and (when asked) the class of its parent context are available to all of them. An accepted command calls that one method once with, for each of its parameters, the value the grammar bound to the parameter's name, or the empty string when it bound none.",
 ["programs", "configurations", "inputs"], "every class from a family: inheritance chains up to three levels with handlers defined, overridden, undocumented or disabled at each level, prefixes, parameter lists, sync/async handlers, option flags",
 "Tests use one fixed class; the generation has to be right for every class shape and option combination.",
 [N+"cmd.py", N+"cli.py"], [("generation of the grammar text from methods", N+"cmd.py")],
 ["handler calls and arguments", "exec_line status"])

prop("C14", "OS command-line arguments reach the command intact; status tells the result",
 "Running a command of a command class from operating-system arguments delivers each non-blank argument as exactly one token whose string value equals the argument, whatever characters it contains (an argument that is exactly one closed double-quoted token is taken as written, one of line breaks only is not judged), and behaves like typing the same line. The returned status is 0 exactly when the command was accepted, and nonzero when it was incomplete, wrong, ambiguous or could not be tokenized; only an accepted one calls a handler.",
 ["inputs"], "every argument vector of up to three arguments over an alphabet of blanks, quotes, backslashes, tabs and ordinary characters up to a length, and every small vector of keywords",
 "Tests pass a few plain words; quoting must hold for every argument text.",
 [N+"cmd.py", N+"cli.py"], [("argument quoting", N+"cmd.py"), ("status codes", N+"cli.py")],
 ["handler arguments", "status returned by exec_args"])

prop("C15", "Command scripts and typed input are consumed line by line, each line once",
 "The command loop executes every line of the input in order exactly once: lines of command files (including files added while running, which run to the end before the rest of the outer file), then typed lines; a trailing backslash (blanks after it do not count) joins a line with the next, and what is joined is skipped when it starts with #; CTRL+C gives up the line being typed with what was joined to it, the end-of-file key is ignored; and a failing or unreadable file or line is reported and does not stop the rest (nothing is reported where all succeed). A handler's request for input takes the next file line, or the terminal when told so or when no file lines remain, and hidden input is never echoed. Other file lines are shown after their prompt, as if typed there.",
 ["histories", "inputs", "programs"], "every command file up to a length over a menu of lines (command, comment, continuation, failing command, input request, nested file, blank, exit), nested files up to depth two, followed by every short typed sequence incl. interrupts and end of file",
 "No test runs the command loop.", [N+"cli.py", N+"interface.py"],
 [("line source and continuation handling", N+"cli.py"), ("file queue", N+"cli.py")],
 ["handler calls in order", "text echoed", "prompts requested from the terminal"],
 [("pending file lines", "stack of files being executed", N+"cli.py"), ("effective line", "joined continuation", N+"cli.py")])

prop("C16", "Nested command contexts form a stack and always return to the right one",
 "Entering a context makes exactly its commands available and leaving it restores the parent's grammar, completer and prompt, to any depth and from any point including start-up; exit hooks of each context run exactly once, innermost first. With parent fallback enabled, a line the context does not accept but its parent would execute leaves the context and runs in the parent exactly once, and a line neither accepts is reported and changes nothing. A context opened by such a line is entered. The completer offers the commands of the current context or, where none begins as typed, with parent fallback those of its parent. An exit hook that raises is reported and counts as run; a context whose start-up fails is left again.",
 ["histories", "programs"], "every sequence of lines up to a length over a menu (commands of each level, enter, exit, unknown, partial, parent's commands, failing commands) for up to three levels with and without parent fallback",
 "No test enters a context.", [N+"cli.py", N+"cmd.py"],
 [("context loop and parent fallback", N+"cli.py"), ("match with parent grammar", N+"cmd.py")],
 ["handler calls with the context they ran in", "prompts", "exit hook calls"],
 [("context stack", "contexts currently open", N+"cli.py")])

prop("C17", "What a line does never depends on the lines before it",
 "The result, delivered values, handler calls and suggestions for a line are the same on a fresh CLI and after any history of other lines: accepted, rejected, partial, ambiguous, failing in a handler, or suggestion requests, and for any cache size. Tokens that declare themselves non-cacheable are consulted afresh every time, so changing choices take effect immediately. Entering another grammar and leaving it restores the previous one.",
 ["histories", "configurations"], "every sequence of lines up to a length from a menu chosen to collide in every cache (same text quoted and plain, same text for different tokens, failing executions), cache sizes 0, 1 and default",
 "Each test uses a fresh CLI or never revisits a text under different circumstances.",
 [N+"interface.py", N+"utils.py", N+"elements.py"],
 [("string, token and token-value caches", N+"interface.py"), ("reset of per-block state", N+"elements.py")],
 ["matching results, values, handler calls"],
 [("string cache / token cache / token value cache", "memoised conversions", N+"interface.py"), ("walk tree nodes", "per-block execution state", N+"elements.py")])

prop("C18", "Overlapping and nested commands do not disturb one another",
 "When several lines are executed on one CLI at overlapping times, because asynchronous handlers or tokens suspend or because a handler itself executes another line, each line has the result, delivered values, action order and variables it would have alone. This holds for every interleaving of their suspension points.",
 ["schedules", "programs"], "every interleaving of two (thorough: three) overlapping command executions suspended at every handler call and token callback, every pair of commands from a menu sharing grammar blocks, and nested execution from handlers",
 "No test suspends a handler or overlaps two commands.", [N+"interface.py", N+"elements.py", N+"cmd.py", N+"cli.py"],
 [("execution context and block state", N+"interface.py"), ("grammar stack around a line", N+"cmd.py")],
 ["per-command handler calls and results"],
 [("walk tree nodes", "per-block execution state shared by executions", N+"elements.py"), ("grammar stack", "active grammar", N+"interface.py")])

prop("C19", "A failing handler or token never takes the CLI down or leaves it damaged",
 "An exception (other than a request to stop the process) raised at any point by user code (a handler, a token's match, completion, value or help, token construction) is contained: the line still returns a status, the error is reported, the remaining actions of the command run as they would if the failing call had returned nothing, and an input whose token check raised is never accepted on the strength of it. A token that cannot be created stands for its name until the next line. Every following line behaves as on a fresh CLI.",
 ["fault_sequences", "histories"], "every single and double fault placed at every user-code call of every command in a menu, followed by every probe line",
 "No test raises from user code.", [N+"interface.py", N+"cli.py", N+"cmd.py"],
 [("containment of handler errors", N+"interface.py"), ("containment of token errors", N+"interface.py")],
 ["status, events and error stream", "results of following lines"])

prop("C20", "Inline functions and literals in actions mean what is documented",
 "In actions, literals (numbers with sign and fraction, strings with escapes, True, False, None) denote their values, list/dict/set create fresh collections of their arguments, append/update extend and return the collection given, add sums its arguments (lists and strings are joined; what does not fit is left out) and leaves them as they were, inc adds one and dec subtracts one, print writes its arguments, input asks with the given prompt (hidden when its second argument is false) and gives the line typed as it is, and calls nest in any combination. A call to a handler passes exactly those values and yields exactly what the handler returned, for synchronous and asynchronous handlers alike.",
 ["programs"], "every action expression up to a nesting depth over the inline functions, literal kinds, handler results and variables",
 "Tests never call inc, dec, add, update or nested calls and never check the values.",
 [N+"interface.py", N+"binding_parser/binding_text_parser.py", N+"lex_yacc_common.py"],
 [("inline function evaluation", N+"interface.py"), ("action expression parser", N+"binding_parser/binding_text_parser.py")],
 ["values passed to handlers", "printed text"])

prop("C21", "Measuring commands changes nothing about them",
 "Turning timing and profiling on and off with the built-in commands, in any order and at any time, never changes the result, status, handler calls, values, error report or suggestions of any other line, whether it succeeds, fails, raises, suspends or is executed by a handler. While timing is on, each executed line that is not blank prints its time exactly once (a line that a handler executes too; the timing commands themselves do not); while profiling is on, each line typed prints one profile (none for lines executed within it); otherwise nothing is printed. The memory command is offered exactly when the class measures memory, takes its number and its word in any order, and lists that many entries, and on request at most as many differences to the measurement before it in the CLI or its contexts. The system information command lists what the system tells of processors and memory (sizes up to petabytes, in the largest unit that fits), leaves out what it does not tell, and says so if the package it needs is missing. All of it goes to the output stream of the CLI.",
 ["histories"], "every sequence of toggles, lines and suggestion requests up to a length; every argument combination of the memory command, twice, with and without memory measuring",
 "No test uses the built-in commands.",
 [N+"cmd.py"],
 [("timing and profiling around a line", N+"cmd.py"), ("built-in handlers", N+"cmd.py")],
 ["status, events, suggestions", "printed measurements"])

prop("C22", "A command loop can be started, interrupted, left and started again",
 "Starting a loop (run, or awaiting it) calls the start-up hook, prints the intro once if there is one, calls the after-intro hook, reads and executes lines until it is left, and calls the exit hook exactly once, in this order and also when a hook raises; the CLI is running exactly meanwhile. Starting one that is running is refused and disturbs nothing. CTRL+C and the end-of-file key call their hook (of the innermost context) and nothing else. A keyboard interrupt of the process at any moment loses no line and no state: it is handed to the terminal of the loop, which goes on. Once left, nothing of the run remains: a line executed outside of the loop and another start do what they do on a fresh CLI.",
 ["histories", "schedules"], "every sequence of typed entries up to a length from a menu of commands, leaving commands, contexts, second starts, CTRL+C and end of file, in four ways to start, with each hook raising; every point between two steps of the event loop for keyboard interrupts of the process",
 "No test runs the command loop, interrupts it or starts it twice.",
 [N+"cli.py", N+"cmd.py"],
 [("command loop and its clean-up", N+"cli.py"), ("run and keyboard interrupts", N+"cli.py"), ("run and keyboard interrupts", N+"cmd.py")],
 ["order of hooks, lines and prompts", "running flag, later lines and starts"])

prop("C23", "One terminal serves the context in control and comes back as it was",
 "Nested contexts share one line editor. Whenever a CLI asks for a line the terminal shows its prompt, completes with its commands under the completion key it was given, and has the bell on exactly if that CLI was created so (or the user or the CLI switched it since). Whatever a context changes about the terminal (bell, history size, filter of history entries), the CLI that goes on after it has its own settings back, to any depth and however the context ended: left, by a line of its parent, by an exception in a hook, at once; a context that is created and not entered changes nothing. Each line typed or executed that is tokenized and not accepted rings the bell once and nothing else the user types as a line does. The history holds the lines typed at the prompts of all contexts, in order, and never the answers given to a handler.",
 ["histories"], "every sequence of lines up to a length from a menu of contexts that change the terminal, fail, leave at once or are only created, rejected lines, requests for hidden input and the bell key, on the real line editor",
 "No test uses the terminal.",
 [N+"cli.py", N+"cmd.py"],
 [("parent backup and restore", N+"cli.py"), ("context loop", N+"cmd.py"), ("completer and bell set-up", N+"cli.py")],
 ["settings of the editor at every prompt", "bells", "history"])

prop("C24", "CLIs of one process keep to themselves",
 "What a CLI does (results, values, variables, suggestions, prompts, everything it prints and where) is the same whether or not other CLIs live in the process, however their creation and use interleave: CLIs that share one compiled grammar, that come from other grammars or unrelated classes with the same names, from a base or derived class, as open loops with contexts, with handlers of one waiting while lines of another run. Each writes only to its own streams, or to the one the process has at that moment where it was given none; grammar text that is compiled or rejected later changes nothing about CLIs that exist.",
 ["histories", "schedules"], "every interleaved history up to a length of operations on two (thorough: three) CLIs of nine kinds, each created at its first operation",
 "Tests use one CLI at a time.",
 [N+"cli.py", N+"cmd.py", N+"interface.py", N+"compiler.py"],
 [("state of a CLI", N+"interface.py"), ("state of a command class", N+"cmd.py"), ("parser state", N+"compiler.py")],
 ["results, handler calls, prompts, suggestions of each CLI", "all streams"])

if __name__ == '__main__':
    with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
