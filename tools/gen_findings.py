"""Write the `fixed` entries of known_findings.jsonl (the defects found here and repaired in /repo)."""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [
 ('C03', '0baf56b', "'a (b) * (0:3)' rejected one and two repetitions: (0:n) was compiled to an optional block of exactly n"),
 ('C03', 'e45b6a7', "'{ x * 2 }' matched a single x: the repeat count was lost when the optional block took over its only sequence"),
 ('C03', 'ea9b7c9', "'(x) * (0:n)' reported one repetition as ambiguous"),
 ('C03', 'daa0cc3', "a line with one complete and further incomplete readings was ambiguous ('a | a a' on 'a') or executed an incomplete command"),
 ('C04', '1c7ad0a', "'a { ( b c ) << print($1); >> }' printed the enclosing block's $1"),
 ('C02', '964197a', "quoting a string for the command line changed quotes and backslashes in it"),
 ('C02', '4213a8d', "with the cache, a quoted token had the value of the same plain text converted before, and the reverse"),
 ('C02', 'd07dba4', "escapes were resolved again at every step: '\"\\\\\\\\n\"' reached a handler as a line break"),
 ('C02', '1533dc8', "strings in the value of a block of several tokens kept their quotes and escapes"),
 ('C02', 'bedd1b6', "an unclosed string that ends with an escaped quote lost it"),
 ('C08', 'a3d5e7f', "a ranged string counted the characters of the escaped form"),
 ('C05', 'cc92af8', "'$a = $b;' aliased the two variables for the rest of the command"),
 ('C20', 'e4978a9', "dec(1) was 2"),
 ('C17', '0f03120', "state of one line (repeat counts, variables) was left in the shared grammar tree for later or overlapping lines"),
 ('C07', '01fef09', "an integer token took prefixes of in-range numbers as numbers and left out or invented completions, for negative bounds above all"),
 ('C07', 'e86b28a', "the beginning of an in-range integer was reported as a failure when it is below the range"),
 ('C08', 'bd08095', "a word that completes to several choices and is one of them itself was not a reading of the token"),
 ('C20', '8183243', "a name in an action such as 'printer' or 'True_' was lexed as keyword + rest"),
 ('C20', '5fc3e83', "a string with '>' in an action was a syntax error"),
 ('C09', '2feb86a', "'a//b' was not looked up beyond the doubled separator"),
 ('C09', '8781401', "an unclosed path that several entries complete was delivered with its quote"),
 ('C09', '7d048f3', "a path token delivered or completed from the cache after the file system had changed"),
 ('C09', 'bd627be', "names with quotes, backslashes or other escaped characters were not found and completed to unreadable text"),
 ('C17', 'd958d58', "append() to a collection value of a cacheable token changed the value later lines got"),
 ('C18', '850b6c9', "an overlapping line's matched values replaced those of the running one"),
 ('C18', '3e0f026', "the CLI reported idle while an overlapping command was still running"),
 ('C18', '2b2c90e', "with profiling on, a line executed by a handler raised"),
 ('C18', '6c7a413', "after executing a line, a handler found that line's matched values instead of its own"),
 ('C18', '303dcfb', "matched values asked for by a handler or token had their escapes unresolved"),
 ('C19', '1f9a35f', "an exception in a token's help ended the line without a status"),
 ('C19', '09a58a3', "a command ran with a token whose value could not be had"),
 ('C19', '552040e', "a token whose creation failed once stayed a plain word for ever"),
 ('C14', '9ddd6d6', "OS arguments with blanks, quotes, backslashes, control characters or of no characters did not reach the command as one token"),
 ('C13', 'c486309', "a mixin without grammar hid the grammar of the classes after it in the MRO"),
 ('C13', 'ff3f8aa', "a '#' comment as last line of a class grammar commented out the next class's grammar"),
 ('C15', '4737e6e', "an empty command file stopped the reading of the file that loads it until the terminal was read"),
 ('C15', 'a5e2491', "CTRL+C at a joined line left the joined part for the next line"),
 ('C16', 'a97e937', "a line passed on to the parent by the context opened at start-up could not open a context"),
 ('C16', 'b22d629', "a context opened before the loop starts was not entered"),
 ('C16', '2f24fbe', "an exit hook that raised left the loop with the parent's grammar and prompt half restored"),
 ('C16', '9a7c42e', "the exit hook of a context ran twice when a line was passed on to its parent"),
 ('C16', 'eb9fe53', "a context was left for a line that its parent could not execute either"),
 ('C16', '1e9965f', "an error of a context opened at start-up ended the CLI"),
 ('C11', 'c1325e5', "TAB typed the description of a free-form value into the line"),
 ('C11', '84a4488', "with an open quote that ends in a blank, TAB took the word for finished and suggested nothing"),
 ('C12', '0447c25', "an undeclared name with help matched nothing typed (or lost its help)"),
 ('C12', '4030393', "'nosuch[]' was compiled to a keyword"),
 ('C12', 'be68ace', "an unknown character sequence in a grammar text was skipped or raised an internal error"),
 ('C12', '4d7a72e', "a stray token in an action was dropped and the rest compiled"),
 ('C08', '06f5656', "a decimal typed as far as its point or plus sign was reported as impossible"),
 ('C21', '0c2c3d2', "profiles and memory differences went to the standard output of the process, not to the stream of the CLI"),
 ('C12', 'db115fb', "'token M Mine(b=1, a=2)' gave 1 to the parameter a: the names of the arguments were ignored"),
 ('C23', '66b4c37', 'of two contexts opened by one handler the first, never entered, decided the bell of the parent afterwards; a context that set its own history size or filter lost them to a nested one'),
 ('C21', '549bd30', "system-info ended with an error where psutil.cpu_freq() gives None: the rest of the report was missing"),
]
with open(os.path.join(VERIF, 'known_findings.jsonl'), 'w') as f:
    for p, c, w in F:
        f.write(json.dumps(dict(property=p, status='fixed', commit=c, what=w, entry='fixed: property=%s %s %s' % (p, c, w))) + '\n')
