"""Per property: the monitored workloads (jobs) and how cases are made."""
def J(name, h, quick, thorough, **k):
    return dict(name=name, h=h, quick=quick, thorough=thorough, **k)

ENG = ['-lpcre2-8', '-lboost_regex']

PROPS = {
 'C01': dict(
  rule='random patterns (1-30 top-level alternatives, classes, repeats, modes i/s/x/q) with random inputs, scanned token by token and matched whole, from a string or irregular chunks; non-trivial: at least two tokens, or a non-empty whole match; distinct by (pattern, options, input)',
  min_nontrivial=1000,
  jobs=[J('scan', 'core', 700, 60000, args=['--mode', 'scan']),
        J('cover', 'core', 130, 20000, args=['--mode', 'cover']),
        J('big', 'core', 3, 120, args=['--mode', 'big'])]),
 'C02': dict(
  rule='random patterns, half of them shaped for the search heuristics (literal prefixes, fixed lengths, keyword sets), searched in short inputs and in inputs of up to 700 KB with sparse or dense matches, members placed around block boundaries, from a string or irregular chunks; non-trivial: two matches or a match behind the start; distinct by (pattern, options, input)',
  min_nontrivial=1000,
  jobs=[J('find', 'core', 400, 15000, args=['--mode', 'find']),
        J('find-nosimd', 'core', 150, 5000, args=['--mode', 'find'], variant='asan-nosimd'),
        J('find-avx2', 'core', 150, 5000, args=['--mode', 'find'], variant='asan-avx2'),
        J('find-avx512', 'core', 150, 5000, args=['--mode', 'find'], variant='asan-avx512')]),
 'C03': dict(
  rule='random patterns, nullable ones included, split over random inputs of up to 700 KB, from a string or irregular chunks; non-trivial: at least two pieces; distinct by (pattern, options, input)',
  min_nontrivial=1000,
  jobs=[J('split', 'core', 500, 30000, args=['--mode', 'split']),
        J('asplit', 'core', 500, 30000, args=['--mode', 'asplit'])]),
 'C04': dict(
  rule='random patterns whose top-level alternatives carry anchors at the start, the end or both, scanned, searched and matched whole; non-trivial: two tokens, or a match behind the start; distinct by (pattern, options, input)',
  min_nontrivial=1000,
  jobs=[J('anchor', 'core', 1500, 60000, args=['--mode', 'anchor'])]),
 'C05': dict(
  rule='random patterns with trailing lookahead, lazy repeats or negative alternatives next to plain alternatives, scanned and searched, with 12 kinds of source and read schedule; non-trivial: a match decided by one of these constructs; distinct by (pattern, options, input)',
  min_nontrivial=1000,
  jobs=[J('look', 'special', 350, 60000, args=['--mode', 'look']),
        J('lazy', 'special', 350, 60000, args=['--mode', 'lazy']),
        J('neg', 'special', 350, 60000, args=['--mode', 'neg'])] +
       [J(m + '-small', 'special', 60, 10000, args=['--mode', m, '--long'], variant='asan:small') for m in ('look', 'lazy', 'neg')]),
 'C06': dict(
  rule='random histories of matcher calls over random, anchored, lookahead, lazy, negative and indentation patterns, recorded with the input given at once and compared with the record under 4 of 11 other sources and read schedules; non-trivial: a history with a match; distinct by (pattern, options, method, input, delivery)',
  min_nontrivial=1000,
  jobs=[J('deliver', 'deliv', 180, 30000),
        J('deliver-small', 'deliv', 180, 30000, variant='asan:small')]),
 'C07': dict(
  rule='tokens of random and line-oriented patterns over random text with newlines, tabs, UTF-8 and arbitrary bytes, from 12 kinds of source and read schedule, positions queried for a random subset of the matches in random order; non-trivial: at least three matches queried; distinct by (pattern, input, delivery)',
  min_nontrivial=300,
  jobs=[J('pos', 'ops', 20, 4000, args=['--mode', 'pos']),
        J('pos-small', 'ops', 30, 8000, args=['--mode', 'pos'], variant='asan:small'),
        J('pos-avx2', 'ops', 15, 3000, args=['--mode', 'pos'], variant='asan-avx2:small'),
        J('pos-avx512', 'ops', 15, 3000, args=['--mode', 'pos'], variant='asan-avx512:small')]),
 'C08': dict(
  rule='random operation histories (5-60 operations of 20 kinds) over random patterns and text from 12 kinds of source and read schedule; non-trivial: a token and five kinds of operation; distinct by (pattern, input, delivery, operations)',
  min_nontrivial=300,
  jobs=[J('api', 'ops', 800, 10000, args=['--mode', 'api']),
        J('api-small', 'ops', 800, 10000, args=['--mode', 'api'], variant='asan:small')]),
 'C09': dict(
  rule='random, anchored, lookahead, lazy, negative and indentation patterns exported as opcode table and as code, with and without predictor and namespace, compiled, and compared with the in-memory pattern over random histories of calls from 12 kinds of source; non-trivial: a history with a match; distinct by (pattern, options, method, form, input)',
  min_nontrivial=1000,
  jobs=[J('export', 'fsm', 2, 200, libs=['-rdynamic', '-ldl'])]),
 'C10': dict(
  rule='every byte of every code page in portions of 1 to 5 bytes; random texts as char string, wide string, stream, file at any offset, pipe, slow pipe or non-blocking pipe, in every encoding, with and without byte order mark, valid and malformed, short contents and contents that almost start with a mark, read by get, BufferedInput, the four stream buffers or a matcher in random portions, with size(), good(), eof(), peek() and copies in between; compared byte for byte with a reference decoding; non-trivial: a non-empty text; distinct by text, source and reader',
  min_nontrivial=1000,
  jobs=[J('inp', 'inp', 4000, 300000)]),
 'C11': dict(
  rule='every code point encoded and decoded; random byte strings dense in broken sequences decoded from exact-size buffers and compared with a reference decoder; random ranges, boundary code points preferred, compiled by RE/flex and PCRE2 and tried on about 250 encodings each; random bracket lists of code points; non-trivial: a string with valid and invalid sequences, a range or list with tested members and non-members; distinct by text, range or list',
  min_nontrivial=1000,
  jobs=[J('utf', 'utf', 700, 100000, libs=['-lpcre2-8'])]),
 'C12': dict(
  rule='random regexes over 57 code points in random modes (inline and by flag), spelled with escapes, quotation, free spacing, comments, bracket lists with set operations, macros, lex and basic syntax, converted for six engine signatures and matched on members and near-members of the language, judged by a reference semantics of the abstract regex; regexes made invalid in 28 ways; non-trivial: a regex with texts inside and outside its language; distinct by regex and flags',
  min_nontrivial=1000,
  jobs=[J('conv', 'conv', 400, 60000, libs=['-lpcre2-8', '-lboost_regex'])]),
 'C14': dict(
  rule='random histories of up to 60 operations on three range sets (closed, open-ended over two value types) or three bit sets, the complete contents compared with the model after every operation, and random pairs of sets for the set operations; non-trivial: a history that ran to its end or overlapping sets; distinct by operations and operands',
  min_nontrivial=1000,
  jobs=[J('sets', 'sets', 4000, 400000, leaks=True)]),
 'C15': dict(
  rule='regexes made of random tokens out of 250 (metas, escapes, quantifier and class fragments, broken UTF-8), random bytes and mutated valid regexes, with random options, compiled as pattern and run over random input by every method, or converted for six engines under random flags first; non-trivial: a constructed pattern with matches or a rejected regex; distinct by regex and options',
  min_nontrivial=1000,
  jobs=[J('robust', 'robust', 3000, 300000, leaks=True, hang=20)]),
 'C20': dict(
  rule='every Unicode and POSIX class name: its table on every code point, its regex searched in a text of all code points, and its nine spellings (negated, in lists, inline) on its boundary code points and random ones; 8-bit classes on every byte, native and converted; mutated names that must be rejected; reference sets computed from UnicodeData.txt, Scripts.txt and Blocks.txt; non-trivial: a class with members and non-members in the text, a rejected name; distinct by spelling and flags',
  min_nontrivial=500,
  jobs=[J('uni', 'uni', 300, 20000)]),
 'C17': dict(
  rule='random patterns with groups, names, lazy and possessive repeats, back references, lookahead, lookbehind and anchors for PCRE2 (byte and UTF), Boost (Perl and POSIX) and std::regex (ECMAScript and awk), scanned, searched, split, matched whole and mixed with input, peek, skip and less, from 12 kinds of source and read schedule (Boost: whole input, as documented); compared with the engine applied directly to the whole input; non-trivial: two tokens or a whole match; distinct by (engine, pattern, method, delivery)',
  min_nontrivial=1000,
  jobs=[J('pcre', 'eng', 250, 100000, args=['--engine', 'pcre'], libs=ENG),
        J('pcre-small', 'eng', 250, 100000, args=['--engine', 'pcre'], variant='asan:small', libs=ENG),
        J('utf-small', 'eng', 200, 100000, args=['--engine', 'utf'], variant='asan:small', libs=ENG),
        J('boost', 'eng', 200, 60000, args=['--engine', 'boost'], libs=ENG),
        J('std', 'eng', 300, 60000, args=['--engine', 'std'], libs=ENG, hang=10, hang_ok=True)]),
 'C19': dict(
  rule='random histories of construction, copy, clone, assignment (self included), pattern change by object, pointer, string or matcher, reset, options, new input, failed assignment and deletion over 4 patterns, 4 matchers (native, PCRE2, Boost, std) or 4 inputs, with parts of the input consumed in between; every object compared with a freshly constructed one; non-trivial: every history; distinct by the history',
  min_nontrivial=1000,
  jobs=[J('pattern', 'life', 160, 40000, args=['--mode', 'pattern'], libs=ENG, leaks=True),
        J('matcher', 'life', 900, 100000, args=['--mode', 'matcher'], libs=ENG, leaks=True),
        J('input', 'life', 2000, 100000, args=['--mode', 'input'], libs=ENG, leaks=True)]),
 'C13': dict(
  rule='random specifications (definitions, inclusive and exclusive start conditions, scopes, initial code, trailing context, anchors, shared actions, end-of-file rules, options) generated as table, full, fast and Flex-compatible scanners and run on inputs from 4 kinds of source; the printed actions compared with an interpreter of the specification; non-trivial: every (specification, code, input); distinct by these',
  min_nontrivial=1000,
  jobs=[J('spec', 'lexgen.py', 16, 1500, needs=('reflex', 'lib'), hang=600)]),
 'C21': dict(
  rule='random nests of indented lines (blanks, tabs, other margin characters, blank lines, comments, continuations, dedents between margins) scanned with four documented rule sets from tables and from compiled code, through 12 kinds of delivery, with stop operations and tab changes between tokens; rule, text and stops of every token compared with a margin-stack model, indents and dedents balanced against the stops; non-trivial: a history with indent or dedent events; distinct by (input, rules, code)',
  min_nontrivial=1000,
  jobs=[J('indent', 'indent', 150, 20000, libs=['-rdynamic', '-ldl']),
        J('indent-small', 'indent', 60, 10000, args=['--small', '1'], variant='asan:small', libs=['-rdynamic', '-ldl'])]),
 'C16': dict(
  rule='storms of 3..8 threads in a fresh process: matchers, lexers and copies on shared const patterns of every kind, patterns constructed and destroyed, conversions, PCRE2, Boost, std and fuzzy matchers on shared patterns, encoded inputs, regex errors; ThreadSanitizer watches every access and each task must give what it gives alone; non-trivial: a task with output; distinct by (storm, task)',
  min_nontrivial=1000,
  jobs=[J('storm', 'threads', 10, 2000, variant='tsan', libs=ENG + ['-lpthread'])]),
 'C18': dict(
  rule='random strings and regexes over small alphabets with UTF-8, texts made by random edits of texts of the pattern, every maximum 1..4 and set of edit kinds; acceptance, rule, text and edits compared with the edit distance to an independent automaton; non-trivial: every (pattern, maximum, kinds, text); distinct by these',
  min_nontrivial=1000,
  jobs=[J('literal', 'fuzzy', 2000, 300000, args=['--mode', 'literal']),
        J('regex', 'fuzzy', 2000, 200000, args=['--mode', 'regex']),
        J('find', 'fuzzy', 1000, 200000, args=['--mode', 'find']),
        J('find-small', 'fuzzy', 100, 30000, args=['--mode', 'find', '--long', '1'], variant='asan:small'),
        J('mix', 'fuzzy', 1000, 100000, args=['--mode', 'literal', '--mix', '1']),
        J('mix-regex', 'fuzzy', 600, 60000, args=['--mode', 'regex', '--mix', '1']),
        J('mix-find', 'fuzzy', 400, 60000, args=['--mode', 'find', '--mix', '1']),
        J('utf', 'fuzzy', 600, 60000, args=['--mode', 'literal', '--utf', '1'], hang=10),
        J('utf-regex', 'fuzzy', 600, 60000, args=['--mode', 'regex', '--utf', '1'], hang=10),
        J('utf-find', 'fuzzy', 300, 60000, args=['--mode', 'find', '--utf', '1'], hang=10)]),
 'C22': dict(
  rule='random sources cut at random points (also inside tokens, empty ones) of 7 kinds, read through matchers and lexers whose wrap() sets the next source, compared with the concatenation; nested includes with pushed and popped matchers, round-robin switching and replaced input compared with a recursive interpreter (text, depth, line, column); non-trivial: every history; distinct by sources and pattern',
  min_nontrivial=1000,
  jobs=[J('wrap', 'wrap', 600, 60000, args=['--mode', 'wrap'], libs=ENG, leaks=True),
        J('lexer', 'wrap', 500, 50000, args=['--mode', 'lexer'], libs=ENG, leaks=True),
        J('stack', 'wrap', 400, 40000, args=['--mode', 'stack'], libs=ENG, leaks=True),
        J('small', 'wrap', 300, 30000, args=['--mode', 'wrap'], variant='asan:small', libs=ENG, leaks=True),
        J('stack-small', 'wrap', 150, 30000, args=['--mode', 'stack'], variant='asan:small', libs=ENG, leaks=True)]),
}
