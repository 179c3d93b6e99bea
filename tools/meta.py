#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), tech='', note=''):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                   mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)), tech, note))

p('C01', 'Scanning and whole-input matching return the leftmost-longest match',
  'For every valid regex pattern and every byte input, repeatedly scanning splits the input into tokens where each token is the longest non-empty text at the current position that belongs to some top-level alternative of the pattern, and the reported accept index is that of the first such alternative; where no alternative matches, the scan reports no match and consumes nothing. Matching the whole input succeeds exactly if the entire input belongs to the pattern, with the index of the first alternative that contains it.',
  ['inputs', 'programs'], 'every regex (literals, classes, groups, alternation, repeats, inline modes i/s/x/q) and every byte input, delivered at once or in pieces',
  'The unit tests compare about 250 fixed regex/input pairs; the DFA construction, minimisation and opcode encoding are not exercised on other shapes of pattern.',
  ['lib/pattern.cpp', 'include/reflex/pattern.h', 'include/reflex/matcher.h', 'include/reflex/absmatcher.h'],
  [('regex parser, followpos sets, DFA compilation', 'lib/pattern.cpp Pattern::parse, parse1..4, compile, compile_transition'), ('opcode encoding', 'lib/pattern.cpp encode_dfa'), ('DFA interpreter', 'include/reflex/matcher.h Matcher::match')],
  [('opc_', 'opcode table', 'include/reflex/pattern.h'), ('cur_, pos_, cap_', 'match cursor and accept index', 'include/reflex/absmatcher.h')],
  ['return values of scan(), matches(), size(), first(), str()'],
  'runtime monitor: online comparison with a reference NFA under ASan+UBSan')

p('C02', 'Searching returns exactly the leftmost-longest non-overlapping matches',
  'For every valid regex pattern and every byte input of any length, repeated searching returns exactly the non-empty matches obtained by trying every start position from left to right and taking the longest match at each, then continuing behind it, with the correct accept index and position, and nothing else. The search heuristics (literal prefixes, Boyer-Moore, needle and bitap prediction, SIMD variants) never lose, add or move a match.',
  ['inputs', 'programs', 'configurations'], 'every regex, every input (short, long, across internal buffer blocks, delivered in pieces), each of the scalar, SSE2, AVX2 and AVX512BW builds',
  'The unit tests search a handful of short inputs with one SIMD configuration; prediction tables and block-boundary handling depend on the shape of pattern and on the distance between matches.',
  ['lib/matcher.cpp', 'lib/pattern.cpp', 'include/reflex/matcher.h', 'include/reflex/pattern.h'],
  [('search acceleration', 'lib/matcher.cpp Matcher::advance, boyer_moore_init'), ('prediction tables', 'lib/pattern.cpp predict_match_dfa, gen_predict_match'), ('predict_match', 'include/reflex/pattern.h')],
  [('pma_, pmh_, bit_, pre_, len_, min_, one_', 'search prediction data', 'include/reflex/pattern.h'), ('bmd_, bms_, lcp_, lcs_', 'Boyer-Moore state', 'include/reflex/matcher.h')],
  ['sequence of find() results'],
  'runtime monitor: offline comparison of the find() history with brute-force search by a reference NFA, in four SIMD builds under ASan+UBSan')

p('C03', 'Splitting partitions the input at the matches without losing text',
  'For every pattern and input, repeated splitting returns the pieces of text between the consecutive matches in order, each piece with the accept index of the match that ends it, and last the (possibly empty) remaining text flagged as the end piece; after that it returns no more. No byte of the input is lost, duplicated or reordered: pieces and the matches between them concatenate to the input.',
  ['inputs', 'programs'], 'every regex, including nullable ones, and every input, delivered at once or in pieces',
  'Unit tests split a few fixed inputs; what happens when a partial match runs into the end of input or a block boundary needs specific inputs.',
  ['include/reflex/matcher.h', 'include/reflex/absmatcher.h'],
  [('split branch of the matcher', 'include/reflex/matcher.h Matcher::match method SPLIT')], (), ['sequence of split() results'],
  'runtime monitor: comparison of the split() history with reference pieces under ASan+UBSan')

p('C04', 'Anchors and word boundaries match exactly at their positions',
  'For every pattern with anchors at the start or end of its top-level alternatives (begin/end of input, begin/end of line in multiline mode, word begin/end, word and non-word boundary), scanning and searching accept a match exactly when the text belongs to the pattern and the position before and after it satisfies the anchors. The answer depends only on the surrounding characters of the whole input, not on earlier matches or on how the input is delivered.',
  ['inputs', 'programs'], 'every anchored pattern and every input, delivered at once or in pieces',
  'Boundary decisions depend on the characters before and behind the match, on matcher history and on buffer shifts, of which tests sample a few.',
  ['include/reflex/matcher.h', 'lib/pattern.cpp', 'include/reflex/absmatcher.h'],
  [('meta opcodes', 'include/reflex/matcher.h Matcher::match, FSM_META_*'), ('meta edges in the DFA', 'lib/pattern.cpp compile, check_dfa_closure'), ('at_bol, at_bow, at_eow', 'include/reflex/absmatcher.h')],
  [('got_', 'the character before the match', 'include/reflex/absmatcher.h')], ['find() and scan() results'],
  'runtime monitor: comparison with a reference NFA with assertions, under ASan+UBSan')

p('C05', 'Lookahead, lazy and negative patterns match what they specify',
  'A trailing lookahead x(?=y) matches a text of x that is followed by y, and only x is consumed; a lazy repeat stops at the shortest text that completes its pattern; a negative pattern (?^x) makes its matches invisible to scanning and searching while still winning over shorter positive matches. This holds for every such pattern and input.',
  ['inputs', 'programs'], 'trailing lookahead without ambiguous overlap, lazy quantifiers in delimiter-style patterns, negative top-level alternatives, over all inputs',
  'These constructs are compiled into extra DFA bookkeeping; tests hold some 40 fixed cases.',
  ['lib/pattern.cpp', 'include/reflex/matcher.h'],
  [('lookahead heads and tails', 'lib/pattern.cpp compile, encode_dfa; include/reflex/matcher.h opcodes HEAD and TAIL'), ('lazy followpos', 'lib/pattern.cpp parse3, greedy, lazy, trim_lazy'), ('REDO', 'include/reflex/matcher.h')],
  (), ['find() and scan() results'],
  'runtime monitor: comparison with declarative reference semantics under ASan+UBSan')

p('C06', 'Matching does not depend on how the input is delivered',
  'For every pattern, input and sequence of matching operations, the observable results (matches, texts, positions, end-of-input reports) are the same whether the input comes from memory, a file, a stream or a custom reader, in one piece or in arbitrary short reads, with any internal block size, interactively, or from a user buffer scanned in place. Inputs and tokens larger than the internal buffer are handled without loss.',
  ['inputs', 'schedules', 'configurations'], 'every split of the input into read results, every source kind, block sizes from 1 byte up, interactive mode, inputs beyond the internal buffer size',
  'Buffer growth, shifting and end-of-input detection depend on the sizes returned by each read; tests read small strings at once.',
  ['include/reflex/absmatcher.h', 'include/reflex/input.h', 'include/reflex/matcher.h', 'lib/matcher.cpp'],
  [('buffer management', 'include/reflex/absmatcher.h grow, get, get_more, peek, peek_more, buffer'), ('input sources', 'include/reflex/input.h Input::get')],
  [('buf_, end_, pos_, max_, blk_, eof_', 'buffer and read state', 'include/reflex/absmatcher.h')], ['histories of matcher calls'],
  'runtime monitor: differential comparison of recorded call histories over delivery schedules, under ASan+UBSan')

p('C07', 'Reported positions agree with the consumed text',
  'After every match, the byte offset, line number, column number, last line and column, line and column counts, character counts, and the text of the surrounding line agree with what counting in the original input gives, where columns count Unicode characters and tabs advance to the next tab stop. This holds for every input and any history of scans, searches, skips, reads and modified texts.',
  ['inputs', 'histories'], 'every input including multi-line tokens, tabs, UTF-8 and arbitrary bytes, every delivery schedule, queries in any order and any subset',
  'Line and column counts are computed lazily from cached positions that survive buffer shifts, so they depend on which queries were made before and where blocks end.',
  ['include/reflex/absmatcher.h'],
  [('lazy line and column counting', 'include/reflex/absmatcher.h lineno, columno, lineno_end, columno_end, lines, columns, border, line, wline, span'), ('position preservation on shift', 'include/reflex/absmatcher.h grow')],
  [('lno_, cno_, cpb_, lpb_, bol_, num_', 'cached line, column and offset state', 'include/reflex/absmatcher.h')], ['first, last, lineno, columno, lineno_end, columno_end, lines, columns, wsize, line, bol, eol'],
  'runtime monitor: online model of the position of every match under ASan+UBSan')

p('C08', 'Matcher input operations act as on one stream of characters',
  'Any interleaving of scanning or searching with reading a character, peeking, putting characters back, skipping to a delimiter, extending the next match (more), shortening the current match (less), and taking the rest of the input behaves as a sequence of operations on one character stream: every character is delivered once, in order, put-back characters come next, and texts are the characters consumed. End of input is reported exactly when the stream is exhausted.',
  ['histories', 'inputs'], 'every sequence of matcher operations over every input, block size and delivery schedule',
  'Unit tests apply each operation in a fixed order to one short string; the operations share cursor, terminator and buffer state.',
  ['include/reflex/absmatcher.h', 'include/reflex/matcher.h'],
  [('input, winput, peek, unput, wunput, skip, more, less, rest, text, begin', 'include/reflex/absmatcher.h')],
  [('txt_, len_, cur_, pos_, chr_', 'text and cursor state', 'include/reflex/absmatcher.h')], ['results of all public operations'],
  'runtime monitor: model-based checking of random operation histories under ASan+UBSan')

p('C09', 'Exported and generated state machines behave as the in-memory pattern',
  'For every pattern, the opcode table exported as C++ code, the directly generated finite state machine code (with or without the fast option and the search prediction table), and the pattern compiled in memory give the same matches, accept indices and positions for every input. A pattern constructed from an exported table finds the same matches as the pattern it was exported from.',
  ['programs', 'inputs'], 'every pattern including anchors, lookahead and indentation anchors, each generated form, scanning, searching, splitting and matching any input',
  'Tests compile generated code of a few example lexers only; the code generator and the interpreter are two implementations of one semantics.',
  ['lib/pattern.cpp', 'include/reflex/matcher.h', 'include/reflex/pattern.h'],
  [('code generation', 'lib/pattern.cpp gencode_dfa, export_code, encode_dfa, write_predictor'), ('FSM run time', 'include/reflex/matcher.h FSM_*'), ('table constructors', 'include/reflex/pattern.h Pattern(const Opcode*, const Pred*), Pattern(FSM, const Pred*)')],
  (), ['histories of matcher calls'],
  'runtime monitor: compile generated code, run beside the in-memory pattern, compare recorded histories')

p('C10', 'Every input source is decoded to the same UTF-8 text',
  'Text in UTF-8, UTF-16 or UTF-32 of either byte order (with a byte order mark or declared), in a declared single-byte code page, in a wide string or in a custom code page, read from memory, FILE or stream in portions of any size, is delivered as exactly the UTF-8 encoding of its characters, once and in order, and then end of input. The reported size of the input equals the number of bytes delivered, and malformed input never causes invalid memory access.',
  ['inputs', 'configurations'], 'every text, encoding, source kind and sequence of read sizes from one byte up',
  'Tests read a few fixed files with large reads; multi-byte conversion across small reads and short files is not reached.',
  ['lib/input.cpp', 'include/reflex/input.h'],
  [('file encodings and code pages', 'lib/input.cpp file_init, file_get, file_size, file_encoding'), ('wide strings', 'include/reflex/input.h Input::get'), ('BufferedInput, streambuf', 'include/reflex/input.h')],
  [('utf8_, uidx_, ulen_', 'converted bytes pending delivery', 'include/reflex/input.h')], ['bytes returned by get(), size()'],
  'runtime monitor: conservation check of delivered bytes against reference encoders under ASan+UBSan')

p('C11', 'UTF-8 conversion and Unicode range expressions are exact',
  'Encoding a code point to UTF-8 and decoding it gives the code point back for every code point, decoding arbitrary bytes never reads outside the text and makes progress, and strings convert between wide and UTF-8 forms without loss. The regex generated for a range of code points matches exactly the UTF-8 encodings of the code points in the range and nothing else.',
  ['inputs'], 'every code point, every range of code points, every byte string',
  'Tests print a few ranges; boundary code points of the 1, 2, 3 and 4 byte forms are where the construction changes.',
  ['lib/utf8.cpp', 'include/reflex/utf8.h'],
  [('codecs', 'include/reflex/utf8.h to_utf8, from_utf8, is_utf8, wcs'), ('range regex', 'lib/utf8.cpp utf8')],
  (), ['return values; set of strings matched by the regex'],
  'runtime monitor: exhaustive and random evaluation against reference codecs under ASan+UBSan')

p('C12', 'Regex conversion preserves the meaning of a pattern',
  'For every valid regex and every conversion option, the converted regex describes the same set of texts as the original under that option (Unicode classes, free space, case-insensitivity, dotall, quotation, named macros and bracket set operations), for the target signature chosen. Converting an invalid regex reports an error at a position inside the regex instead of producing a wrong one.',
  ['programs', 'inputs'], 'every regex with Unicode and byte classes, all conversion flags, macro definitions, every input',
  'Tests convert a list of fixed regexes; the class algebra and UTF-8 expansion interact with every mode.',
  ['lib/convert.cpp', 'include/reflex/convert.h', 'lib/posix.cpp', 'lib/unicode.cpp'],
  [('conversion', 'lib/convert.cpp convert, convert_unicode_ranges, convert_posix_ranges, insert_list, merge_list')], (), ['converted regex, matches of the converted regex'],
  'runtime monitor: matches of the converted regex compared with a reference matcher over code points, under ASan+UBSan')

p('C13', 'A generated scanner executes its specification',
  'For every lexer specification, the scanner that the generator emits runs, for each token of the input, the action of the first listed rule among those with the longest match in the active start conditions, with the documented effect of inclusive and exclusive start conditions, state stacks, definitions, default rule, end-of-file rules and options, and echoes unmatched text when no rule applies. The sequence of actions and texts is the same with table, fast and full generated code.',
  ['programs', 'inputs', 'configurations'], 'every specification within the documented language (rules, definitions, start conditions, options), every input, each code generation option',
  'Tests build the example lexers and run few of them on inputs; rule priority and start-condition bookkeeping interact across all rules.',
  ['src/reflex.cpp', 'include/reflex/abslexer.h', 'include/reflex/flexlexer.h', 'lib/pattern.cpp'],
  [('scanner generation', 'src/reflex.cpp Reflex::parse, write_lexer, write_code'), ('rule numbering', 'src/reflex.cpp Reflex::write_rules / stats')], (), ['action log of the generated scanner'],
  'runtime monitor: action log of generated scanners checked against a reference interpreter of the specification')

p('C14', 'Range sets and bit sets implement set algebra',
  'After every sequence of insertions, unions, intersections, differences and comparisons, range sets and bit sets contain exactly the elements that the operations define: membership, iteration order, first/last/count, overlap and subset tests all agree with a mathematical set. Open-ended range sets keep ranges merged and disjoint.',
  ['histories', 'inputs'], 'every sequence of operations over every element type and value',
  'Tests apply a short fixed list of operations; overlapping and adjacent ranges and word boundaries need combinations.',
  ['include/reflex/ranges.h', 'include/reflex/bits.h', 'include/reflex/setop.h', 'include/reflex/timer.h'],
  [('ranges', 'include/reflex/ranges.h Ranges, ORanges'), ('bits', 'include/reflex/bits.h Bits'), ('set operators', 'include/reflex/setop.h')], (), ['all public operations'],
  'runtime monitor: model-based checking against std::set under ASan+UBSan')

p('C15', 'Any regex and any input is handled safely',
  'For every byte string given as a regex with any options, constructing the pattern either succeeds or reports a regex error with a position inside the regex, in bounded time and without memory errors, undefined behaviour or leaks; a pattern that was constructed can be run over every input in every method safely and terminates. Regex conversion has the same guarantee.',
  ['inputs', 'programs'], 'every byte string as regex, every option string, every input',
  'Tests cover a few malformed regexes; parser error paths and table limits are reached by hostile text only.',
  ['lib/pattern.cpp', 'lib/convert.cpp', 'lib/error.cpp', 'include/reflex/matcher.h'],
  [('error reporting', 'lib/pattern.cpp Pattern::error, lib/error.cpp'), ('parser bounds', 'lib/pattern.cpp parse, lib/convert.cpp convert')], (), ['sanitizer reports, exceptions, termination'],
  'sanitizers: ASan+UBSan+LSan and library invariants under mutational and generative fuzzing')

p('C16', 'Patterns can be shared and matchers used concurrently',
  'One pattern object can be used by matchers in several threads at the same time, and patterns can be constructed, converted and destroyed concurrently, without data races and with the same results as when run sequentially. No use of separate matcher, input and lexer objects in different threads interferes.',
  ['schedules'], 'every interleaving of threads that construct patterns, convert regexes, match, search and query positions on distinct matchers sharing patterns',
  'No unit test uses threads.',
  ['lib/pattern.cpp', 'lib/convert.cpp', 'lib/unicode.cpp', 'include/reflex/matcher.h', 'lib/matcher.cpp'],
  [('const patterns', 'include/reflex/pattern.h'), ('static tables', 'lib/unicode.cpp, lib/posix.cpp')], (), ['ThreadSanitizer reports, per-thread results'],
  'race detector: ThreadSanitizer over stress schedules, results compared with a sequential run')

p('C17', 'The PCRE2, Boost and std::regex matchers honour the matcher contract',
  'A matcher based on another regex engine returns for every scan, find, split and match the results its engine gives on the whole input, with correct texts, positions, group captures and end-of-input behaviour, regardless of block sizes and of how the input is delivered. Sharing the matcher interface, operations on the input stream behave the same as with the native matcher.',
  ['inputs', 'schedules', 'programs'], 'every pattern in the common subset, every input and delivery schedule',
  'The adapters must decide when a partial match at the end of the buffer needs more input, which depends on where reads end.',
  ['include/reflex/pcre2matcher.h', 'include/reflex/boostmatcher.h', 'include/reflex/stdmatcher.h', 'include/reflex/absmatcher.h'],
  [('partial match and refill', 'include/reflex/pcre2matcher.h match; include/reflex/boostmatcher.h match; include/reflex/stdmatcher.h match')], (), ['histories of matcher calls'],
  'runtime monitor: histories compared with the engine applied to the whole input under ASan+UBSan')

p('C18', 'Fuzzy matching respects the edit distance and the kinds of edits allowed',
  'Whatever a fuzzy matcher accepts as a whole input, or finds while searching, can be obtained from some text of the pattern with at most the maximum number of edits of the allowed kinds (extra, missing or substituted characters); edits() reports a number of edits that suffices and that does not exceed the maximum. A whole input that the pattern matches exactly is accepted with no edits, and an input is accepted when it is within the distance of a pattern that is a string of single-byte characters. A newline or NUL is never an extra or substituted character. Searching and splitting end for every input, report consecutive spans of it, and lose no text of it.',
  ['inputs', 'programs'], 'every pattern, every input, every maximum and combination of insertion, deletion and substitution',
  'Tests try a handful of words; the backtracking over edits explores a different path for each input.',
  ['fuzzy/fuzzymatcher.h'],
  [('backtracking over edits', 'fuzzy/fuzzymatcher.h FuzzyMatcher::match')], (), ['matches(), find(), edits()'],
  'runtime monitor: comparison with edit-distance over a reference NFA under ASan+UBSan')

p('C19', 'Patterns, matchers and inputs can be copied, reassigned and reset',
  'After copying, assigning, re-initialising or changing the pattern, input or options of a pattern, matcher or input object, in any order, each object behaves as a freshly constructed one with the same pattern, options and remaining input, and independent objects do not affect each other. No such sequence leaks, double-frees or uses freed memory.',
  ['histories'], 'every sequence of copy, assign, swap of pattern, new input, reset and match operations',
  'Ownership flags, cached search tables and accept lists carry over between uses; tests use each object once.',
  ['include/reflex/pattern.h', 'include/reflex/absmatcher.h', 'include/reflex/matcher.h', 'lib/pattern.cpp'],
  [('copy and assignment', 'include/reflex/pattern.h Pattern::operator=, assign; include/reflex/absmatcher.h PatternMatcher::operator=, pattern, input, reset; include/reflex/matcher.h Matcher::operator=, clone')], (), ['results after each operation; sanitizer reports'],
  'runtime monitor: differential histories against fresh objects under ASan+UBSan+LSan')

p('C20', 'Unicode classes contain exactly the listed code points',
  'Every Unicode class name accepted in a regex (general categories, scripts, blocks, derived and POSIX-style classes) matches exactly the code points of that class in the Unicode data shipped with the library, its negation matches exactly the others, and names that the data does not define are rejected. The result is the same in native patterns, converted regexes and bracket lists.',
  ['inputs', 'programs'], 'every class name and every code point',
  'Tests use a couple of classes; the tables hold over a hundred thousand entries.',
  ['lib/unicode.cpp', 'unicode/letter_scripts.cpp', 'unicode/block_scripts.cpp', 'unicode/language_scripts.cpp', 'lib/convert.cpp'],
  [('tables', 'unicode/*.cpp'), ('lookup', 'lib/unicode.cpp Tables::range')], (), ['matches of each class over all code points'],
  'runtime monitor: exhaustive evaluation of classes over all code points against an independent reading of the Unicode data')

p('C21', 'Indent and dedent anchors track indentation',
  'With the rules that the documentation gives for indentation (anchors \\i, \\j and \\k at the end of a pattern for the margin), for every input of indented lines, one indent is reported for each increase beyond the current margin and one dedent for each margin left, tabs counting to the next tab stop, so that indents and dedents balance at the end of an input that ends with a line at the left margin. The events do not depend on how the input is delivered nor on whether the pattern is interpreted or compiled to code. Margins are reset, saved and restored as documented when the tab stops are cleared, inserted, pushed or popped.',
  ['inputs', 'histories'], 'every sequence of lines and indentation, tab sizes, delivery schedules',
  'Tests use one small nest of indents; the margin stack depends on the entire history.',
  ['include/reflex/matcher.h', 'lib/pattern.cpp'],
  [('indentation', 'include/reflex/matcher.h newline, indent, dedent, nodent, push_stops, pop_stops')],
  [('tab_, ded_, col_', 'margin stack', 'include/reflex/matcher.h')], ['event sequence, stops()'],
  'runtime monitor: event trace checked against a margin-stack model under ASan+UBSan')

p('C22', 'Wrapping and input stacks deliver all sources in order',
  'When a matcher wraps to further input at the end of a source, or a lexer pushes and pops input buffers, every source is scanned completely and in order, nothing of one source is lost or duplicated by switching to another, and scanning an outer source continues exactly where it was left. Wrapped sources are scanned as their concatenation, pushed and popped sources never mix, and the end is reported once all sources are exhausted.',
  ['histories', 'inputs'], 'every number and size of sources, nesting order, point of switching, delivery schedule',
  'Tests wrap one fixed pair of strings.',
  ['include/reflex/absmatcher.h', 'include/reflex/abslexer.h', 'include/reflex/flexlexer.h'],
  [('wrap', 'include/reflex/absmatcher.h wrap; get, peek'), ('buffer stack', 'include/reflex/abslexer.h push_matcher, pop_matcher; include/reflex/flexlexer.h yypush_buffer_state, yypop_buffer_state')], (), ['token log over all sources'],
  'runtime monitor: conservation and ordering of the token log over sources under ASan+UBSan')

with open(V + '/properties.jsonl', 'w') as f:
    for d, _, _ in P: f.write(json.dumps(d, ensure_ascii=False) + '\n')
NA = {}
checks, na = [], []
for d, tech, note in P:
    i = d['id']
    if i in PROPS:
        checks.append(dict(property=i, quick_cmd='python3 run.py %s --tier quick' % i, thorough_cmd='python3 run.py %s --tier thorough' % i,
            technique=tech, level='exploration',
            level_note=note or PROPS[i].get('note') or 'Exploration: the oracle decided every execution counted in the evidence; nothing is claimed for inputs not run. Trusts the reference model in /verif/harness, clang and its sanitizer run times.'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
  notes='No hooks in /repo: monitors use the public API, subclassing, a force-included header that turns the library\'s own debug assertions into aborting invariants, and compiler sanitizers.')
with open(V + '/MANIFEST.json', 'w') as f: json.dump(m, f, indent=1); f.write('\n')
print(len(P), 'properties', len(checks), 'claimed')
for d, _, _ in P:
    assert len(d['title']) <= 80, (d['id'], len(d['title']))
