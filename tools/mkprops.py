#!/usr/bin/env python3
# Source of properties.jsonl (kept as code so that it stays valid JSON).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
        "mechanism": [dict(name=a, where=b) for a, b in mech],
        "observe_at": list(observe), "hook_needed": None}})

p("C01", "UTF-8 decoding accepts exactly well-formed UTF-8, defines the rest",
  "For every byte string, decoding yields the scalar value encoded by the first sequence exactly when that sequence is well-formed UTF-8 (no overlong forms, surrogates or values above U+10FFFF), and U+FFFD otherwise. The return value is the number of bytes processed: the whole sequence, or for a malformed one the lead byte plus the continuation bytes that follow it up to the announced length; a truncated sequence reports the announced length, which is larger than the given length; NULL or empty input reports 0. No byte beyond the given length is read, and a NULL output pointer changes nothing else.",
  ["inputs"], "every byte string of every length, every length argument including SIZE_MAX, NULL or non-NULL pointers",
  "The unit tests try about 30 byte strings; the quantifier is over all byte strings and all truncation points.",
  ["src/utf8.c"], [("lead byte table and continuation checks", "src/utf8.c:grapheme_decode_utf8")],
  observe=["grapheme_decode_utf8"])
p("C02", "UTF-8 encoding is the exact shortest form and never overruns",
  "For every 32-bit value, encoding reports the length of and writes the unique shortest well-formed UTF-8 sequence of that scalar value, with surrogates and values above U+10FFFF replaced by U+FFFD. If the buffer is NULL or shorter than the sequence, the same length is reported and not a single byte is written. Bytes beyond the sequence are never touched.",
  ["inputs"], "every 32-bit value and every buffer length",
  "The tests encode a handful of codepoints; the claim is over all 2^32 values and all buffer lengths.",
  ["src/utf8.c"], [("length selection and bit distribution", "src/utf8.c:grapheme_encode_utf8")],
  observe=["grapheme_encode_utf8"])
p("C03", "UTF-8 stream decoding loses nothing, resynchronises, round-trips",
  "Decoding a byte string step by step tiles it: every step consumes at least one byte, well-formed characters are always recovered exactly no matter what garbage precedes them, and encoding then decoding any scalar value returns it with the same length. Feeding the same bytes in arbitrary chunks, extending the buffer whenever a step reports that it needs more bytes than available, yields the same sequence of codepoints and lengths as decoding in one piece.",
  ["inputs", "histories"], "every byte string and every way of splitting it into chunks",
  "Tests call the decoder once on each string; no test walks a stream, splits one, or combines encoder and decoder.",
  ["src/utf8.c"], [("incomplete-sequence return value", "src/utf8.c:grapheme_decode_utf8")],
  observe=["grapheme_decode_utf8", "grapheme_encode_utf8"])
p("C04", "Grapheme cluster boundaries follow UAX #29 for every text",
  "For every codepoint sequence the next character break is the first extended grapheme cluster boundary of UAX #29 (Unicode 15.0, rules GB1-GB999) after its start, and iterating over the rest yields exactly the boundaries of the whole text. This includes emoji ZWJ sequences, regional indicator pairing and Hangul syllables of any length and in any context.",
  ["inputs"], "every codepoint sequence of every length and every start at a boundary",
  "GraphemeBreakTest.txt has 602 strings of at most a few codepoints; unbounded contexts (emoji and flag runs, long Extend runs) and most rule interactions are not sampled.",
  ["src/character.c", "gen/character.c", "src/util.c"],
  [("pair tables and emoji/flag flags", "src/character.c:grapheme_is_character_break"), ("reader loop", "src/character.c:next_character_break")],
  [("gb11_flag, gb12_13_flag", "left context of emoji and flag sequences", "src/character.c")],
  ["grapheme_next_character_break", "grapheme_next_character_break_utf8"])
p("C05", "Stateful pairwise break test agrees with the text segmentation",
  "Calling the pairwise grapheme break test over adjacent codepoints of any text with a state that starts at zero answers exactly at the grapheme cluster boundaries of the whole text, also across breaks. Resetting the state at a detected break or switching between texts with separate states changes nothing, and a NULL state gives the same answer as a freshly reset state for every codepoint pair.",
  ["inputs", "histories"], "every codepoint sequence, every interleaving of texts with their own states, every set of break positions at which the state is reset, every codepoint pair with NULL state",
  "The tests use one state per listed string and never a NULL state, a reset at a break, or interleaved states.",
  ["src/character.c"], [("state word", "src/character.c:state_serialize"), ("NULL-state branch", "src/character.c:grapheme_is_character_break")],
  [("state", "uint_least16_t carried by the caller", "grapheme.h")], ["grapheme_is_character_break"])
p("C06", "Word boundaries follow UAX #29 for every text",
  "For every codepoint sequence the next word break is the first word boundary of UAX #29 (Unicode 15.0, rules WB1-WB999) after its start, with Extend, Format and ZWJ ignored as WB4 prescribes on both sides of any rule. Iterating over the rest yields exactly the boundaries of the whole text.",
  ["inputs"], "every codepoint sequence of every length and every start at a boundary",
  "WordBreakTest.txt has about 1800 strings of two or three significant characters; runs of ignored characters of arbitrary length, two-sided lookaround and flag runs are hardly sampled.",
  ["src/word.c", "src/util.c", "gen/word.c"], [("rules WB3-WB16", "src/word.c:next_word_break"), ("skip view", "src/util.c:proper_advance")],
  [("raw/skip prev/next properties", "two-sided context with and without ignored characters", "src/util.h:struct proper")],
  ["grapheme_next_word_break", "grapheme_next_word_break_utf8"])
p("C07", "Sentence boundaries follow UAX #29 for every text",
  "For every codepoint sequence the next sentence break is the first sentence boundary of UAX #29 (Unicode 15.0, rules SB1-SB998) after its start, including the unbounded lookahead of SB8 and the terminator/close/space sequences of SB8a-SB11 with Extend and Format ignored. Iterating over the rest yields exactly the boundaries of the whole text.",
  ["inputs"], "every codepoint sequence of every length and every start at a boundary",
  "SentenceBreakTest.txt has about 500 short strings; repeated terminators, long lookaheads and interleaved ignorable characters are not covered.",
  ["src/sentence.c", "src/util.c", "gen/sentence.c"], [("SATerm Close* Sp* ParaSep? levels", "src/sentence.c:sentence_skip_shift_callback"), ("SB8 lookahead", "src/sentence.c:next_sentence_break")],
  [("aterm_close_sp_level, saterm_close_sp_parasep_level", "progress in the terminator sequence", "src/sentence.c")],
  ["grapheme_next_sentence_break", "grapheme_next_sentence_break_utf8"])
p("C08", "Line break opportunities follow UAX #14 for every text",
  "For every codepoint sequence the next line break is the first break opportunity of UAX #14 (Unicode 15.0, rules LB1-LB31 with the number tailoring of example 7 used by LineBreakTest.txt) after its start. Combining marks and ZWJ are absorbed (LB9) or treated as alphabetic (LB10) wherever they occur, and iterating over the rest yields exactly the opportunities of the whole text.",
  ["inputs"], "every codepoint sequence of every length and every start at a break",
  "LineBreakTest.txt mostly pairs two classes with an optional mark or space between; longer numeric expressions, nested spaces and marks after them are not sampled.",
  ["src/line.c", "gen/line.c", "src/util.c"], [("rule cascade", "src/line.c:next_line_break")],
  [("last_non_cm_or_zwj_prop, last_non_sp_prop, lb25_level, lb21a_flag, ri_even", "left context", "src/line.c")],
  ["grapheme_next_line_break", "grapheme_next_line_break_utf8"])
p("C09", "Repeated segmentation always progresses and tiles the input",
  "For each of the four segmentations, every step on non-empty well-formed input advances by at least one and never beyond the input, so repeated calls tile the text in order; only NULL, empty input or an incomplete UTF-8 sequence at the very end returns 0. Offsets always lie between characters, a break is never reported inside a CR LF pair, and the result of one step depends only on the text from its start.",
  ["inputs", "histories"], "every codepoint or byte string, each of the four segmentations, every number of steps",
  "Tests compare a fixed list of offsets for listed strings; termination and tiling for arbitrary (also malformed) input are not tested.",
  ["src/character.c", "src/word.c", "src/sentence.c", "src/line.c", "src/util.c"], [("reader offset accounting", "src/util.c:herodotus_read_codepoint")],
  observe=["grapheme_next_*_break", "grapheme_next_*_break_utf8"])
p("C10", "UTF-8 functions equal codepoint functions on the decoded text",
  "For every byte string, each *_utf8 function gives the result of its codepoint counterpart on the decoded text, with offsets and lengths translated to bytes and malformed sequences treated as U+FFFD. A sequence cut off at the end of the input is left out as if the input ended before it. This holds for segmentation, case conversion and case detection alike.",
  ["inputs"], "every byte string, well-formed or not, and every public function that has both variants",
  "The tests feed both variants the same well-formed strings; malformed and truncated bytes are tried in only a few cases, none for case mapping.",
  ["src/util.c", "src/utf8.c", "src/case.c"], [("reader and writer abstraction", "src/util.c:herodotus_read_codepoint, herodotus_write_codepoint")],
  [("off, soft_limit", "read position and nested limits", "src/util.h")], ["grapheme_*_utf8"])
p("C11", "NUL-terminated mode equals explicit length up to the first NUL",
  "Passing SIZE_MAX as length to any segmentation, case or paragraph function gives the same result as passing the number of units before the first NUL (for UTF-8: when no sequence is cut off there; a sequence cut off by the NUL is malformed, one cut off by an explicit length is left out), and nothing after the NUL is ever read. With an explicit length, NUL is an ordinary character and processing continues past it.",
  ["inputs"], "every text containing a NUL at any position, every function with a length argument, both encodings",
  "Few tests use SIZE_MAX and none places data or unmapped memory after the terminator.",
  ["src/util.c"], [("terminated_by_null handling", "src/util.c:herodotus_read_codepoint")],
  [("terminated_by_null", "sticky end marker", "src/util.h")], ["all public functions taking a length"])
p("C12", "Every codepoint is segmented according to its Unicode 15.0 class",
  "Each codepoint from 0 to U+10FFFF, assigned or not, behaves in grapheme, word, sentence and line segmentation according to its Unicode 15.0.0 property values, including emoji, general-category and East-Asian-width refinements and the documented defaults for unlisted codepoints. Values above U+10FFFF behave as unassigned (class Other, XX/AL).",
  ["inputs"], "every codepoint value and each of the four segmentations",
  "The conformance lists contain a few hundred distinct codepoints of 1114112; the rest of the generated tables is unchecked.",
  ["gen/character.c", "gen/word.c", "gen/sentence.c", "gen/line.c", "gen/util.c", "data"],
  [("table generation, conflicts and defaults", "gen/util.c:properties_generate_break_property"), ("conflict resolution", "gen/line.c:handle_conflict, gen/word.c:handle_conflict")],
  observe=["grapheme_next_*_break", "grapheme_is_character_break"])
p("C13", "Bidi class, bracket and mirror data match Unicode 15.0",
  "Each codepoint from 0 to U+10FFFF takes part in the bidirectional algorithm with its Unicode 15.0.0 Bidi_Class (with the documented defaults for unlisted codepoints), its paired-bracket type and counterpart up to canonical equivalence, and its mirroring glyph. Values above U+10FFFF behave as left-to-right.",
  ["inputs"], "every codepoint value",
  "The bidi conformance tests use one representative per class and a few ASCII brackets; data for nearly all codepoints is unchecked.",
  ["gen/bidirectional.c", "gen/util.c", "data"], [("class, bracket and mirror tables", "gen/bidirectional.c")],
  observe=["grapheme_bidirectional_preprocess_paragraph", "grapheme_bidirectional_get_line_embedding_levels", "grapheme_bidirectional_reorder_line"])
p("C14", "Case mapping of every codepoint matches Unicode 15.0",
  "For each codepoint from 0 to U+10FFFF, converting it alone to upper, lower or title case yields the full Unicode 15.0.0 mapping (UnicodeData and unconditional SpecialCasing, lowercase U+03A3 to U+03C3), and codepoints without a mapping, unassigned or out of range, are returned unchanged by the codepoint functions. Multi-codepoint expansions are complete and in order.",
  ["inputs"], "every codepoint value and each of the three conversions in both encodings",
  "Tests cover fewer than 40 strings, a handful of codepoints out of 1114112.",
  ["gen/case.c", "src/case.c", "data"], [("mapping tables", "gen/case.c"), ("offset and special-case lookup", "src/case.c:to_case")],
  observe=["grapheme_to_uppercase", "grapheme_to_lowercase", "grapheme_to_titlecase"])
p("C15", "Lower/uppercase conversion of a text is per-codepoint plus final sigma",
  "Converting a text to upper or lower case is the concatenation of the mappings of its codepoints, except that lowercasing U+03A3 yields U+03C2 exactly when it is preceded by a cased letter and then any number of case-ignorable characters, and is not followed by any number of case-ignorable characters and then a cased letter. This holds at any distance and for any number of sigmas in the text.",
  ["inputs"], "every codepoint sequence of every length",
  "Tests contain a few short Greek words; contexts with ignorables, repeated sigmas and long runs are not sampled.",
  ["src/case.c"], [("final-sigma level and lookahead", "src/case.c:to_case")],
  [("final_sigma_level", "left context of sigma", "src/case.c")], ["grapheme_to_lowercase", "grapheme_to_uppercase"])
p("C16", "Titlecasing works word by word on the first cased character",
  "Converting a text to title case splits it at its word boundaries; in every word the characters before the first cased one stay as they are, the first cased one gets its titlecase mapping and the rest is lowercased with the final sigma rule applied within the word. Nothing is dropped, duplicated or carried over between words, whatever the words contain.",
  ["inputs"], "every codepoint or byte sequence, words of any length and content",
  "Tests titlecase a few short phrases; words without cased letters, malformed bytes at word ends and special mappings inside words are not sampled.",
  ["src/case.c", "src/util.c"], [("word loop with nested limits", "src/case.c:to_titlecase")],
  [("soft_limit stack", "limits of word and first letter", "src/util.c")], ["grapheme_to_titlecase", "grapheme_to_titlecase_utf8"])
p("C17", "Case detection agrees with case conversion",
  "A text is reported upper, lower or title case exactly when the corresponding conversion leaves its codepoints unchanged, and the reported matching length is the length of the longest leading part of the text whose codepoints the conversion leaves unchanged. The result of an upper- or lowercase conversion is itself reported to be in that case, and converting it again changes nothing.",
  ["inputs"], "every codepoint or byte sequence and the three cases",
  "Detection and conversion are tested on separate small lists and never against each other; the reported length is checked on a few strings.",
  ["src/case.c"], [("comparison with the mapping", "src/case.c:is_case, is_titlecase")],
  observe=["grapheme_is_uppercase", "grapheme_is_lowercase", "grapheme_is_titlecase", "grapheme_to_*case"])
p("C18", "Conversion output buffers: full length, clean truncation, NUL",
  "Every case conversion returns the length of the complete result no matter how small the destination is, including NULL and length 0. A destination of n > 0 units receives the longest prefix of the result that consists of whole characters and fits into n-1 units, followed by a NUL; nothing at or beyond n is ever written.",
  ["inputs"], "every text and every destination length, both encodings, the three conversions",
  "Tests use one large destination and a few hand-picked small ones; truncation inside multi-byte and multi-codepoint expansions is not enumerated.",
  ["src/util.c", "src/case.c"], [("writer truncation", "src/util.c:herodotus_write_codepoint, herodotus_writer_nul_terminate")],
  [("first_unwritable_offset", "where truncation begins", "src/util.h")], ["grapheme_to_*case", "grapheme_to_*case_utf8"])
p("C19", "Bidi paragraphs are split and get their direction per P1-P3",
  "For every codepoint sequence, preprocessing reports the length of the first paragraph including its separator, so that repeated calls tile the text. Unless overridden by the caller, its direction is that of its first strong character outside isolates and before the paragraph separator, defaulting to left-to-right, and is reported identically whether or not a buffer is supplied.",
  ["inputs"], "every codepoint sequence, every override, isolates nested to any depth, several paragraphs",
  "BidiTest strings are single paragraphs of at most a few characters with shallow isolates; multi-paragraph input is untested.",
  ["src/bidirectional.c"], [("first-strong search", "src/bidirectional.c:get_paragraph_level"), ("paragraph split", "src/bidirectional.c:preprocess")],
  observe=["grapheme_bidirectional_preprocess_paragraph"])
p("C20", "Explicit embeddings, overrides, isolates and overflow follow UAX #9",
  "For every paragraph the embedding levels produced by embedding, override and isolate controls follow UAX #9 (Unicode 15.0, rules X1-X10 with BD9, BD13 and the depth limit of 125), for arbitrary nesting, overflow, unmatched and interleaved terminators. Controls removed by X9 are reported with level -1 and never influence other levels except as X1-X8 prescribe.",
  ["inputs"], "every codepoint sequence and paragraph direction, nesting of any depth",
  "BidiTest enumerates class strings of length 4 only and BidiCharacterTest a few deeper ones; long, overflowing and interleaved nestings are hardly covered.",
  ["src/bidirectional.c"], [("directional status stack", "src/bidirectional.c:preprocess_paragraph"), ("isolating run sequences", "src/bidirectional.c:ir_advance")],
  [("directional_status, overflow counters", "X1-X8 state", "src/bidirectional.c:preprocess_paragraph")],
  ["grapheme_bidirectional_get_line_embedding_levels"])
p("C21", "Weak and neutral types and brackets resolve per UAX #9",
  "For every paragraph the resolved level of every character follows UAX #9 rules W1-W7, N0-N2 and I1-I2 applied to each isolating run sequence, for number, separator, terminator and neutral runs of any length. Bracket pairs are identified per BD16 with its stack of 63 and resolved in order of their opening bracket, taking trailing non-spacing marks along.",
  ["inputs"], "every codepoint sequence and paragraph direction, any number and nesting of brackets",
  "Conformance strings are short; more than a few brackets, long runs and combinations over several isolating run sequences are not sampled.",
  ["src/bidirectional.c"], [("W/N rules", "src/bidirectional.c:preprocess_isolating_run_sequence"), ("bracket FIFO", "src/bidirectional.c:preprocess_bracket_pairs")],
  [("fifo", "open and completed bracket pairs", "src/bidirectional.c:preprocess_bracket_pairs")],
  ["grapheme_bidirectional_get_line_embedding_levels"])
p("C22", "Line levels reset separators and trailing whitespace per L1",
  "For every way of cutting a paragraph into lines, the reported level of each character of a line is its resolved level, except that segment and paragraph separators, whitespace and isolate controls before them, and whitespace and isolate controls at the end of the line get the paragraph level. Characters removed by X9 are reported as -1 and do not interrupt such runs.",
  ["inputs"], "every paragraph, every line start and end within it",
  "The conformance tests always use the whole paragraph as one line.",
  ["src/bidirectional.c"], [("rule L1.4", "src/bidirectional.c:get_line_embedding_levels"), ("rules L1.1-3", "src/bidirectional.c:preprocess_paragraph")],
  observe=["grapheme_bidirectional_get_line_embedding_levels"])
p("C23", "Line reordering is the L2 permutation with L4 mirroring",
  "For every line, reordering outputs each character not removed by X9 exactly once, in the visual order obtained by reversing, from the highest level to the lowest odd level, every maximal run at or above that level. A character with a mirroring counterpart is replaced by it when its level is odd and stays itself when its level is even.",
  ["inputs"], "every line of every paragraph and any levels",
  "BidiCharacterTest lines are short and mostly at levels 0 to 2; the tests cut no lines.",
  ["src/bidirectional.c"], [("level reversal and mirroring", "src/bidirectional.c:grapheme_bidirectional_reorder_line")],
  observe=["grapheme_bidirectional_reorder_line"])
p("C24", "Bidi functions stay within the buffers they are given",
  "For every input and every destination length the bidirectional functions read only the given source, line data and line, write only the first destination-length entries, and return the full required count regardless of the destination length. With a too small destination the entries that fit in a level array still carry correct levels, a too small reorder output is filled with U+FFFD, and NULL destinations with length 0 are accepted where documented.",
  ["inputs"], "every input and every destination length from 0 to beyond the needed one",
  "The tests always supply amply sized buffers.",
  ["src/bidirectional.c"], [("buffer length checks", "src/bidirectional.c:preprocess, get_line_embedding_levels, grapheme_bidirectional_reorder_line")],
  observe=["grapheme_bidirectional_*"])
p("C25", "Results depend only on the arguments: no history, no data races",
  "Every public function is a pure function of its arguments (and of the caller-owned break state): the same call gives the same result whatever calls were made before, in whatever order, and from however many threads at the same time, and it never modifies its source. No call has a lasting effect on library state.",
  ["schedules", "histories", "inputs"], "every history and every interleaving of calls from several threads on arbitrary texts",
  "The tests run every function once in a fixed order in one thread.",
  ["src/bidirectional.c", "src/case.c", "src/character.c", "src/line.c", "src/sentence.c", "src/utf8.c", "src/util.c", "src/word.c"],
  [("all state lives in arguments and automatic variables; tables are constant", "src/*.c")], observe=["all public functions"])
p("C26", "Text functions never touch memory outside their arguments",
  "For every input, including malformed bytes, codepoint values above U+10FFFF, empty and NULL inputs, the decoding, segmentation, case and detection functions terminate, read only within the given length (or up to and including the terminating NUL), and write only within the given destination. No input makes them crash or misbehave.",
  ["inputs"], "every byte string, every sequence of 32-bit values, every length",
  "The tests place small valid inputs in ordinary memory where overreads go unnoticed.",
  ["src/util.c", "src/utf8.c", "src/case.c", "src/character.c", "src/word.c", "src/sentence.c", "src/line.c"],
  [("bounded reads and writes", "src/util.c:herodotus_read_codepoint, herodotus_write_codepoint"), ("range checks before table lookups", "src/*.c:get_*_prop")],
  observe=["all public text functions"])
p("C27", "Text arriving in pieces gives the results of the whole text",
  "A program that receives a text in portions of any size can process it as it comes: decoding what has arrived (waiting whenever the decoder asks for more bytes than there are) and testing adjacent codepoints with a kept state finds exactly the character boundaries of the whole text; a next-character-break answer on the bytes so far is final as soon as a complete codepoint stands behind it, and none is withheld any longer; and converting or detecting the complete codepoints of each portion (uppercase; lowercase without U+03A3) yields, put together, the result for the whole, as does titlecasing word by word.",
  ["inputs", "histories"], "every byte string or codepoint sequence, every way of dividing it into portions",
  "The tests hand every text over in one piece; streaming uses decoder, break test, segmentation and conversion together on cut-off input.",
  ["src/utf8.c", "src/character.c", "src/case.c", "src/util.c", "src/word.c"],
  [("incomplete-sequence return value", "src/utf8.c:grapheme_decode_utf8"), ("readers leave a cut-off tail out", "src/util.c:herodotus_read_codepoint"), ("caller-owned break state", "src/character.c:grapheme_is_character_break")],
  observe=["grapheme_decode_utf8", "grapheme_is_character_break", "grapheme_next_character_break(_utf8)", "grapheme_to_*case(_utf8)", "grapheme_is_*case(_utf8)", "grapheme_next_word_break(_utf8)"])
p("C28", "Paragraphs, line breaks, levels and visual order compose",
  "Laying a text out with the library works for every text and every way of filling lines: paragraph preprocessing called on what remains tiles the text; within a paragraph, next-line-break called from the end of the last piece tiles it with the opportunities the whole paragraph has, whatever number of pieces is put on each line; the levels and the visual order asked for each line from the paragraph's data are those UAX #9 prescribes for that line; over all lines every character that UAX #9 does not remove is shown exactly once (mirrored at odd levels), in its own line.",
  ["inputs", "histories"], "every text, every paragraph direction, every choice of line ends among the break opportunities",
  "The tests run every function by itself on whole single-paragraph strings; no test cuts a paragraph into lines or takes the results of one function to the next.",
  ["src/bidirectional.c", "src/line.c", "src/util.c"],
  [("paragraph data carried from preprocessing to the line functions", "src/bidirectional.c:grapheme_bidirectional_preprocess_paragraph, grapheme_bidirectional_get_line_embedding_levels, grapheme_bidirectional_reorder_line"), ("line breaks from any line start", "src/line.c:next_line_break")],
  observe=["grapheme_bidirectional_*", "grapheme_next_line_break(_utf8)"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=True) + "\n")
