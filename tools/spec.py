#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. Run after editing: python3 tools/spec.py"""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, state=state or [], observe=observe or []))

L = "lib/src/"
PARSER, STR, NUM, OBJ, TUP, EXP, BLK, BODY, ATT, IDE, WS = [L + "parser/" + x + ".rs" for x in
    "string string number object tuple expression block body attribute identifier whitespace".split()]
PARSER = L + "parser.rs"
VAL, LIB, ITER, ERR, UTIL, MAC = [L + x + ".rs" for x in "value lib iter errors utils macros".split()]
LIT = [L + "parser/literals/key.rs", L + "parser/literals/number.rs"]
DE = [L + "serde/de.rs", L + "serde/de/body.rs", L + "serde/de/block.rs", L + "serde/de/expression.rs", L + "serde/de/object.rs"]

prop("C01", "Parsing always ends, in a value or an error",
 "For every text, parsing it as a configuration file, as a single expression, or with the older front-end (with and without merging in the mode that reports errors) returns a value or an error: it never panics, never aborts the process and never runs on. Time does not explode with the nesting of brackets, braces and blocks, balanced or not, up to 200 levels, and documents of a few hundred kilobytes are handled.",
 ["inputs"], "all texts; explored: short words over the characters of strings, heredocs and structure, every Unicode scalar in fixed places, every prefix and every substitution of seed documents, nesting up to 200, sizes up to 200 kB",
 "The tests parse some fifty well-formed fixtures; no test gives the parsers malformed, deeply nested or multi-byte input, and absence of panics and of exponential time is a statement about every input.",
 [PARSER, STR, OBJ, EXP, BLK, VAL, UTIL], ["nom combinators over CompleteStr: " + PARSER, "unescape, unindent_heredoc: " + STR, "take_till_match!: " + UTIL],
 "Exhaustive enumeration of inputs on the real parsers within the stated bounds; a panic, a crash of the process and an execution of more than 30 s are violations. Inputs nested deeper than 200 levels exhaust the stack and are outside the property.")
prop("C02", "A configuration file parses to exactly the document it writes",
 "When a document made of attributes and blocks is written in the dialect, parsing it returns exactly that document: every element once, in the order written, attributes and blocks kept apart, with its name, its labels in order (quoted or bare) and its value or its body, at every level of nesting. Values are null, booleans, numbers, strings, tuples and objects, each returned as written, duplicates included.",
 ["inputs"], "all documents; explored: all shapes of up to 5 elements nested 3 deep, all listed ways to write a value in 7 places, all lists of up to 4 labels, each layout one step from the default, 29 kinds of growth up to 1025 (thorough: 20000) and 7 kinds of nesting up to 150",
 "The tests compare about twenty fixtures; dropping, reordering or misplacing an element can depend on count, depth, neighbours or the way a value is written.",
 [PARSER, BODY, BLK, ATT, EXP, OBJ, TUP], ["body, body_element: " + BODY, "block, one_line_block, block_labels: " + BLK, "expression: " + EXP],
 "Documents are generated as models, written as text and parsed by the real parser, and the result is compared with the model; complete within the bounds. Trusts the writer in harness/src/render.rs, gen.rs, ramp.rs.")
prop("C03", "Exactly the texts of the dialect are accepted as configuration files",
 "A text is accepted as a configuration file exactly when all of it, up to blanks and comments, is a sequence of attributes (name = value) and blocks (type, labels, braces with a line-separated body or at most one attribute on the same line), each ended by a line end, a comment that ends its line, or the end of the text. Nothing unterminated, unbalanced, misplaced or left over is accepted or silently dropped, and nothing well-formed is rejected.",
 ["inputs"], "all texts; explored: all strings of up to 5 of 17 characters and 22 tokens (thorough: 6), and every one-step edit and prefix of seed documents",
 "The tests hold almost no rejected input, so a parser that accepts too much, or drops what it cannot read, passes them.",
 [PARSER, BODY, BLK, ATT, WS], ["config_file (exact!): " + PARSER, "newline, whitespace!: " + WS, "body: " + BODY],
 "Exhaustive comparison of the real parser with an independent recursive-descent recogniser (harness/src/refparse.rs) that was calibrated to full agreement; acceptance and result are both compared.")
prop("C04", "A single expression is parsed completely and exactly",
 "Parsing a text as one expression succeeds exactly when the whole text is one literal (null, boolean, number, string, heredoc), tuple, object or parenthesised expression, and returns its exact structure: tuple elements in order, object entries in order with duplicates kept, identifier keys apart from expression keys, parentheses transparent. When an expression is followed by anything else, the error carries exactly the text that remains.",
 ["inputs"], "all texts; explored: all strings of up to 5 of 18 characters and of 20 tokens (thorough: 6), all expressions of up to 6 nodes, one- and two-step layouts, edits of seeds, growth up to 20000 and nesting up to 150",
 "Tests parse a handful of well-formed expressions; partial consumption and element loss depend on the input.",
 [EXP, OBJ, TUP, NUM, STR], ["Expression::parse: " + EXP, "object, object_separator: " + OBJ, "tuple: " + TUP],
 "Exhaustive comparison with the independent recogniser, including the remaining text of the error.")
prop("C05", "Blanks, comments and line ends never change what is parsed",
 "Replacing the blanks between tokens by any spaces, tabs or inline comments, and, where line ends are insignificant or end an element, by line comments, empty lines or CRLF line ends, never changes what a document parses to. This holds for the configuration parser and for the older front-end, wherever the gap is and however long the filler is.",
 ["inputs"], "all placements of fillers; explored: every choice of 13 to 16 fillers in every gap of 10 documents with up to two departures from the default at once, 5 documents of the older front-end, fillers of up to 20000 characters, LF/CRLF/alternating line ends",
 "Tests use a few comment placements in fixed fixtures; the number of gap and filler combinations is large, and comment contents (quotes, braces, markers) matter.",
 [WS, BODY, BLK, OBJ, TUP, PARSER], ["inline_whitespace, whitespace, newline, comments: " + WS],
 "Deviation-bounded exhaustive exploration of layouts on the real parsers; expected result is the generated model, or the default layout's result.")
prop("C06", "Quoted strings stand for exactly the characters they spell",
 "A quoted string parses to exactly the characters written, with each escape (\\a \\b \\f \\n \\r \\t \\v \\\\ \\\" \\? , octal of 1-3, \\x of 1-2, \\u of 1-4 and \\U of 1-8 digits, greedy) replaced by the one character it denotes; an escape that is unknown, has no digits or denotes no Unicode scalar makes the text rejected. Values may contain raw line breaks, block labels and keys may not.",
 ["inputs"], "all strings; explored: every Unicode scalar raw and escaped in 8 places, every octal escape, every \\x and \\u escape, boundary \\U escapes, every letter after a backslash, all words of up to 5 (thorough: 6) of 18 pieces; lengths up to 20000",
 "Tests cover one example per escape; off-by-one digit counts, surrogates, multi-byte neighbours and empty strings lie outside them.",
 [STR], ["unescape, hex_to_unicode, octal_to_string, legal_string_literal_*: " + STR],
 "Complete over single scalars and over octal, \\x and \\u escapes; bounded words otherwise; reference unescaper in harness/src/refparse.rs.")
prop("C07", "Heredocs keep their text and unindent by their closing line",
 "A heredoc stands for the text between its opening line and the first line that holds only blanks and its marker, without the last line end; everything else, including quotes, comments, backslashes, marker look-alikes, CRLF and non-ASCII text, is kept. With the dash, each line loses as many leading spaces as it has, but at most as many as the closing marker is indented; without the dash nothing is removed.",
 ["inputs"], "all heredocs; explored: all contents of up to 4 lines from 14 kinds of line with 5 indents, both flavours, both line ends, 6 markers, in 4 contexts; lines and counts up to 20000",
 "Tests hold four heredocs; indentation deeper or shallower than the marker, marker prefixes, empty and non-ASCII lines are combinations.",
 [STR, UTIL], ["heredoc_begin, heredoc_end, heredoc_string, unindent_heredoc: " + STR, "take_till_match!: " + UTIL],
 "Exhaustive over the line alphabets, expected text computed from the lines chosen, not by scanning.")
prop("C08", "Numbers keep their text, and convert exactly or not at all",
 "A number literal keeps its exact text, and is classed as float exactly when it has a fraction or an exponent, and as unsigned exactly when it is an integer without minus sign. Converting it to an integer type yields the exact value or an error, never another value, and succeeds for every integer literal in range (for unsigned types, without minus sign); converting to a float yields the nearest float; a number made from a native integer or finite float converts back to that value and reads the same as its text.",
 ["inputs"], "all literals and native values; explored: all strings of up to 6 (thorough: 7) of 9 characters, all 8- and 16-bit integers, the neighbourhood of every power of two and ten and of every type's bounds with signs and leading zeros, every exponent to 400, a grid of doubles and singles",
 "Tests convert a dozen literals; overflow, sign and bounds are where conversions go wrong.",
 [NUM], ["number, exponent, From impls, to_number!: " + NUM],
 "Exhaustive enumeration; expected values computed with wide integers, floats with the standard library's parser.")
prop("C09", "Equal numbers are those of the same value, and hash alike",
 "Two numbers compare equal exactly when they denote the same decimal value, however they are written (signs, leading and trailing zeros, fraction, exponent), negative and positive zero included; equal numbers have equal hashes. Equality therefore is an equivalence relation.",
 ["inputs"], "all pairs of literals; explored: all pairs of literals of up to 4 characters (thorough: 5) plus long forms with up to 400 zeros and numbers made from native values",
 "Tests compare fewer than twenty pairs.",
 [NUM], ["PartialEq, Hash of Number: " + NUM],
 "All pairs, against exact arithmetic on scaled integers.")
prop("C10", "Identifiers are exactly the Unicode identifiers with dashes",
 "A name (attribute, block type, bare label, object key, and key of the older front-end) is accepted exactly when its first character is an underscore or ID_Start and the others are ID_Continue or dashes, and it is returned unchanged; a name is never cut short or extended past its last such character.",
 ["inputs"], "all names; explored: every Unicode scalar in first, middle and last position in 6 contexts, all words of up to 5 (thorough: 6) of 10 characters, lengths up to 20000",
 "Tests list fewer than ten names.",
 [IDE, BLK, ATT, OBJ] + LIT[:1], ["identifier: " + IDE],
 "Complete over single scalars; trusts the Unicode tables of unic-ucd-ident.")
prop("C11", "Documents compose",
 "Joining two accepted configuration files that end their last line parses to the elements of the first followed by those of the second; wrapping an accepted file in a block's braces parses to that block with the file's elements as its body; tuples and objects of accepted values parse to the collections of what the values parse to. This is independent of what the parts are.",
 ["inputs"], "all pairs of documents; explored: all pairs of the accepted words of up to 5 tokens and listed documents, two levels of 8 kinds of wrapping, up to 120 repetitions, all pairs of listed values in 6 collections, grown documents of 29 kinds next to others",
 "No test composes documents; state leaking from one element to the next shows only in particular neighbours.",
 [BODY, BLK, EXP, TUP, OBJ, WS], ["body (many0!): " + BODY, "block: " + BLK],
 "Metamorphic, exhaustive over pairs; needs no reference for the parts.")
prop("C12", "All ways of feeding a text to the parsers agree",
 "Parsing from a string, a byte slice and a reader gives the same result, whatever sizes the reader hands out, wherever multi-byte characters are split, and however often it is interrupted; this holds for the configuration parser and for the older front-end, merged or not. Bytes that are not UTF-8 and readers that fail give the corresponding error (invalid UTF-8 at the right offset, or the I/O error raised), never a partial result.",
 ["inputs", "fault_sequences", "schedules"], "all texts and all read schedules; explored: every schedule of reads of 1, 2, 3 or all bytes with interruptions and failures at every point for 12 short documents, every pair of cuts of longer ones, failures of every kind at every position, all strings of up to 5 (thorough: 6) of 18 bytes in 4 places, sizes up to 16 MB",
 "Tests read whole fixtures from memory without faults.",
 [PARSER, VAL, ERR], ["parse_reader, parse_slice, parse_str: " + PARSER, "from_reader, from_slice, from_str: " + VAL],
 "Controlled fault injection: the reader is the explorer's; all schedules within the bound.")
prop("C13", "Owned copies are equal and independent",
 "Turning anything parsed into its owned form (documents, expressions, numbers, labels, keys, values and maps of the older front-end, merged or not) gives a value that is equal to the original in every observable respect: structure, text, numeric conversions, equality. It remains so after the text it was parsed from is gone.",
 ["inputs"], "all parsed values; explored: all accepted strings of up to 5 tokens for both front-ends, all number literals of up to 5 characters, listed and growing documents",
 "Tests hardly use owned conversion, and a lossy copy of one variant shows only in that variant.",
 [LIB, BLK, BODY, EXP, OBJ, NUM, VAL] + LIT[:1], ["AsOwned impls: " + LIB],
 "Exhaustive enumeration of parsed values; the copy is compared with the original and with a fresh parse after the text was overwritten.")
prop("C14", "The block index finds exactly the blocks that were put in",
 "After any sequence of blocks has been put into the index, in any mix of the ways to do so (constructing, collecting, appending, extending), looking up a type and a list of labels succeeds exactly when some block of that type has labels starting with that list; it gives the bodies of the blocks with exactly those labels in the order put in, and as further labels exactly those that follow. Quoted and bare labels of the same text are the same label.",
 ["histories"], "all sequences of insertions; explored: all sequences of up to 3 blocks over 2 types and 15 label lists, 4 over 7 label lists, 4 (thorough: 5) over 2 types and 3 label lists in every mix of ways to insert; all lookups of up to 4 labels; up to 1000 blocks and 200 labels; iterators of 9 kinds of size hint; all parsed documents of up to 4 blocks",
 "Tests index two fixtures; the structure changes shape when labelled and unlabelled blocks mix, which depends on order.",
 [BLK], ["Blocks::new, append, get; BlockBody::append, body_to_labels, get: " + BLK],
 "Exhaustive operation sequences on the real index against a list of blocks as model.",
 state=[dict(name="Blocks / BlockBody", meaning="tree from type and labels to bodies", where=BLK)])
prop("C15", "The block index counts blocks and labels correctly",
 "After any sequence of blocks has been put into the index, the number of types, the number of blocks (in all and below any list of labels), the set of numbers of labels per type, and whether and to what the number of labels is uniform, are those of the blocks put in.",
 ["histories"], "as for the lookups",
 "Tests check these on two fixtures.",
 [BLK], ["len, len_blocks, label_lens, label_lens_uniform, has_further_labels: " + BLK],
 "Exhaustive operation sequences against a list of blocks as model.")
prop("C16", "Iterating the block index yields every block once",
 "Every way of iterating the block index (shared, mutable, consuming, flat or by type) yields each block put in exactly once, with its type, all its labels in order, and its body, blocks of the same type and labels in the order put in. Changes made through the mutable iterators and lookups are seen by later lookups, and nothing else changes.",
 ["histories"], "as for the lookups, and every position of a mutation",
 "Tests iterate two fixtures.",
 [BLK], ["flat_iter, flat_iter_mut, flat_into_iter, iter, iter_mut, get_mut: " + BLK],
 "Exhaustive operation sequences against a list of blocks as model.")
prop("C17", "Labels and keys compare and hash as their text",
 "Block labels, and keys of the older front-end, are equal exactly when their texts are, whether quoted or bare, and hash as their text, so that hash maps keyed by them find exactly the entries of a text. Object keys hash as their text and equal a text exactly when they are identifiers with that text.",
 ["inputs"], "all pairs of texts; explored: all pairs of words of up to 4 (thorough: 5) of 6 letters and of special texts in every form, every Unicode scalar against its neighbours and other case, all maps of up to 4 (5) such keys with all lookups, lengths up to 1025 (20000)",
 "Tests compare a few keys.",
 [BLK, OBJ] + LIT[:1], ["PartialEq, Hash, Borrow<str> of BlockLabel, Key, ObjectElementIdentifier"],
 "All pairs within the bound.")
prop("C18", "The older front-end accepts its dialect and returns what is written",
 "With merging off, the older front-end accepts a text exactly when all of it is a sequence of entries of its dialect (name or quoted name = value, name { entries }, name \"label\"... { entries }), each ended by a comma, a line end, a comment that ends its line, or the end of the text, and returns the entries in order with their values: integers that fit 64 bits as integers, other numbers as the nearest float, each map as a list of one map, each labelled block under its labels. Duplicates are kept.",
 ["inputs"], "all texts; explored: all strings of up to 5 of 17 characters and 22 tokens (thorough: 6), edits and prefixes of seed documents, documents built from a model, growth and nesting",
 "The tests compare a handful of well-formed fixtures.",
 [PARSER, VAL, WS] + LIT, ["attribute, map_values, single_value, list, body: " + PARSER, "literals::number, literals::key"],
 "Exhaustive comparison with an independent recogniser (harness/src/reflegacy.rs).")
prop("C19", "Merging keeps every entry or reports the conflict",
 "Merging in the mode that reports errors succeeds exactly when, at every level, each name that occurs more than once is only ever a map or only ever a labelled block with pairwise different labels; otherwise the error names the key and the conflicting kinds. When it succeeds every entry is present exactly once: scalars and lists as they were with their contents merged, maps of the same name collected in order, blocks of the same name under their labels; merging again changes nothing, and parsing with merging is parsing followed by merging.",
 ["inputs", "histories"], "all maps; explored: all maps of up to 3 entries from 3 names and 23 kinds of value, of 4 from 2 names and 12 kinds, chains of up to 7 of one name, 4 entries nested up to 3 deep, all texts of up to 4 of 18 elements and 6 of 12 tokens (thorough: one more of each), 10 kinds of growth to 1025 (4097), depth 150",
 "Tests merge three fixtures; conflicts depend on order and kind of pairs.",
 [VAL], ["MapValues::new_merged, merge, as_merged, unmerge; Value::merge; Block::new_merged: " + VAL],
 "Exhaustive against an independent merge of the model in harness/src/props/merging.rs.")
prop("C20", "Key-value containers look up, count and iterate what they hold",
 "Key-value containers, merged or not, and one-or-many values report exactly what they hold: length, emptiness, first entry and all entries of a key in order, keys, values and pairs each exactly once (in order when not merged), before and after being extended. Every iterator reports the exact number of items it still has, at every step.",
 ["histories"], "all contents; explored: all containers of up to 6 (thorough: 8) entries over 3 keys, all extensions by up to 4 (5), all sequences of up to 5 (6) extensions, every step of every iterator; iterators of 9 kinds of size hint; up to 65537 (200000) entries",
 "Tests use a few containers, and never look at an iterator's remaining length.",
 [LIB, ITER], ["KeyValuePairs, OneOrMany: " + LIB, "iterators: " + ITER],
 "Exhaustive operation sequences against a list as model.")
prop("C21", "Accessors, lengths and merge flags tell the truth about a value",
 "For every value of the older front-end, exactly the accessors of its kind succeed and return its content (shared, mutable or owned), all others fail naming the expected and the actual kind and, when owning, give the value back unchanged; it is scalar exactly when it is null, a number, a boolean or a string. Its length counts its direct items and its scalar length the scalars within it, at any depth, and it reports being merged (unmerged) exactly when every map in it, at any depth, is merged (unmerged). Vectors, tables, pairs, one-or-many and key-value containers of values count lengths and report being merged likewise.",
 ["inputs"], "all values; explored: all values of up to 6 (thorough: 7) nodes nested 3 deep with merged and unmerged maps, boundary scalars, constructors, arrays, growth up to 65537 (200000) and depth 150 with one exception in one place",
 "Tests build a few values by hand.",
 [VAL, LIB], ["Value accessors, is_*, len, ScalarLength, Mergeable: " + VAL + ", " + LIB],
 "Exhaustive over values built through the public constructors.")
prop("C22", "Deserialized scalars are the values written",
 "Deserializing an attribute of a configuration text into a Rust scalar yields exactly the value written or an error: integers exactly or an error when out of range or not integers (beyond 64 bits an error for any target is allowed), floats as the nearest double (a single may be rounded from that), booleans, strings (also as owned strings or single characters) exactly, null as unit or absence. A value of another kind is an error, never a default or a truncated value.",
 ["inputs"], "all scalars and targets; explored: each of about 300 values in 12 places against 36 target types, every number word of up to 5 (thorough: 6) characters, integers near every power of two, every Unicode scalar, native values and keys",
 "Tests deserialize about a dozen scalars.",
 DE, ["deserialize_number, deserialize_any and forwards: " + DE[0] + ", " + DE[3]],
 "Exhaustive over the grid of values, places and target types.")
prop("C23", "Deserialized collections hold every entry once, in order, or fail",
 "Deserializing into maps, structs, sequences, tuples, options, newtypes, enums and nestings of them yields every attribute, entry and element exactly once and in the order written; literal object keys are taken by their text, and the lengths announced to visitors are right. A tuple, tuple struct or struct read by position of another length, a name given twice in a body or an object, a missing field and an unknown field of a struct that denies them are errors.",
 ["inputs"], "all collections; explored: all bodies of up to 4 (thorough: 5) elements over 3 names and 6 kinds of value against 25 target types, objects of up to 4 (5) entries over 9 keys, tuples of up to 6 (8) elements against 29 types, nestings of up to 5 (6) nodes, growth up to 1025 (4097)",
 "Tests deserialize a few structs; loss, reordering and overwriting depend on counts and duplicates.",
 DE, ["MapAccess of body and object, deserialize_tuple: " + DE[1] + ", " + DE[4]],
 "Exhaustive against expectations computed from the generated model.")
prop("C24", "Deserialized blocks group by type without loss",
 "Deserializing a body visits its attributes in the order written and each block type once: a type with one unlabelled block deserializes as that block's body or as a sequence of one, a type with several as the sequence of their bodies in the order written, wherever they stand between other elements, at any depth. A type that also names an attribute, and blocks with labels, are errors.",
 ["inputs"], "all bodies; explored: all bodies of up to 5 (thorough: 6) elements, attributes and blocks of 2 types nested 3 deep, against 21 target types, all orders of elements, up to 1025 (4097) blocks, depth 150",
 "Tests deserialize two documents with blocks.",
 DE, ["MapAccess: " + DE[1], "block deserializer: " + DE[2]],
 "Exhaustive against expectations computed from the generated model.")
prop("C25", "Deserializing always ends, and fails when parsing fails",
 "For every text and target type, deserializing returns a value or an error; it never panics, aborts or runs on. A text that is not an accepted configuration file is always an error, whatever the target. A text that is one deserializes into a self-describing target exactly when no body and no object in it repeats a name, none has a name that is both attribute and block type, no block has labels, and all its integers fit 64 bits.",
 ["inputs"], "all texts; explored: all strings of up to 5 (thorough: 6) of 20 tokens and of 11 lines against 26 target types, prefixes, suffixes and edits of seed documents, nesting up to 150",
 "Tests deserialize well-formed text only.",
 DE, ["from_str, Deserializer: " + DE[1]],
 "Exhaustive enumeration of texts; acceptance judged by the independent recogniser.")
prop("C26", "Both front-ends read their common language alike",
 "On texts in the common part of both dialects, the configuration parser and the older front-end agree: they accept the same texts, and find the same names, labels, strings, booleans, nulls, lists, nested maps and bodies in the same order; integers that fit 64 bits and floats have the same values.",
 ["inputs"], "all common documents; explored: all documents of up to 5 (thorough: 7) elements of 9 kinds nested 3 deep, layouts one step (two) from the default, the listed values in 8 places next to each other, and, where independent recognisers say that both accept: all texts of up to 6 (7) of 15 tokens and 7 (8) of 10 lines, numbers of up to 7 (8) and strings of up to 5 (6) pieces, edits, growth and nesting",
 "No test compares the two.",
 [PARSER, BODY, EXP] + LIT, ["single_value / expression, attribute / body_element"],
 "Differential, exhaustive over generated documents; no reference is needed.")
prop("C27", "The command line tool prints the parse or fails cleanly",
 "The parse command reads the named file or standard input, and writes the result of the older front-end (merged unless merging is switched off) to the named file or standard output, complete and unchanged, with exit status 0. When the input cannot be read, is not UTF-8, or does not parse or merge, or the output cannot be written, it reports an error with exit status 1; a named output file is neither created nor changed by an input that fails. A command line that is not an invocation of the tool is an error with status 1 that touches no file.",
 ["inputs", "configurations"], "all inputs and invocations; explored: 182 inputs (valid, invalid, conflicting, not UTF-8, large, nested) x 7 ways to give the input x 8 ways to give the output x merging on or off, all texts of up to 3 (thorough: 4) of 12 lines, every byte prefix of 10 inputs",
 "There is no test of the tool at all.",
 ["cli/src/main.rs", "cli/src/error.rs", VAL], ["run_parse, input_reader, output_writer: cli/src/main.rs"],
 "Every invocation of the grid is run as a process in a scratch directory and compared with the library's result.")
prop("C28", "Scanning for a match finds the first one on character boundaries",
 "The scanning combinator splits its input at the first character boundary where the child parser succeeds, yielding everything before it and the child's output, and fails when there is none; taking characters while a predicate holds takes the longest non-empty prefix and fails when there is none; the safe positions of a string are exactly its character boundaries, and those of bytes exactly its indices.",
 ["inputs"], "all inputs and children; explored: all strings of up to 7 (thorough: 9) of 6 letters including multi-byte ones for 16 children, matches after up to 300 (3000) letters, every Unicode scalar, on strings, complete strings and bytes",
 "Tests check three examples.",
 [UTIL], ["take_till_match!, SafeIndexing: " + UTIL],
 "Exhaustive against a naive search.")
prop("C29", "Results depend on the text alone, not on what was parsed before",
 "Parsing, merging and deserializing are pure: the same text gives the same result, value or error, whatever was parsed before on the same thread, successfully or not, by any entry point, and whichever thread does it. Texts that are equal give equal results.",
 ["histories", "schedules"], "all histories; explored: all sequences of up to 3 calls from a pool of 128 calls over 8 entry points, long histories, texts of up to 16385 bytes written over one another in one buffer, every character after its 23 neighbours, texts that are alike one after the other, each result compared with that of a fresh process",
 "Each test parses in isolation.",
 [PARSER, VAL] + DE[:2], ["absence of shared state"],
 "Exhaustive histories within the bound. The library has no shared state and starts no threads, so that interleavings reduce to histories; the explorer itself runs calls on 8 threads at once.")
prop("C30", "Parse failures become the right kind of error",
 "Converting a low-level parse failure to the library's error keeps its meaning: the custom failure codes for code points, Unicode and numbers give the error of that kind with the text or bytes at which it arose, whether the failure is a single one or the last of a list; all others, unknown codes included, give the generic parse error, and conversions of errors within the low-level type keep the failure's severity, position and number of entries. Every error can be displayed.",
 ["inputs"], "all failures; explored: all failures of each severity, single or lists of up to 4 (thorough: 5) entries of 10 kinds at 7 texts (valid and invalid UTF-8), every custom code up to 2000 (100000), lists of up to 1000 entries, for every conversion",
 "Tests never convert an error except to print it.",
 [ERR, MAC], ["from_err, from_context, convert_context, from_input_and_code: " + ERR, "map_err!, map_err_str!: " + MAC],
 "Exhaustive against a table.")
prop("C31", "Each parser of a single construct takes exactly one off the front",
 "Every public parser of a single construct (comments, blanks, line ends, identifiers, null, booleans, numbers, quoted strings, heredocs and their markers, tuples, objects and their parts, parenthesised and other expressions, attributes, labels, blocks, body elements and bodies), applied to any text, succeeds exactly when the text starts with that construct, takes exactly the construct (as much as belongs to it), returns its value and leaves exactly the rest; a malformed escape within the construct makes it fail.",
 ["inputs"], "all texts; explored: 38 parsers on all words of up to 5 (thorough: 6) of 17 characters, 4 (5) of 22 tokens, 6 (7) of small alphabets of blanks, heredocs, numbers, strings and lines, about 250 texts cut at every character before 43 tails and after 5 blanks, every Unicode scalar in 8 places, 29 kinds of growth",
 "Tests apply these parsers to whole well-formed constructs; what is left over, and what is refused, is hardly looked at.",
 [WS, IDE, NUM, STR, TUP, OBJ, EXP, ATT, BLK, BODY], ["every pub named! parser"],
 "Exhaustive comparison with the functions of the independent recogniser, on success, bytes taken and value.")
prop("C32", "Documents built in code say what they were built from",
 "A document, block, label, attribute, tuple, object, key or expression that is built in code, through any of the public constructors, conversions and collectors (texts, owned texts, booleans, integers, floats, units, vectors, iterators, pairs), holds exactly what it was built from, in the order given: every accessor, iterator, index, length and kind test reads it back, and it equals what parsing the text of that document gives.",
 ["inputs"], "all documents and values; explored: all documents of up to 4 elements and all expressions of up to 5 nodes in 12 mixes of constructors, 190 listed documents, 29 kinds of growth, iterators of 9 kinds of size hint, all key texts of up to 5 of 15 pieces, integers of 10 types near every power of two, floats on a grid",
 "Tests build a few literals; the constructors, collectors and accessors are many and their combinations are hardly used.",
 [EXP, OBJ, TUP, BLK, BODY, NUM], ["From and FromIterator implementations: " + EXP, "ObjectElementIdentifier::as_str: " + OBJ, "Block::new, accessors: " + BLK],
 "Exhaustive over models and mixes of constructors; the oracle is the model the node was built from.")
prop("C33", "Documents and values are equal exactly when they say the same",
 "Two documents, expressions, labels, keys or values are equal exactly when they say the same: same elements in the same order with equal names, labels and contents; same kind and content of value, where the numbers of expressions are compared by their value (those of the older front-end by kind and value), and quoted and bare labels by their text. It makes no difference whether they were parsed or built, which of the two comes first, or where in a larger document they are; and a difference of one element, one label, one character or one digit anywhere, however deep or late, makes them unequal.",
 ["inputs"], "all pairs; explored: all pairs of the documents of up to 3 elements, of 160 expressions in 7 places, of 278 blocks and of 229 values of the older front-end, and each single change of listed and grown documents",
 "Tests use equality to check the parser, so an equality that says yes too often goes unseen and even hides other defects.",
 [EXP, OBJ, TUP, BLK, BODY, NUM, VAL], ["PartialEq implementations: " + EXP, "BlockLabel: " + BLK, "Number: " + NUM],
 "Exhaustive over pairs; the oracle is equality of canonical models.")
prop("C34", "The error of a failed deserialization names its cause",
 "When deserializing fails, the error says why: a text that does not parse gives a parse error, whatever the type, and no other text does; a name that is twice in a body or block, or a key that is twice in an object, however written and however far apart, gives the duplicate error of a body or of an object with that name; a tuple of another length than the type gives both lengths; an integer beyond 64 bits gives an integer error; a value of a wrong kind, out of range, a missing and an unknown field give a message that names what was found and what was expected. A document without any fault for the type is not an error.",
 ["inputs"], "all documents and types; explored: all bodies of up to 4 faulty elements nested 2 deep, repetitions at every distance up to 130, tuples of up to 70 elements as 12 types, 460 integers as 8 types, 25 values as 18 types, all lists of up to 5 fields as 2 structs, all words of up to 5 of 19 tokens and every cut of about 130 texts as 5 types",
 "Three tests look at an error of deserializing, each at one; which error is given depends on where the fault is and what surrounds it.",
 DE, ["next_key_seed: " + DE[1], "ObjectMapAccess: " + DE[4], "deserialize_tuple, deserialize_number, Error, Compat: " + DE[0]],
 "Exhaustive over documents with faults; the oracle is the set of faults of the model, and serde's own value deserializers for the wording of kinds.")

NA = {}

def main():
    have = set(subprocess.run([ROOT + "/target/release/fcmc", "list"], capture_output=True, text=True).stdout.split())
    with open(ROOT + "/properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            mech = []
            for m in p["mech"]:
                name, _, where = m.partition(": ")
                mech.append(dict(name=name, where=where or ", ".join(p["files"])))
            d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                     why_tests_cant=p["why"], anchors=dict(files=list(dict.fromkeys(p["files"])), state=p["state"], mechanism=mech,
                     observe_at=p["observe"] or ["public API"], hook_needed=None))
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in have:
            checks.append(dict(property=p["id"], quick_cmd="./run.sh %s quick" % p["id"], thorough_cmd="./run.sh %s thorough" % p["id"],
                evidence_file="evidence/%s.json" % p["id"], technique="explicit-state bounded model checking: exhaustive enumeration of choice sequences driving the real code, compared with a reference model",
                level="model_checking", level_note=p["note"]))
        else:
            na.append(dict(property=p["id"], reason=NA.get(p["id"], "the check is still under construction")))
    m = dict(version=1, setup_cmd="./run.sh setup", checks=checks, not_applicable=na,
             notes="No hooks: every check goes through the public API (or the built command line tool). Fixes of genuine defects are listed in KNOWN_FINDINGS.txt.")
    json.dump(m, open(ROOT + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
    open(ROOT + "/MANIFEST.json", "a").write("\n")
    print(len(checks), "checks,", len(na), "not claimed")

main()
