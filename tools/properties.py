#!/usr/bin/env python3
"""Writes properties.jsonl."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}})

A = "terminal/ansi/ansi.go"
R = "terminal/runes/"
H = "wordbreak/hyphenator/"
T = H + "internal/trie/rune_trie.go"
L = "linebreak/"
S = "attributes/state.go"

p("C01", "Stripping ANSI sequences loses nothing and always ends",
  "For any text, the stripper ends and yields pieces whose start sequence, text and stop sequence, joined in order, are exactly the input. At each piece, the remainder reported is exactly the part of the input that was not consumed yet, and nothing remains after the last one.",
  ["inputs"], "any slice of runes: complete, cut, nested, repeated, malformed and interleaved sequences, escapes alone, any other text",
  "The tests look at a dozen well-formed inputs; losing a rune depends on how escapes, digits and separators follow each other.",
  [A], [("recursive descent over the sequences", A + ": StripToken"), ("scanner of start and stop sequences", A + ": stripStart, stripEnd")], ["the tokens returned by the stripper"])
p("C02", "All start and stop sequences are found, and only they",
  "Every start or stop control sequence of a text (ESC [ parameters, then m, s, u, h or l) is reported whole, once, in order and with its kind: an m sequence whose first parameter is empty or zero, and u and l sequences, stop; the others start. Nothing that is not such a sequence is reported as one, nor is any left in the text.",
  ["inputs"], "any slice of runes, with any number of parameters and any placement of the sequences",
  "The tests list a few known sequences; the grammar is infinite and its errors lie in the boundaries (three digits, empty parameters, an escape cutting a sequence).",
  [A], [("parser of the sequences", A)], ["the kind and extent of each sequence reported"])
p("C03", "Text utilities never write to the text they are given",
  "Splitting in tokens, punctuation, hyphens or hyphenation points, stripping escape sequences, measuring, reading and writing never change the runes they are given, even past the end of the slice when it is the head of a larger one.",
  ["inputs"], "any input slice, being or not the head of a larger array",
  "The tests compare results, never the inputs after the call, and never pass a slice with spare capacity.",
  [A, R + "fields.go", "wordbreak/punctuator/punctuator.go", H + "hyphenator.go", R + "runesio/writer.go"], [("slicing without copies", A), ("append to sub-slices", A)], ["the input array after the call"])
p("C04", "The width of each rune is the one of the Unicode standard",
  "By default, any rune is measured as Unicode 15.0 tells: no cell for control, combining and zero-width characters and for invalid code points, two cells for wide and fullwidth characters and emojis, one for the others.",
  ["inputs"], "each of the 2^32 values of a rune",
  "The tests sample a few dozens of runes; the tables hold hundreds of ranges, each with two ends.",
  [R + "width.go", R + "lookup.go", R + "runes_tables.go"], [("lookup table built at start", R + "lookup.go"), ("binary search in the tables", R + "width.go"), ("generated tables", R + "runes_tables.go")], ["the width of a rune"])
p("C05", "The width of a text is the sum of the widths of its runes",
  "For any text given as runes or as a string, with any options, the width is the sum of the widths of its runes, hence the width of two joined texts is the sum of theirs, and the empty text has none. Widths are never negative, and strings that are not valid UTF-8 are measured as their decoded runes.",
  ["inputs", "configurations"], "any text, including invalid runes and bytes, in any mode",
  "The tests measure a few literals in the default mode.",
  [R + "width.go"], [("loops over the runes", R + "width.go")], ["the width of slices and strings"])
p("C06", "East-Asian options change the ambiguous characters and no other",
  "In East-Asian mode, a character which the standard tells ambiguous and which takes one cell takes the configured number of cells (2 by default), emojis of neutral width take two cells when asked, and every other character keeps its default width. Out of this mode the other options have no effect; options given to a call never leak into another.",
  ["inputs", "configurations"], "any valid rune, any combination and order of the options",
  "The tests check few characters with single options; nothing checks that the other characters keep their width.",
  [R + "width.go", R + "options.go"], [("East-Asian lookup", R + "width.go"), ("copy of the default options", R + "options.go")], ["the width of a rune with options"])
p("C07", "Fields are the maximal runs of runes between separators",
  "Splitting a text around the runes chosen by any function yields, in order, exactly the maximal runs of the other runes, and no empty one; the tokenizer does so around the white spaces of Unicode. Strings and slices of runes are split alike.",
  ["inputs"], "any text and any function telling the separators",
  "The tests split a few sentences with ASCII spaces.",
  [R + "fields.go", "wordbreak/tokenizer/tokenizer.go"], [("scan for the separators", R + "fields.go"), ("white spaces", "wordbreak/tokenizer/tokenizer.go")], ["the fields returned"])
p("C08", "Punctuation splitting is a partition that isolates each mark",
  "Splitting a word around punctuation yields parts that make exactly the word when joined, none being empty: each punctuation mark but the hyphens, and each pipe, is a part of its own, and the other parts hold none and are maximal. A part is told to be a punctuation mark exactly when it is a single one of them.",
  ["inputs"], "any word made of any runes",
  "The tests split few words with ASCII marks, rarely several marks in a row or at the ends.",
  ["wordbreak/punctuator/punctuator.go"], [("scan for the marks", "wordbreak/punctuator/punctuator.go")], ["the parts returned"])
p("C09", "Splitting on hyphens is a partition that isolates each hyphen",
  "Splitting a word on its hyphens yields parts that make exactly the word when joined, none being empty: each hyphen of Unicode is a part of its own, and the other parts hold none and are maximal. A part is told to be a hyphen exactly when it is a single hyphen.",
  ["inputs"], "any word made of any runes",
  "The tests split few words with an ASCII hyphen in the middle.",
  [H + "hyphenator.go"], [("scan for the hyphens", H + "hyphenator.go: SplitWord")], ["the parts returned"])
p("C10", "Hyphenation loses nothing and respects the minimum lengths",
  "For any word, language and limits, hyphenation yields parts which make exactly the word when joined; no part is empty when there are several, each part before a break has at least the minimum on the left and the last one the minimum on the right. Words with hyphens or shorter than the minimum length are left whole.",
  ["inputs", "configurations"], "any word, with any embedded dictionary and any minima",
  "The tests hyphenate lists of ordinary words with the default limits.",
  [H + "hyphenator.go", H + "options.go"], [("assembly of the parts", H + "hyphenator.go: splitAtPositions"), ("limits", H + "hyphenator.go")], ["the parts returned"])
p("C11", "Words are broken where Liang's algorithm tells, for any dictionary",
  "For any pattern file, a word that is listed as an exception is broken exactly where the exception tells; any other word is broken where the highest of the values that the matching patterns give is odd, patterns being able to be anchored at either end, and as far as the minimum lengths allow. Comment lines and blank lines of the file have no effect.",
  ["inputs", "configurations"], "any word and any set of patterns and exceptions",
  "The tests compare a few words to known results; which patterns overlap, where and with which values is combinatorial.",
  [H + "hyphenator.go", H + "dictionary.go", T], [("loading of pattern files", H + "dictionary.go"), ("merge of the values", H + "hyphenator.go: mergeBreakPoints"), ("trie of the patterns", T)], ["the parts returned"])
p("C12", "The case of the letters does not change where a word is broken",
  "Two words that differ by the case of their letters only are broken at the same places, whether they match patterns or exceptions.",
  ["inputs"], "any word in any mix of cases, with any dictionary",
  "The tests hyphenate words in lower case, or with a capital.",
  [H + "hyphenator.go", H + "dictionary.go"], [("lower case of the words", H + "hyphenator.go: isPattern, isException")], ["the places where words are broken"])
p("C13", "A supported language is hyphenated with its own patterns",
  "A hyphenator asked for a supported language, in any regional variant, uses the patterns of that language; without a language it uses American English. Any other language, even meaningless, yields a hyphenator that works with one of the embedded dictionaries, and the last language given wins.",
  ["configurations"], "any language with any region, given as a string or as a tag; any string",
  "The tests ask for few exact tags.",
  [H + "languages.go", H + "options.go", H + "cache.go"], [("matcher of languages", H + "languages.go: langToPattern"), ("cache of dictionaries", H + "cache.go")], ["the dictionary used"])
p("C14", "The pattern store behaves as a map from words to values",
  "After any sequence of insertions, replacements and removals, looking a key up gives the last value stored for it, or nothing when it was removed or never stored, whatever other keys are prefixes or extensions of it. Insertions tell whether the key was new.",
  ["histories"], "any sequence of operations with any keys, sharing prefixes or not, even empty",
  "The tests apply few fixed sequences; removals interact with shared prefixes.",
  [T], [("pruning of empty branches", T + ": Delete"), ("descent by runes", T + ": Get, Put")], ["the values found"])
p("C15", "The rune reader is a cursor over the runes",
  "Over any sequence of reads and seeks, each read yields the rune under the cursor with its size in bytes and advances by one, or end of file at the end; a seek moves to the offset it is given from the start, the cursor or the end, and one that would leave the text fails and moves nothing. The unread runes are those from the cursor on.",
  ["histories", "inputs"], "any sequence of operations, any offsets, any valid runes",
  "The tests make few moves on an ASCII text; boundaries and failures depend on the history.",
  [R + "runesio/slice_reader.go"], [("cursor", R + "runesio/slice_reader.go: ReadRune, Seek")], ["results of reads and seeks"])
p("C16", "Slices by byte offsets are the slices of the encoded text",
  "For any text of valid runes and any ordered pairs of byte offsets that fall between runes, each slice holds exactly the runes whose encoding lies between the two offsets; offsets in runes give the runes in between. The position of the reader has no effect, and offsets that do not come in pairs are refused.",
  ["inputs"], "any text of runes of 1 to 4 bytes, any pairs of offsets on boundaries",
  "The tests use one text with a single 2-byte rune and three pairs of offsets.",
  [R + "runesio/slice_reader.go"], [("conversion of offsets", R + "runesio/slice_reader.go: SliceFromByteOffsets")], ["the slices returned"])
p("C17", "The rune writer writes the UTF-8 form of the runes",
  "Writing any runes sends to the underlying writer exactly their UTF-8 encoding (the replacement character for invalid ones) in order, and returns the count and the error of the underlying writer. A writer that already takes runes is used as it is.",
  ["inputs", "fault_sequences"], "any runes, valid or not; any failure or short write of the underlying writer",
  "The tests write few valid runes to a buffer that never fails.",
  [R + "runesio/writer.go"], [("encoding", R + "runesio/writer.go: writeRune, writeRunes")], ["bytes received, count and error returned"])
p("C18", "The attribute state iterates over what was pushed, with nesting levels",
  "Iterating over a state yields exactly the renderers pushed, in order, skipping none, and each one carries as its level the number of start sequences opened and not stopped yet when it is rendered. Rendering all of them writes their start sequences, texts and stop sequences in order.",
  ["histories"], "any sequence of renderers with or without start, text and stop",
  "The tests push two fixed lists and check two levels.",
  ["attributes/state.go", "attributes/attribute.go"], [("levels", S + ": Push"), ("iterator", S)], ["items, levels, rendered output"])
p("C19", "Line ends close the open attributes, line starts reopen them",
  "At the end of a line, for any flow of well nested attributes, each attribute still open is closed by the stop that closes it later and nothing that is closed already is closed again; at the start of the next line, exactly the attributes that are still open are started again, the outer ones first. Hence each line on its own is balanced, and the lines together render the same text under the same attributes.",
  ["histories"], "any nesting of attributes, any place for the break",
  "The tests have no assertion about what is written.",
  ["attributes/state.go"], [("closing", S + ": EndOfLine"), ("reopening", S + ": StartOfLine")], ["what is written at the ends and starts of lines"])
p("C20", "Breaking lines keeps the text",
  "For any paragraph that can be set, the lines joined back, with the breaks at spaces put back as a space and the hyphens added at the ends of lines removed, give the tokens in order, separated by single spaces, without a rune lost, added or moved. A hyphen is added only where a word is broken at a hyphenation point, and only if rendering hyphens is enabled.",
  ["inputs", "configurations"], "any tokens, any width, with or without word breaking and hyphens",
  "The tests compare few paragraphs to recorded outputs.",
  [L + "linebreaker.go"], [("model of boxes, glues and penalties", L + "linebreaker.go: boxNodes, leftAlignedNodes"), ("rendering", L + "linebreaker.go: render")], ["the lines returned"])
p("C21", "No line is wider than asked",
  "For any paragraph that can be set, no line returned measures more than the maximum width, including the added hyphen, with the measure configured; escape sequences take no width.",
  ["inputs", "configurations"], "any tokens, any maximum width, any measure of runes",
  "The tests check few paragraphs and widths.",
  [L + "knuth_plass.go", L + "linebreaker.go"], [("feasible breaks", L + "knuth_plass.go: mainLoop, adjustmentRatio")], ["the lines returned"])
p("C22", "Breaking lines is a function of its arguments",
  "Breaking the same paragraph at the same width always gives the same lines, whatever the order in which the runtime iterates over maps and whatever was broken before, with the same line breaker or with another one.",
  ["inputs", "histories", "schedules"], "any paragraph, any order of iteration, any former calls",
  "The order of iteration of maps is chosen by the runtime, and the tests use a line breaker once.",
  [L + "knuth_plass.go", L + "linebreaker.go"], [("choice of the active breaks", L + "knuth_plass.go: insertNewActiveBreak"), ("state kept by the line breaker", L + "linebreaker.go")], ["the lines returned by repeated calls"])
p("C23", "A paragraph is refused only when it cannot be set",
  "A paragraph is refused, with the documented error and no line, exactly when no choice of breaks gives lines which all fit and are not looser than tolerated; otherwise lines are returned without an error. An empty paragraph gives no line and no error.",
  ["inputs", "configurations"], "any tokens, any width and any tolerance",
  "The tests never reach the error; whether a choice exists is a search over all the breaks.",
  [L + "knuth_plass.go"], [("active breaks", L + "knuth_plass.go: breakPoints, mainLoop")], ["the error returned"])
p("C24", "The breaks chosen have the least demerits",
  "Among all the feasible choices of breaks of a paragraph, the one used has the least total demerits, as defined by Knuth and Plass with the parameters configured.",
  ["inputs", "configurations"], "any paragraph, width and parameters",
  "The optimum is over exponentially many choices; the tests record what the code gives.",
  [L + "knuth_plass.go"], [("dynamic programming", L + "knuth_plass.go")], ["the breaks chosen"])
p("C25", "Escape sequences survive line breaking",
  "For tokens with start and stop escape sequences, the lines hold all the sequences of the input, in order around the same text, and each line closes the attributes it leaves open and starts again those that were open. Stripped of escape sequences, the lines are those of the stripped paragraph (sequences inside a word split it for the hyphenator, though).",
  ["inputs"], "any tokens with any balanced sequences, any width",
  "The tests break one coloured paragraph.",
  [L + "linebreaker.go", L + "knuth_plass_types.go", S], [("state of the attributes", L + "knuth_plass_types.go: tokenState"), ("rendering", L + "linebreaker.go: render")], ["the lines returned"])
p("C26", "The utilities can be used concurrently",
  "Hyphenators of any languages can be made and used at the same time by several callers, and so can the stateless functions and word breakers; distinct line breakers, states, readers and writers can be used at the same time too: no data race, and each caller gets the results it would get alone.",
  ["schedules"], "any interleaving of calls by several callers",
  "The tests run few calls at the same time, with the schedule of the day.",
  [H + "cache.go", H + "hyphenator.go", A, R + "lookup.go"], [("lock on the cache of dictionaries", H + "cache.go"), ("immutable tables", R + "lookup.go")], ["accesses to shared memory"])
import sys
with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
