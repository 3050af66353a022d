#!/usr/bin/env python3
"""Source of properties.jsonl (one python dict per property, written as JSON lines)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "A built trie answers every query exactly like the map it was built from",
  "For every strictly ascending list of non-empty, NUL-free byte keys with optional values in [0,2^31), the built double array finds exactly the stored keys with their values (the key's position when no values are given) on exact match, and reports exactly the stored prefixes of a query from a given offset, shortest first, through common-prefix search (result-limited list and iterator). Walking a key in any number of pieces, resuming each time from the returned node, gives the same answer as walking it in one go. All of this is unchanged after the array is saved and reopened from memory or by mapping a file.",
  ["inputs", "histories"],
  "all key sets over small alphabets up to a bounded number/length of keys, all value assignments that create or break suffix sharing, large families that cross block and offset-width boundaries; all queries, offsets, limits and resumption points over them",
  "da_test.go builds one five-key trie without branching and queries one string; correctness depends on how arbitrary key sets collide in the minimised graph and in the unit array.",
  ["dartsclone/da.go", "dartsclone/dabuilder.go", "dartsclone/dawgbuilder.go", "dartsclone/bitvector.go", "internal/mmap/mmap.go"],
  [("suffix sharing through a hash of finished nodes", "dartsclone/dawgbuilder.go: flush/findNode/areEqual"),
   ("placement of children in the unit array, block fixing", "dartsclone/dabuilder.go: findValidOffset/reserveId/expandUnits/fixBlock"),
   ("search loops", "dartsclone/da.go: ExactMatchSearch/CommonPrefixSearch/Iterator/Traverse")],
  state=[("array", "unit array of label/offset/leaf bits", "dartsclone/da.go: DoubleArray")],
  observe=["DoubleArray.Build/ExactMatchSearch/CommonPrefixSearch/CommonPrefixSearchItr/Traverse/Save/Open"])

p("C02", "Trie construction rejects invalid key lists with an error",
  "Building a trie from a key list that is out of byte order, contains a NUL byte in a key, a value that is negative or does not fit in 31 bits, or an empty key with a value returns an error; it never panics and never yields a trie. An exact repeat of a key is either rejected or leaves the first value in place without disturbing any other key. After a failed build the same object can be built again from a valid list.",
  ["inputs", "histories"],
  "every sequence (with repetition, any order) of up to four keys over a small alphabet that includes NUL and the empty key, with every assignment from a set of boundary values",
  "the tests only build one valid trie; invalid lists reach different detection code depending on where in the already built structure the violation falls.",
  ["dartsclone/dawgbuilder.go", "dartsclone/dabuilder.go", "dartsclone/da.go"],
  [("order/NUL/value validation on insertion", "dartsclone/dawgbuilder.go: insert"),
   ("validation for value-less key sets", "dartsclone/dabuilder.go: arrangeFromKeySet")],
  observe=["DoubleArray.Build"])

p("C03", "Compiling a lexicon and loading the dictionary back loses nothing",
  "For every valid lexicon source and connection matrix, the binary dictionary produced and then loaded returns, for each row, the surface, head length, part of speech, normalised form, reading, dictionary form, A/B splits, word structure, connection ids and cost of that row, and every connection cost of the matrix. Looking up any text at any offset yields exactly the rows whose indexed headword is a prefix there, each once; rows with left id -1 are never found by lookup but remain reachable as split or dictionary-form targets. The header returns the version kind, creation time and description that were given.",
  ["inputs", "programs"],
  "all field-value combinations from boundary alphabets (empty / equal / different forms, string lengths around the 1/2-byte length encoding switch, surrogate pairs, numeric extremes, 0..127 references), all small multi-row lexicons with shared headwords, and all small matrices with values spanning int16",
  "no test compiles or loads a dictionary at all; layout, padding, length encodings and defaulting of forms only meet on a full round trip.",
  ["dictionary/dicbuilder.go", "dictionary/dalexicon.go", "dictionary/grammar.go", "dictionary/lexiconset.go", "dictionary/bytes.go", "dictionary/dicheader.go", "dictionary/binarydict.go", "dartsclone/da.go"],
  [("binary writer", "dictionary/dicbuilder.go: WriteGrammar/WriteLexicon/WriteWordInfos"),
   ("binary reader", "dictionary/dalexicon.go, dictionary/grammar.go, dictionary/bytes.go")],
  observe=["DictionaryBuilder -> ReadSystemDictionary -> DoubleArrayLexicon/LexiconSet/Grammar/DictionaryHeader"])

p("C04", "A malformed dictionary source is reported as an error, never miscompiled",
  "Every lexicon or matrix source either compiles to a dictionary that loads back to what the source says, or is rejected with an error. Missing columns, empty headwords, numbers that do not parse or fit, oversized strings, references to unknown words, too many splits, homographs, part-of-speech entries or words, and matrix entries outside the declared size are rejected. No source makes the compiler, or a reader of what it produced, panic or loop forever.",
  ["inputs"],
  "every single and every pair of field corruptions of valid rows from a fixed menu, all dictionary-form reference graphs over a few rows, and every limit tested at limit-1, limit and limit+1",
  "no test feeds the compiler; silent truncation only shows when the produced bytes are loaded and compared.",
  ["dictionary/dicbuilder.go", "dictionary/dalexicon.go"],
  [("row validation", "dictionary/dicbuilder.go: BuildLexicon/parseLine, ConvertMatrix/WriteGrammar"),
   ("split parsing and lookup", "dictionary/dicbuilder.go: parseSplitInfo/checkSplitInfoFormat/wordToId"),
   ("dictionary-form resolution", "dictionary/dalexicon.go: GetWordInfo")],
  observe=["DictionaryBuilder errors; loaded word infos"])

p("C05", "User dictionaries layer over the system dictionary without mixing identities",
  "With any list of up to fifteen user dictionaries, lookup returns the words of the system dictionary and of every user dictionary, each tagged with its own dictionary number and word number, and all attributes, connection ids and costs are those of its own dictionary. Part-of-speech entries known to the system keep their identity and those added by a user dictionary read back as the strings written in that dictionary's source, whichever others are loaded before or after it. Split references resolve to system words or, when prefixed with U, to words of the same user dictionary, and loading a sixteenth user dictionary is refused. Looking a word up by headword, part of speech and reading finds it whichever dictionary it and its part of speech come from, user dictionaries first.",
  ["configurations", "inputs"],
  "all ordered selections from a family of small user dictionaries (own POS, shared POS, U- and system references by number and by headword,POS,reading) on top of a system dictionary, plus 0..16 user dictionaries",
  "no test loads a user dictionary; identity errors need two or more dictionaries with interleaved POS ids and references.",
  ["dictionary.go", "dictionary/lexiconset.go", "dictionary/grammar.go", "dictionary/dicbuilder.go", "dictionary/dalexicon.go"],
  [("dictionary id in the top four bits of the word id", "dictionary/lexiconset.go"),
   ("POS offset remapping", "dictionary/lexiconset.go: GetWordInfo; dictionary/grammar.go: AddPosList"),
   ("user POS and word references at compile time", "dictionary/dicbuilder.go: UserDictionary builder parts")],
  observe=["LexiconSet, Grammar, MorphemeList"])

p("C06", "UTF-8 and UTF-16 dictionaries are interchangeable; conversion is lossless",
  "The same source compiled with either string encoding loads to the same grammar, words, costs and lookup results, and gives the same tokenization of any text. Converting a dictionary, with or without a grammar, from either encoding to the other preserves all of its content and header fields, and converting there and back reproduces the original file byte for byte. A string that cannot be represented in the target encoding, or that is too long for it, makes the conversion fail rather than be altered. The input file is never changed, and an input that cannot be read leaves an existing output alone. (Dictionaries are those that the compilers make.)",
  ["inputs", "configurations"],
  "all string contents from an alphabet of 1- to 4-byte characters at lengths around the length-encoding limits, every field position, both encodings and both conversion directions, system and user dictionaries",
  "no test reads or writes a dictionary; the two encodings have separate length units and separate readers and writers.",
  ["dicconv/main.go", "dictionary/bytes.go", "dictionary/dicbuilder.go", "dictionary/grammar.go", "dictionary/dalexicon.go"],
  [("string codecs", "dictionary/bytes.go; dictionary/dicbuilder.go: writeString/writeStringUtf16"),
   ("converter", "dicconv/main.go")],
  observe=["loaded dictionaries, converted file bytes"])

p("C07", "Morphemes tile the original text exactly",
  "For every text, split mode and plugin set, the morphemes are contiguous: the first begins at 0, each begins where the previous one ended, the last ends at the number of characters of the text, and the concatenation of surfaces is the original text. Offsets count characters of the text as the caller passed it, however the text was normalised internally. The empty text yields no morphemes.",
  ["inputs", "configurations"],
  "all texts up to a bounded length over an alphabet that triggers every normalisation, joining and OOV rule, in modes A, B and C, under several dictionaries and plugin sets",
  "no test tokenizes; offset bugs need a particular mix of length-changing normalisation and node boundaries.",
  ["tokenizer.go", "lattice.go", "inputtext.go", "morpheme.go", "definputtextplugin.go", "prolongedsoundmarkinputtextplugin.go", "joinnumericplugin.go", "joinkatakanaoovplugin.go"],
  [("offset table from normalised bytes to original characters", "inputtext.go: Replace/Build/GetOriginalIndex"),
   ("surface from offsets", "morpheme.go: GetSurface")],
  observe=["MorphemeList.GetBegin/GetEnd/GetSurface"])

p("C08", "The chosen path is a minimum-cost path and never uses an inhibited connection",
  "Among all sequences of candidate words covering the text, the tokenizer returns (before joining and splitting) one whose sum of word costs and connection costs, including the sentence boundaries, is minimal. A connection marked as inhibited is never used, and tokenization fails exactly when no allowed sequence exists or a position that a sequence of words reaches has no candidate word at all. Costs are summed without overflow or wrap-around for any text length.",
  ["inputs"],
  "all small lattices: texts up to a bounded length, all subsets of candidate words, word costs and connection matrices over {inhibited, extreme negative, negative, 0, positive, extreme positive}; long texts at extreme costs",
  "tests have no dictionary; optimality quantifies over exponentially many paths and all cost tables.",
  ["lattice.go", "tokenizer.go", "dictionary/grammar.go"],
  [("Viterbi step", "lattice.go: connectNode"), ("backtrace", "lattice.go: GetBestPath"),
   ("connection cost lookup", "dictionary/grammar.go: GetConnectCost")],
  observe=["JapaneseTokenizer.Tokenize, Lattice.Insert/GetBestPath"])

p("C09", "Tokenization is total under the shipped plugin configuration",
  "With the shipped plugin settings and character definition, tokenizing any string whatsoever, in any mode, returns a result without error or panic. This includes texts without any dictionary word, text of arbitrary byte content, control characters, lone combining and rare characters, and very long runs of one character.",
  ["inputs"],
  "all strings up to a bounded length over one representative of every character class of the definition file plus every single BMP/SMP code point, invalid byte sequences, and long runs around 16-bit limits",
  "no test tokenizes; a gap in OOV coverage shows only for particular class sequences.",
  ["tokenizer.go", "mecaboovproviderplugin.go", "simpleoovproviderplugin.go", "inputtext.go", "definputtextplugin.go", "lattice.go"],
  [("OOV fallback", "tokenizer.go: buildLattice"), ("candidates per class", "mecaboovproviderplugin.go: ProvideOOV")],
  observe=["JapaneseTokenizer.Tokenize"])

p("C10", "A/B/C modes differ only by splitting each C-unit as its entry says",
  "Tokenizing in mode A or B gives exactly the mode-C result with every word that has two or more units for that mode replaced by those units, in order, covering the same range; words without a split are unchanged. Splitting a morpheme of a result on demand gives the same pieces as tokenizing in that mode. Any other mode on split returns the morpheme itself.",
  ["inputs"],
  "all texts up to a bounded length over dictionaries whose entries have 0, 1, 2, 3 units and A/B splits that differ, combined with text that normalises, in every mode and every per-morpheme split",
  "no test tokenizes or splits.",
  ["tokenizer.go", "morpheme.go"],
  [("path splitting", "tokenizer.go: splitPath"), ("on-demand splitting", "morpheme.go: Split")],
  observe=["Tokenize in the three modes; Morpheme.Split"])

p("C11", "A tokenizer's answer does not depend on what it tokenized before",
  "A tokenizer that has processed any sequence of texts, in any modes, including texts whose tokenization failed, returns for the next text exactly what a fresh tokenizer returns. Results handed out earlier are not changed by later calls. Turning the dump output on or off, and reading a result repeatedly, does not change it.",
  ["histories"],
  "every sequence up to a bounded depth of tokenize calls over a menu of short, long, empty, failing and normalised texts and modes, comparing with a fresh tokenizer after each step and re-reading all earlier results",
  "the tests never call a tokenizer twice; the lattice is reused between calls and holds state across them.",
  ["tokenizer.go", "lattice.go", "morpheme.go"],
  [("lattice reuse", "lattice.go: resize/clear"), ("shared plugins", "joinnumericplugin.go: parser")],
  state=[("lattice", "node lists kept between calls", "tokenizer.go: JapaneseTokenizer.lattice")],
  observe=["successive JapaneseTokenizer.Tokenize results"])

p("C12", "Tokenizers made from one dictionary can run concurrently",
  "Several tokenizers created from the same loaded dictionary, each used by its own goroutine, return under every interleaving the same results as when run one after another. No shared data is written while they run.",
  ["schedules"],
  "every interleaving of two tokenizer calls with one switch at any statement, of two and three calls with two and more switches at the first and last passages of each statement, on long-lived and freshly made tokenizers and dictionaries, over text pairs that exercise each plugin; the shared data hashed before every statement; plus a free-running race-detector pass",
  "there is no concurrent test; plugins and dictionaries are shared objects and only particular preemption points expose shared mutable state.",
  ["dictionary.go", "tokenizer.go", "joinnumericplugin.go", "numericparser.go", "prolongedsoundmarkinputtextplugin.go", "definputtextplugin.go", "mecaboovproviderplugin.go", "dictionary/lexiconset.go", "dictionary/dalexicon.go"],
  [("plugins and dictionary shared by Create", "dictionary.go: Create")],
  state=[("plugin fields", "anything a plugin stores during Rewrite/ProvideOOV", "*plugin.go")],
  observe=["results of concurrent Tokenize calls"],
  hook="yield points are inserted into a copy of the sources by an overlay at check time; none in /repo")

p("C13", "Input normalisation applies exactly the documented rewrite rules",
  "The default input rewriting replaces, left to right, the longest entry of the rewrite table, never NFKC-normalises characters listed as exempt (or whose lower case is listed), which are lower-cased only, and lower-cases and NFKC-normalises the other characters; the prolonged-sound-mark rewriting replaces each run of two or more marks by the replacement symbol, which may have any length. Every other character is passed through, and each character of the normalised text maps to the start of the original characters it came from.",
  ["inputs", "configurations"],
  "all texts up to a bounded length over an alphabet with table keys that are prefixes of each other, exempt characters, full-width and compatibility characters, upper case and marks; small families of rewrite tables including malformed ones; every code point on its own",
  "no test runs the plugins; longest-match and offset effects need particular adjacent replacements.",
  ["definputtextplugin.go", "prolongedsoundmarkinputtextplugin.go", "inputtext.go"],
  [("longest-match replacement", "definputtextplugin.go: Rewrite/SetUp"), ("mark runs", "prolongedsoundmarkinputtextplugin.go: Rewrite")],
  observe=["InputText.GetText/GetOriginalIndex after the plugin"])

p("C14", "Any replacement sequence keeps text and offsets aligned with the original",
  "After any sequence of in-range replacements on the editable input text, its content equals that of a plain string edited the same way, and every character of the result maps to the original position of the first character of the range it replaced (or its own original position when untouched), with the end mapping to the end. The offsets never decrease, and the byte, character and category views of the finished text agree with each other for every index.",
  ["histories", "inputs"],
  "breadth-first search over all replacement sequences (all begin/end pairs, replacement lengths 0..3) up to a bounded depth from all short texts, with every index of every view compared in every distinct state",
  "no test edits the text; the arithmetic depends on growth, shrinkage and overlap of successive replacements.",
  ["inputtext.go"],
  [("in-place editing of runes and offsets", "inputtext.go: Replace"), ("derived views", "inputtext.go: Build")],
  observe=["InputTextBuilder.GetText, InputText accessors"])

p("C15", "Unknown-word candidates follow the character definition exactly",
  "At a position, the unknown-word provider proposes for each character class there exactly the candidates its definition prescribes: none if words exist and the class is not always invoked, the whole same-class run if grouping is on, and the prefixes of 1..n characters for its length limit, each with every part of speech, connection id and cost listed for the class. Runs are read from left to right: a run is the longest sequence of characters that all have a class in common, and no candidate extends past the end of the run it starts in. Definition files that are malformed are rejected. The last provider is the fallback: when nothing else was found at a position it is asked as if nothing had been found there before; the simple provider proposes its one candidate only when nothing else exists.",
  ["inputs", "configurations"],
  "all texts up to a bounded length over characters with zero, one or two classes, all settings of invoke/group/length for the classes, all start offsets, with and without dictionary words; malformed definition files from a fixed menu",
  "no test loads definitions; interactions of invoke, group and length with overlapping classes are combinatorial.",
  ["mecaboovproviderplugin.go", "simpleoovproviderplugin.go", "inputtext.go", "plugin.go"],
  [("candidate enumeration", "mecaboovproviderplugin.go: ProvideOOV"), ("run length", "inputtext.go: getCharCategoryContinuousLength")],
  observe=["GetOOV node lists"])

p("C16", "Every code point gets the classes that the definition file assigns to it",
  "After loading a character definition, each code point has the union of the classes of all ranges that cover it, and the default class if no range does. Ranges may be given in any order, overlap, and use single points or pairs with any number of hexadecimal digits. Invalid lines are rejected.",
  ["inputs", "configurations"],
  "all sets of up to four ranges over a small window of points with all class subsets, every code point 0..0x10FFFF of the shipped file, and a menu of malformed lines",
  "no test reads a definition; the compiled boundary list depends on how all ranges overlap.",
  ["dictionary/charcategory.go", "data/char.def"],
  [("range compilation and search", "dictionary/charcategory.go")],
  observe=["CharacterCategory.GetCategoryTypes"])

p("C17", "Joined numerals are normalised to their true value",
  "A run of numeral characters is joined into one word when it forms a valid number (digits, kanji digits and units, well-placed commas, one decimal point), and then its normalised form is the exact decimal value of the notation, of any magnitude. A run that is not a valid number is left as separate words or joined only in its valid parts, and its normalised forms are not altered; a comma or a point that does not belong to a number does not keep the number before or after it from being joined. With normalisation off, joining happens without changing normalised forms.",
  ["inputs", "configurations"],
  "all strings up to a bounded length over 0-9-like digits, kanji digits, 十 百 千 万 億, comma and point, inside and outside of other text, with normalisation on and off, against an exact big-decimal reference",
  "no test touches numerals; value errors need particular combinations of units, points and trailing zeros.",
  ["numericparser.go", "joinnumericplugin.go", "plugin.go"],
  [("numeral state machine", "numericparser.go"), ("run detection and joining", "joinnumericplugin.go: Rewrite/concat")],
  observe=["Morpheme surfaces, normalised forms, part of speech"])

p("C18", "Katakana unknown words are joined maximally and nothing else is touched",
  "After katakana joining, each maximal run of katakana words containing an unknown or too-short word has been merged into one word covering the same range with the configured part of speech (or, when the dictionaries already offer words for exactly that range, the cheapest of them), not starting with a character that cannot begin a word. All other words are unchanged and the path still covers the text.",
  ["inputs", "configurations"],
  "all paths up to a bounded length over known/unknown, short/long, katakana/other words, including words starting with a no-beginning character, for every minimum length 0..3",
  "no test runs the plugin; run extension to both sides and index movement after replacement are combinatorial.",
  ["joinkatakanaoovplugin.go", "plugin.go", "lattice.go"],
  [("run detection", "joinkatakanaoovplugin.go: Rewrite"), ("node replacement", "plugin.go: ConcatenateOov/replaceNode")],
  observe=["path after Rewrite; Tokenize results"])

p("C19", "Settings resolve the way the documentation says",
  "Loading a settings file resolves the system, character-definition and user dictionary paths, and the definition files of the plugins, against the configured path (or the given base directory) unless absolute, lets a later settings file override an earlier one field by field, and instantiates exactly the listed plugins, in order, each with its own options. Unknown plugins, malformed JSON and invalid option values, such as parts of speech that the dictionary lacks and connection ids outside its matrix, are reported as errors at start-up. Each plugin option takes effect. The command without a settings file uses the settings that are built in, overridden in the same way by the settings given as an option.",
  ["configurations"],
  "all presence/absence combinations of the fields across one and two settings layers, absolute/relative/empty paths, all plugin lists up to length three over the plugin kinds with class/name given in each way, and a menu of invalid values",
  "settingsjson_test.go parses one file; path and override rules only differ for combinations it does not contain.",
  ["settingsjson.go", "dictionary.go", "plugin.go", "gosudachicli/main.go", "inhibitconnectioncostplugin.go"],
  [("JSON decoding, overriding and plugin creation", "settingsjson.go")],
  observe=["BaseConfig, plugin lists, constructed dictionary behaviour"])

p("C20", "Lines are read identically however the input arrives in pieces",
  "The tokenizer command and the definition, lexicon and matrix readers produce the same lines for the same bytes regardless of how reads are chunked, of line length relative to buffers, and of a missing final newline. The command treats CR, LF and CRLF as line ends, and prints exactly one result block per input line.",
  ["inputs", "schedules"],
  "every split of short byte strings over {CR, LF, multi-byte character pieces, letters} into reads, and line lengths around every buffer size, with all placements of a read boundary or an empty read near the terminator",
  "no test reads input; bugs appear only when a read boundary falls between two particular bytes.",
  ["gosudachicli/main.go", "internal/lnreader/lnreader.go", "dictionary/dicbuilder.go", "dictionary/charcategory.go"],
  [("line ending normaliser", "gosudachicli/main.go"), ("line number reader", "internal/lnreader")],
  observe=["CLI output, parsed tables"])

p("C21", "An I/O failure while building or converting a dictionary is reported",
  "If any read, write or seek fails or is cut short at any point while a dictionary is compiled, the compiler returns an error; it never reports success for an incomplete dictionary and never panics. The same holds for reading definition files, for converting and listing a dictionary and for the commands, which exit with an error status when an input cannot be read or their output cannot be written. A truncated input dictionary is refused with an error rather than a crash. What a failing or interrupted build or conversion leaves in its output is never taken for a dictionary when it is opened.",
  ["fault_sequences"],
  "for each build, conversion and listing of a small dictionary and each run of a command, every I/O operation in turn failing (error, short count, once or for good), for the output and each input, in both string encodings, for system and user dictionaries; every truncation length of a dictionary, and what is left when a build stops after any part of its output",
  "no test injects faults; each unchecked result is a different operation of the sequence.",
  ["dictionary/dicbuilder.go", "dictionary/dicheader.go", "dictionary/binarydict.go", "dictionary/dalexicon.go", "dictionary/dicprinter.go", "dictionary/charcategory.go", "dicconv/main.go", "dicbuilder/main.go", "userdicbuilder/main.go", "printdic/main.go", "gosudachicli/main.go"],
  [("error propagation", "dictionary/dicbuilder.go; dictionary/dalexicon.go: WriteWordInfos; dictionary/dicprinter.go; gosudachicli/main.go")],
  observe=["returned errors, exit status"])

p("C22", "Printed dictionaries and CLI output show what is stored",
  "Printing a dictionary yields one row per word with its written form, ids, cost, part of speech, reading, normalised form, dictionary-form reference and splits, with commas, line ends and escapes escaped, and compiling that listing again (with the same matrix) yields a dictionary with the same content for words whose headword is their written form (headwords are not stored). Printing a user dictionary leaves the system dictionary as it was. The header command prints the stored header. The tokenizer command prints for each morpheme its surface, part of speech and normalised form, plus with the all-fields option dictionary form, reading, dictionary number and an OOV mark, then an end-of-sentence line; the debug option does not change the results, and the results before an error are still written.",
  ["inputs", "programs"],
  "all rows over the boundary alphabets of the round-trip property in system and user dictionaries; all texts and option combinations of the command over a small alphabet",
  "no test prints anything.",
  ["dictionary/dicprinter.go", "printdic/main.go", "printdicheader/main.go", "gosudachicli/main.go"],
  [("row printer", "dictionary/dicprinter.go"), ("formatter", "gosudachicli/main.go")],
  observe=["printed text"])

p("C23", "Escapes in lexicon sources decode to exactly the characters they denote",
  "In every column where escapes are allowed, \\uXXXX and \\u{X...} sequences decode to the denoted character and all other text, including backslashes and incomplete escapes, is kept verbatim. A column separator written as an escape does not split the column, and decoding one column never changes another.",
  ["inputs"],
  "all strings up to a bounded length over {backslash, u, braces, hex digits, other letters} in each column, and every code point in both notations",
  "no test reads a lexicon; each escape is recognised by a hand-written state machine.",
  ["dictionary/dicbuilder.go"],
  [("escape decoding", "dictionary/dicbuilder.go: lexiconReader")],
  observe=["word infos of the compiled row"])

p("C24", "Automatic user-word costs are computed from the words' own tokenization",
  "A user-dictionary word whose cost is the automatic marker receives, on loading, the internal cost of tokenizing its surface form with the dictionaries loaded before it (input rewriting applied, path rewriting not) plus the documented per-morpheme reduction, clamped to 16 bits; all words with an explicit cost keep it, including the extremes. The dictionary file on disk is never modified by this.",
  ["inputs", "configurations"],
  "all headwords up to a bounded length and all boundary costs, with zero to three previously loaded dictionaries, in each loading order",
  "no test loads a user dictionary.",
  ["dictionary.go", "dictionary/dalexicon.go", "morpheme.go"],
  [("cost calculation on load", "dictionary.go: ReadUserDictionary; dictionary/dalexicon.go: CalculateCost")],
  observe=["DoubleArrayLexicon.GetCost after loading; tokenization"])

p("C25", "Connection-cost editing changes exactly the listed pairs",
  "Listing id pairs to inhibit in the settings makes exactly those ordered pairs unusable in tokenization and leaves every other connection cost unchanged, for every pair in the matrix. The edit applies only to the dictionary instance being configured: another instance loaded from the same file, and the file itself, keep the original costs.",
  ["configurations", "histories"],
  "all subsets of the pairs of small (also non-square) matrices, applied through settings and directly, with all costs re-read and a second instance opened before and after",
  "no test edits costs; transposition or sharing errors need a non-symmetric matrix or a second instance.",
  ["inhibitconnectioncostplugin.go", "plugin.go", "dictionary/grammar.go", "dictionary.go", "settingsjson.go"],
  [("copy on write of the matrix", "dictionary/grammar.go: SetConnectCost")],
  observe=["Grammar.GetConnectCost, Tokenize"])

p("C26", "A morpheme reports exactly what its dictionary entry says",
  "Every morpheme of a result, in every mode, and every piece it is split into, reports the surface text of its range, and the part of speech, normalised form, dictionary form, reading, word number, dictionary number and unknown-word flag of exactly the entry of the dictionary source it comes from, with the documented defaults (an empty reading or normalised form is the written form; a dictionary form refers to a word of the same dictionary). Morphemes that a plug-in has joined report the texts of their parts joined and no word of a dictionary.",
  ["inputs", "configurations"],
  "all texts up to a bounded length over words with every kind of written form, default, reference and split, in every mode, with every split of every morpheme, over several lists of user dictionaries (up to fifteen) and plug-in selections, in both encodings",
  "no test tokenizes anything; an attribute mixed up between two words shows only for a word whose attributes all differ.",
  ["morpheme.go", "dictionary/wordinfo.go", "dictionary/lexiconset.go", "dictionary/dalexicon.go", "lattice.go", "plugin.go", "tokenizer.go"],
  [("accessors", "morpheme.go"), ("entries", "dictionary/dalexicon.go: getWordInfo; dictionary/lexiconset.go: GetWordInfo")],
  observe=["Morpheme and MorphemeList accessors"])

p("C27", "Dictionaries can be opened and closed in any order without a trace",
  "Any sequence of opening dictionaries, successfully or not, and closing them, also repeatedly, leaves the dictionaries that are open working exactly as if they were the only ones, and holds no file or memory mapping for those that are closed or whose opening has failed at any stage. Strings read from a dictionary stay valid after it is closed. No dictionary or definition file is changed. The same holds for single dictionary files, damaged or not, and for trie files.",
  ["histories", "fault_sequences"],
  "all sequences up to a bounded length of opening one of several dictionaries in one of several slots, openings that fail at each stage, and closings; every truncation and header damage of a dictionary file; all sequences of opening and closing dictionary and trie files",
  "no test opens a dictionary; leaks and use of memory that was given back need a failed opening or a particular order.",
  ["dictionary.go", "dictionary/binarydict.go", "internal/mmap/mmap_unix.go", "dartsclone/da.go"],
  [("opening and closing", "dictionary.go: NewJapaneseDictionary, ReadUserDictionary, Close; dictionary/binarydict.go: NewBinaryDictionary, Close"), ("trie files", "dartsclone/da.go: Open, Close")],
  observe=["files and mappings of the process, tokenization results"])

p("C28", "The dictionary compilers write exactly what their sources say, and no command harms its inputs",
  "dicbuilder and userdicbuilder, given lexicon files in some order, a matrix or a system dictionary, a description and an encoding, either write a dictionary file with the right kind of header, the description, the current time and exactly the contents of the sources in that order, and exit with status zero, or report the problem and exit with a nonzero status; what the output file held before makes no difference. Wrong or missing arguments are refused without touching any file. No command changes a file that it reads, even when the same file (under any name) is given as its output.",
  ["inputs", "configurations"],
  "all sequences of up to two or three lexicon files (valid, empty, malformed, missing), matrices, descriptions around the length limit and encodings; all command lines with a missing or wrong argument; every input of every command named as its output directly and by hard, symbolic and dotted paths",
  "no test runs a command.",
  ["dicbuilder/main.go", "userdicbuilder/main.go", "gosudachicli/main.go", "dicconv/main.go", "dictionary/dicheader.go", "dictionary/dicbuilder.go"],
  [("commands", "dicbuilder/main.go; userdicbuilder/main.go; gosudachicli/main.go; dicconv/main.go")],
  observe=["files written, exit status"])

p("C29", "Plug-ins and debug output see the true lattice, and what plug-ins do is what happens",
  "Plug-ins written by the user are called in the order in which they are listed, unknown-word providers exactly once at every position that words reach and at which a word may begin (and the last one once more where nothing else was proposed), with a flag that tells whether there are other words; what they propose are the candidates of the lattice, placed at the position asked for. A path plug-in sees the nodes of the lattice exactly as they were inserted and removed; joining words of the path gives a word with the joined range and texts (for unknown words the cheapest word of the lattice with that range, if there is one) and leaves the other words alone, and the result is made of exactly the words of the path after the last plug-in. An error of a plug-in is the error of the start or of the tokenization, no plug-in is called after it, and the next tokenization is as if it had not happened. Debug output lists the text, every node of the lattice with its costs and the path before and after rewriting exactly as they are, and changes no result.",
  ["inputs", "histories", "configurations"],
  "all sequences of lattice operations up to a bounded length; all pairs of provider behaviours and all texts up to a bounded length, with an error at each call; all pairs of joinings over all ranges of the path; an error of each call of three plug-ins of each kind; the debug output of all texts up to a bounded length in every mode over several plug-in selections, from the library and from the command",
  "no test uses a plug-in or debug output; the calls depend on the text, the dictionary and what the other plug-ins propose.",
  ["lattice.go", "plugin.go", "tokenizer.go", "dictionary.go", "gosudachicli/main.go"],
  [("lattice", "lattice.go: Insert, Remove, GetNodes, GetMinimumNode, Dump"), ("joining", "plugin.go: ConcatenateNodes, ConcatenateOov, GetOOV"), ("calls", "tokenizer.go: Tokenize, buildLattice; dictionary.go: NewJapaneseDictionary")],
  observe=["calls of plug-ins, lattice look-ups, results, debug output"])

p("C30", "Dictionary files keep the established binary format",
  "The compilers write, and the library reads, dictionary files in the established Sudachi binary format: the version numbers, the header of 272 bytes, the table of parts of speech, the connection matrix, the double-array trie, the lists of word ids, the word parameters, the offsets and the records of word information, with strings in UTF-8 or UTF-16 and lengths of one or two bytes. So files made by other builds and tools in this format (first and second version of user dictionaries included), however they place the units of the trie, the lists and the records, open with exactly the content they store and give the same tokenization, conversion and listing as files compiled here from the same source, files compiled or converted here are readable by them, and files with any other version number are refused.",
  ["inputs", "configurations"],
  "all small system and user lexicons over row templates in both directions, all layouts of the file that the format allows up to the enumerated choices, strings and lists around every boundary of the length encodings, matrices, headers and version numbers one bit apart; all short texts tokenized with files of both origins",
  "no test reads or writes a dictionary; writer and reader can change together so that every round trip still succeeds while all existing files become unreadable or are misread.",
  ["dictionary/dicversion.go", "dictionary/dicheader.go", "dictionary/bytes.go", "dictionary/dicbuilder.go", "dictionary/dalexicon.go", "dictionary/grammar.go", "dictionary/binarydict.go", "dartsclone/da.go", "dicconv/main.go"],
  [("writing", "dictionary/dicbuilder.go: WriteGrammar, WriteLexicon, writeString; dictionary/dicheader.go: ToBytes"), ("reading", "dictionary/bytes.go; dictionary/grammar.go: NewGrammar; dictionary/dalexicon.go: NewDoubleArrayLexicon, getWordInfo; dictionary/binarydict.go: NewBinaryDictionary")],
  observe=["bytes of files; contents of opened dictionaries; tokenization results"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
