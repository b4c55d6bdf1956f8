#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after a change)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, note):
    P.append((id, title, statement, over, text, why, files, mech, note))

SAMPLES = "The tests transcribe fixed examples of the bundled specs; "

prop("C01", "Transcription is total and writes clean output",
 "Transcribing any string in any bundled language, with its standard transliterators, ends without a panic, an error, or an unbounded use of time and memory. The output contains no single Hangul Jamo and no hyphen, marker or mask left over by the procedure which the input did not have, and valid UTF-8 stays valid.",
 ["inputs"], "every bundled language, every string (also invalid UTF-8)",
 SAMPLES + "totality is over all strings.",
 ["procedure.go", "internal/subword/replace.go", "internal/jamo/jamo.go", "pkg/hre/pattern.go"],
 [("pipeline of the procedure", "procedure.go"), ("Jamo composition", "internal/jamo/jamo.go")],
 "Generated words of every language plus mutated examples; each call is watched for time and memory, and the output is scanned.")
prop("C02", "The result depends on nothing but the language and the word",
 "The same word in the same language gets the same result whatever was done before: loading, unloading and re-parsing specs, tracing, other words and languages, another process, the package-level function or a Hangulizer.",
 ["histories", "inputs"], "every history of API calls, every word",
 "Tests call each word once in a fixed order; map iteration order, caches and shared state need histories.",
 ["hangulize.go", "specs.go", "spec.go", "procedure.go"],
 [("cache of specs", "specs.go"), ("a procedure per call", "hangulize.go")],
 "Generated histories; results compared between instances, orders and processes. Kagome is built with its node cost reset (known finding).")
prop("C03", "Bundled languages follow their written transcription rules",
 "A word in a bundled language becomes what the documented procedure makes of the rules of that language: transliterate, normalize, rewrite with all rules in order, transcribe with all rules in order without transcribing a letter twice, compose the syllables, localize the punctuation.",
 ["inputs"], "every bundled language, every word",
 SAMPLES + "a rule interacts with the others only in some words.",
 ["procedure.go", "rule.go", "specs", "internal/subword/replace.go"],
 [("steps of the procedure", "procedure.go"), ("replacement by subwords", "internal/subword")],
 "Differential against an independent interpreter of the rules in Go (own HRE matcher, own Jamo composition) on the reference copy of the specs; trusts this model and unicode tables.")
prop("C04", "Any valid spec is followed as documented",
 "For every spec a user may write, a word becomes what the documented procedure makes of its macros, vars, normalization, script, rewrite and transcribe rules.",
 ["programs", "inputs"], "every valid spec, every word",
 "Tests only use the bundled specs and a few toy specs.",
 ["procedure.go", "spec.go", "rule.go", "script.go"],
 [("preparing a spec", "spec.go"), ("steps of the procedure", "procedure.go")],
 "Differential against the same interpreter on generated specs; patterns which may match an empty text are out of its domain.")
prop("C05", "Letters foreign to a language stay exactly as they are",
 "Letters which take no part in the rules of a language (other scripts, digits, symbols, Hangul) are in the output exactly once each, in order and unchanged, and no letter of the source script leaks into the output. Runs of them stay contiguous.",
 ["inputs"], "every bundled language (except those read by the Japanese dictionary), every mix of letters",
 SAMPLES + "they hold few foreign letters.",
 ["procedure.go", "space.go", "script.go"],
 [("meaningless chunks are masked", "procedure.go"), ("levels of subwords", "internal/subword/builder.go")],
 "Words mixed with foreign letters of many scripts; the subsequence of foreign letters and the set of output letters are compared.")
prop("C06", "Words are transcribed independently of their neighbours",
 "Pieces of a text which are separated by letters foreign to the language get the same results which they get alone: the result of the text is the results of the pieces joined by the same letters.",
 ["inputs"], "every bundled language (except those read by the Japanese dictionary), every sequence of words and separators",
 SAMPLES + "nearly all of them are single words.",
 ["procedure.go", "pkg/hre/assertions.go", "internal/subword/replace.go"],
 [("chunks between foreign letters", "procedure.go"), ("word edges", "pkg/hre/assertions.go")],
 "Metamorphic: the result of a joined text against the joined results.")
prop("C07", "Letter case and composed diacritics do not matter",
 "A word in a language of a script with letter case (Latin, Cyrillic, Greek) gets the same result in upper, lower and mixed case, and with any letter replaced by the same letter with diacritics which have no meaning in that language.",
 ["inputs"], "every bundled language in an alphabetic script, every word and every such respelling",
 SAMPLES + "each in one spelling.",
 ["script.go", "internal/scripts", "procedure.go"],
 [("normalization by script", "internal/scripts"), ("letters kept by the spec", "spec.go")],
 "Metamorphic pairs; also a table of every letter against a reference normalization.")
prop("C08", "Jamo sequences are composed into correct syllables",
 "Every sequence of leads, medials and tails written by the rules becomes the Hangul syllables it stands for: missing parts are filled as documented (ㅇ, ㅡ), tails join the syllable before, and everything else stays in place.",
 ["inputs"], "every sequence of Jamo, hyphens, Hangul and other letters",
 "Tests compose a handful of words out of 11172 syllables and their sequences.",
 ["internal/jamo/jamo.go"],
 [("state machine of composition", "internal/jamo/jamo.go")],
 "All short Jamo sequences and random long ones through generated specs, against a table-driven composer.")
prop("C09", "Patterns match exactly as the pattern language defines",
 "A pattern finds the leftmost non-overlapping matches in any word as its syntax defines: macros, vars, word edges ^ $, string edges ^^ $$, positive {x} and negative {~x} lookarounds on both sides, classes, repeats and alternatives.",
 ["programs", "inputs"], "every pattern with its macros and vars, every word, every limit",
 "Tests match some dozens of patterns against some words.",
 ["pkg/hre/pattern.go", "pkg/hre/assertions.go", "pkg/hre/macro.go", "pkg/hre/var.go"],
 [("expansion to a regexp", "pkg/hre/pattern.go"), ("lookarounds", "pkg/hre/assertions.go")],
 "Generated patterns and words made to match them, against a backtracking matcher written for this check.")
prop("C10", "Replacements map vars by the value which matched",
 "Replacing by a pattern and a replacement writes, for every match, the literal parts and for the n-th var of the replacement the value at the index of the value matched by the n-th var of the pattern; a match which cannot be mapped stays.",
 ["programs", "inputs"], "every pattern, replacement, macros and vars, every word",
 "Tests cover a few pairs of vars without groups, repeats or alternatives around them.",
 ["pkg/hre/rpattern.go", "pkg/hre/var.go", "rule.go"],
 [("interpolation", "pkg/hre/rpattern.go")],
 "Generated rules against a reference interpolation, by the pattern and by the rule.")
prop("C11", "Compiling a pattern is total and its summary is exact",
 "Compiling any string as a pattern ends with a pattern or an error, never a panic; grammatical patterns compile and a lookaround in the middle is refused. A compiled pattern tells its source, exactly its letters and the widths of its negative lookarounds, and searches any word into ordered matches within it.",
 ["programs", "inputs"], "every string as a pattern, every word",
 "Tests try a few malformed patterns.",
 ["pkg/hre/pattern.go", "pkg/hre/width.go", "pkg/hre/util.go", "pkg/hre/assertions.go"],
 [("compiler", "pkg/hre/pattern.go"), ("width of a regexp", "pkg/hre/width.go")],
 "Random strings over the metacharacters and grammatical patterns; the letters and widths against the model. Matches of nothing are a documented precondition.")
prop("C12", "What is written in HSL is what is read",
 "Any sections and pairs written in HSL, with any quoting, escapes, comments, blank lines, indents and line ends, are read back as the same names, kinds, order, keys, values and line numbers.",
 ["inputs"], "every document of sections and pairs and every layout of it",
 "Tests parse some fixed documents.",
 ["pkg/hsl/lexer.go", "pkg/hsl/parser.go", "pkg/hsl/structures.go"],
 [("lexer", "pkg/hsl/lexer.go"), ("parser", "pkg/hsl/parser.go")],
 "Round trip of generated documents in generated layouts, through the generic and the spec reader.")
prop("C13", "Reading HSL or a spec survives any source and any reader",
 "Reading any bytes as HSL or as a spec ends with a result or an error and never panics; the outcome does not depend on how the reader cuts the bytes into chunks, and a reader which breaks is reported as an error, never as a shorter document.",
 ["inputs", "fault_sequences"], "every source, every chunking, every point where the reader fails",
 "Tests read whole strings which are mostly valid.",
 ["pkg/hsl/lexer.go", "pkg/hsl/hsl.go", "spec.go"],
 [("errors of the lexer", "pkg/hsl/lexer.go"), ("errors of a spec", "spec.go")],
 "Mutated and random sources, one-byte and random chunks, readers failing at every generated point.")
prop("C14", "A spec holds exactly what its source says, or is refused",
 "A valid spec source yields exactly its metadata, macros, vars, normalization, rules in order with their numbers, and examples; a source with a defect (missing or doubled keys, several values where one is due, invalid patterns, wrong kinds of sections) is refused with an error.",
 ["inputs"], "every valid spec source, every single defect of it",
 "Tests parse the bundled specs and a few defects.",
 ["spec.go"],
 [("sections of a spec", "spec.go")],
 "Generated sources, with and without an injected defect, compared field by field.")
prop("C15", "Bundled specs are listed, cached and unloaded consistently",
 "The list of languages is sorted, complete and a copy; loading a language gives the same spec until it is unloaded, with the ID it was asked by; any other name is an error which tells so and names it, and the package-level function then gives the word back.",
 ["histories"], "every history of load, unload, list and use, every name",
 "Tests load each spec once.",
 ["specs.go", "hangulize.go"],
 [("cache of specs", "specs.go")],
 "Model-based histories against a reference cache.")
prop("C16", "Transliterator registries behave as sets; Install is all or nothing",
 "A registry accepts a transliterator only if its scheme is new, removes only what it has, and hands out copies; the default registry and those of Hangulizers are independent. Installing the standard ones adds all of them or, if any scheme is taken, changes nothing.",
 ["histories"], "every history of operations on several registries",
 "Tests add and remove one transliterator.",
 ["translit.go", "translit/translit.go", "hangulize.go"],
 [("registry", "translit.go"), ("Install", "translit/translit.go")],
 "Model-based histories; every registry is compared after every operation.")
prop("C17", "Transliterators run in order and their failures are reported",
 "The transliterators of a spec see the word in the order of the spec, each the output of the one before. If one fails or is not imported, the result is empty with an error which tells which of the two it was and the scheme; later ones are not called.",
 ["inputs", "fault_sequences"], "every chain, every point of failure, every word",
 "Tests use chains of one transliterator which never fails.",
 ["procedure.go", "errors.go"],
 [("transliterate step", "procedure.go")],
 "Generated chains with recorded calls and injected failures.")
prop("C18", "Latin spellings of Cyrillic are read by the longest spelling",
 "The Cyrillic transliterator of each country replaces, from left to right, the longest Latin spelling it knows by its Cyrillic letter in the right case, and leaves everything else as it is.",
 ["inputs"], "every country, every word",
 "Tests read a few words per country.",
 ["translit/cyrillic/cyrillic.go", "translit/cyrillic/dict.go"],
 [("dictionary of spellings", "translit/cyrillic/dict.go")],
 "Against a reference table and longest match; all pairs of spellings and random words.")
prop("C19", "Chinese is read by dictionary pinyin with nothing lost",
 "The pinyin transliterator writes the toneless dictionary reading of every ideograph it knows, keeps every other letter, and separates adjacent readings and other runs so that they cannot merge.",
 ["inputs"], "every word; all code points",
 "Tests read a few words.",
 ["translit/pinyin/pinyin.go"],
 [("reading of runs", "translit/pinyin/pinyin.go")],
 "Against the dictionary of go-pinyin and a model of the separation; all code points are swept.")
prop("C20", "Japanese is read by its tokens with correct long vowels and marks",
 "The furigana transliterator writes the pronunciation of each dictionary word, particles as written, family and given names apart, auxiliaries joined, iteration marks resolved, and long vowels only within one reading; other letters stay, and composed and decomposed forms read the same.",
 ["inputs"], "every phrase",
 "Tests read a dozen phrases.",
 ["translit/furigana/furigana.go", "translit/furigana/typewriter.go", "translit/furigana/longvowel.go", "translit/furigana/repeat.go"],
 [("typewriter", "translit/furigana/typewriter.go"), ("long vowels", "translit/furigana/longvowel.go"), ("iteration marks", "translit/furigana/repeat.go")],
 "Against a model which reads the same tokens of Kagome aloud; trusts the tokenizer (with its node cost reset).")
prop("C21", "Traces tell every change and never change the result",
 "The trace of a word is exactly its changes: the input, each transliteration, normalization, each rule which changed the word in rule order with the word after it, syllables and localization; the last event has the result. Tracing does not change the result, reaches no other Hangulizer, and stops when removed.",
 ["inputs", "programs"], "every bundled or valid spec, every word",
 "Tests look at one trace.",
 ["trace.go", "procedure.go"],
 [("tracer", "trace.go")],
 "Differential against the events of the reference interpreter.")
prop("C22", "Traces are rendered line by line in aligned columns",
 "A rendered trace has a header whenever the step changes and exactly a line per event, with the word unchanged and the rule or reason aligned behind the widest word so far (East Asian wide letters count two); any word or rule is shown literally.",
 ["inputs"], "every sequence of events, every writer",
 "The test looks for three substrings of one rendering.",
 ["pkg/tracefmt/tracefmt.go"],
 [("rendering", "pkg/tracefmt/tracefmt.go")],
 "Generated events and real traces against a reference rendering.")
prop("C23", "The command gives the library's results, one line per word",
 "The command writes to its standard output exactly the library's result of each given word, or of each line of its standard input as it comes (trimmed; also a last line without an end), in order; verbose adds exactly the rendered traces on the standard error before each result. An unknown language or a failing spec exits with 1.",
 ["inputs", "configurations"], "every language or spec file, arguments or input, flags",
 "There is no test of the command.",
 ["cmd/hangulize/main.go", "cmd/hangulize/dev.go"],
 [("stream of words", "cmd/hangulize/main.go")],
 "Runs the built command on generated words, inputs and specs; the oracle is the library.")
prop("C24", "The test command passes exactly the right specs and measures rules",
 "Testing spec files exits with 0 if and only if every file is valid and each of its examples has the expected result; exactly the others are listed. The coverage is the part of rules which took effect in some example, and the profile, written only if all pass, has for each rule its file, line and width and whether it took effect.",
 ["inputs", "configurations"], "every set of spec files, examples, layouts and flags",
 "There is no test of the command.",
 ["cmd/hangulize/test.go", "cmd/hangulize/cover.go"],
 [("coverage", "cmd/hangulize/cover.go"), ("examples", "cmd/hangulize/test.go")],
 "Runs the built command on generated spec files with known wrong examples and known layouts.")
prop("C25", "Listings, version and manifest agree with the specs",
 "The listing of the command has exactly a row per bundled spec in the order of the languages, or per readable given file, with its ID, stage and names; the version is the one built in; the manifest has every bundled spec with its metadata and examples and each transliterator once.",
 ["inputs", "configurations"], "every set of spec files; all bundled specs",
 "There is no test of these.",
 ["cmd/hangulize/ls.go", "cmd/hangulize/version.go", "cmd/manifest.json/main.go"],
 [("rows", "cmd/hangulize/ls.go"), ("manifest", "cmd/manifest.json/main.go")],
 "Runs the built commands; compared with the reference copy of the specs and generated files.")
prop("C26", "The WebAssembly builds do what the library does",
 "In JavaScript, the builds give for every call, alone or together with others, a promise of the library's result or a rejection with its error, the library's trace events, the metadata of all specs, and accept asynchronous transliterators, late or rejected by any value, by the registry's rules; the transliterator modules read words as the library does.",
 ["inputs", "schedules", "fault_sequences"], "every word, overlapping calls, transliterators which answer late or reject",
 "Tests run one word, and only under a JavaScript host.",
 ["cmd/hangulize.wasm", "cmd/cyrillic.translit.wasm", "cmd/furigana.translit.wasm", "cmd/pinyin.translit.wasm"],
 [("promise", "cmd/hangulize.wasm/hangulize.go"), ("transliterator by a promise", "cmd/hangulize.wasm/translit.go"), ("encoding", "cmd/hangulize.wasm/encode.go")],
 "Runs the builds in Node against the native library.")
prop("C27", "Concurrent use is safe and gives the sequential results",
 "Goroutines may at the same time transcribe, load, unload, list and parse specs and change the default registry, also as the first use of all, without a data race or a crash. Every result is the sequential one, a spec which nobody unloads is one object, and the registry behaves as if the operations took place one after another.",
 ["schedules", "histories"], "every interleaving of API calls",
 "No test runs two goroutines.",
 ["specs.go", "translit.go", "hangulize.go", "translit/furigana/furigana.go"],
 [("lock of the cache", "specs.go"), ("lock of the registry", "translit.go"), ("dictionary loaded once", "translit/furigana/furigana.go")],
 "Generated programs of goroutines in a race-detector build, fresh processes for first uses, and a linearizability check of the registry. Schedules are those the runtime happens to take.")
prop("C28", "Foreign punctuation is localized and its spaces are right",
 "Punctuation of the source script (。、「」 and the like) becomes the Korean one with a space where the text goes on and none before other punctuation or at the end; all other text around it stays.",
 ["inputs"], "every script, every mix of punctuation, words and spaces",
 SAMPLES + "few have punctuation.",
 ["internal/scripts/hrkt.go", "procedure.go", "space.go"],
 [("localization", "procedure.go"), ("punctuation", "internal/scripts/hrkt.go")],
 "Generated texts in generated and bundled specs against a reference localization.")
prop("C29", "The web page shows the result of the latest input",
 "However the user types, chooses languages or examples, and however late programs, workers and answers are, the page comes to rest with the result of the last word in the last language, read by all its transliterators, in the largest size which fits, and nothing for a blank word. No result is shown after a newer one or after a blank; a failing word does not stop later ones; a result later than 500 ms is told to be loading; each program is loaded once.",
 ["schedules", "histories", "fault_sequences"], "every sequence of inputs, every delay of messages, downloads, jobs and renders",
 "There is no test of the page.",
 ["web/src/hangulize/useHangulize.ts", "web/src/hangulize/hangulize.worker.ts", "web/src/hangulize/translit.worker.ts", "web/src/hangulize/runWebAssembly.ts", "web/src/components/App.tsx"],
 [("latest input", "web/src/hangulize/useHangulize.ts"), ("transliterators of the workers", "web/src/hangulize/translit.worker.ts"), ("size", "web/src/components/Result.tsx")],
 "Runs the bundled page in a simulated world with a virtual clock. Trusts the stand-ins for React, Comlink, the component library and the WebAssembly programs.")
prop("C30", "The language menu of the page lists and finds every language",
 "The menu has every language of the latest specs exactly once, in the order of the Korean names, each with its name and its flag, also after other specs replaced those of the manifest. A search by any beginning of its ISO codes, its English name, its Korean name (also with the last syllable half typed) or the initials of the Korean name finds a language, in any case.",
 ["inputs", "schedules", "histories"], "every set of languages, every search, every time at which the specs are replaced",
 "There is no test of the page.",
 ["web/src/components/SelectLanguage.tsx", "web/src/components/App.tsx", "web/src/components/flags.json"],
 [("options", "web/src/components/SelectLanguage.tsx"), ("search", "web/src/components/SelectLanguage.tsx")],
 "Runs the bundled page as C29 does. Trusts the stand-ins for Fuse, which finds a query within a key, and for hangul-js.")

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for id, title, st, over, text, why, files, mech, note in P:
        assert len(title) <= 80, (id, len(title))
        f.write(json.dumps({
            "id": id, "title": title, "statement": st,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]},
        }, ensure_ascii=False) + "\n")

TECH = {
 "C02": "property-based testing: generated histories, metamorphic equality",
 "C03": "property-based differential testing against a reference interpreter",
 "C04": "property-based differential testing on generated specs",
 "C06": "metamorphic property-based testing", "C07": "metamorphic property-based testing",
 "C12": "round-trip property-based testing", "C13": "fuzzing with fault-injecting readers",
 "C15": "model-based stateful testing", "C16": "model-based stateful testing",
 "C17": "property-based testing with injected failures",
 "C26": "property-based differential testing in Node",
 "C29": "generated inputs and delays in a simulated page with a virtual clock, against a model",
 "C30": "property-based testing in a simulated page",
 "C27": "generated concurrent programs, race detector, linearizability oracle",
}
man = {
 "version": 1,
 "setup_cmd": "./setup.sh",
 "hooks": {"guard": "verif", "enable": "no hook is needed: every check uses the public API and the built commands", "source_commits": []},
 "checks": [{
   "property": p[0],
   "quick_cmd": f"./check.sh {p[0]} quick",
   "thorough_cmd": f"./check.sh {p[0]} thorough",
   "technique": TECH.get(p[0], "property-based testing against a reference model"),
   "level": "exploration",
   "level_note": p[8] + " No proof: it covers the generated cases counted in the evidence.",
 } for p in P],
 "not_applicable": [],
 "notes": "See DESIGN.md. ./check.sh --replay ID FILE repeats a replay file.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, ensure_ascii=False, indent=1)
    f.write("\n")
