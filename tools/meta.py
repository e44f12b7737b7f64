#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note))

prop("C01", "Any text is parsed or rejected with located errors, never a crash",
 "For any text whatsoever, parsing ends, without panic, abort or stack overflow and with CPU time and memory in proportion to the text, and either succeeds or fails with at least one error. Every error and warning names a place inside the text at character boundaries, as does every span of every directive, option and plugin, and can be rendered against the text.",
 ["inputs"], "all texts: random characters, random token sequences, mutated ledgers, deep and long structures",
 "The tests parse a few hundred hand-written small ledgers; a crash needs one odd input out of all texts.",
 ["src/lexer.rs", "src/parsers.rs", "src/lib.rs", "src/types.rs", "src/sources.rs"],
 [("lexing with error tokens", "src/lexer.rs"), ("declaration-wise recovery", "src/lib.rs"), ("checked arithmetic", "src/types.rs Expr")],
 "fuzzing with structured and random text generators in worker processes; oracle: no crash, budgets, span invariants",
 "Explores generated texts up to some tens of kilobytes; CPU and memory budgets are two orders of magnitude above what is observed.")
prop("C02", "Every directive is returned with exactly the content written",
 "Each well-formed directive in a ledger is returned exactly once, of the kind written, with every part equal to what was written: date, flag, payee, narration, accounts and their types, numbers as expression and value, currencies, costs, prices, tolerances, booking, strings, custom values, tags, links, metadata, and postings in order. Nothing is added, dropped, merged or attached elsewhere.",
 ["inputs"], "all well-formed ledgers of every directive kind with every combination of optional parts",
 "The tests fix one example per syntactic feature; combinations of parts, values and neighbours are unbounded.",
 ["src/parsers.rs", "src/types.rs", "src/lexer.rs"],
 [("directive grammar", "src/parsers.rs"), ("tokenizing", "src/lexer.rs")],
 "model-based generation: ledgers rendered from a model, result compared with the model",
 "The model of the grammar is the harness's own; exploration of random ledgers.")
prop("C03", "Directives come out by date, opens first then balances, else as written",
 "The directives returned are in order of date; on one date all opens come first, then all balance checks, then everything else; and directives of equal rank keep the order in which they were written, where the directives of an included file stand in place of its include. None is lost or duplicated by the ordering.",
 ["inputs"], "all ledgers with any number of directives of any kinds and dates in any written order, across files",
 "Sorting is tested on a handful of short lists; stability and completeness concern every permutation and length.",
 ["src/sort.rs", "src/lib.rs"],
 [("sorting of directives by date and kind", "src/sort.rs"), ("collecting from all sources", "src/lib.rs")],
 "model-based generation: stable sort of what was written as oracle",
 "Exploration; lists up to some hundred directives.")
prop("C04", "Numbers and arithmetic are evaluated exactly as written",
 "Every number expression is read with the usual precedence, left associativity, unary signs and parentheses, and the tree returned is the one written; its value is the exact result rounded half away from zero to the largest number of decimals among the literals in it. Division by zero and values beyond the decimal range are reported as errors, never a crash or a wrong value.",
 ["inputs"], "all number expressions in every place where one may occur",
 "Unit tests evaluate a few small expressions; wrong precedence, rounding or scale shows only on particular operand combinations.",
 ["src/parsers.rs", "src/types.rs", "src/lexer.rs"],
 [("expression grammar", "src/parsers.rs"), ("evaluation and rounding", "src/types.rs ExprValue, Expr"), ("number tokens", "src/lexer.rs")],
 "differential testing against exact rational arithmetic over generated expressions",
 "Values the oracle can't tell (at a rounding tie after inexact division) are skipped and counted.")
prop("C05", "Every element is located at exactly the text it was written as",
 "The span of every directive and of every spanned part of it covers exactly the text that part was written as (a directive's may extend over trailing blank and ignored lines), in characters of any width. Resolving a span yields that text without trailing whitespace, with its first and last line numbers counted from one and the name of its file if it has one.",
 ["inputs"], "all well-formed ledgers in any layout, including multi-byte text, and all spans in the result",
 "Tests check spans in a few error messages only; an off-by-one appears for particular layouts or characters.",
 ["src/parsers.rs", "src/lexer.rs", "src/sources.rs", "src/trim.rs", "src/types.rs"],
 [("spans carried through tokens and grammar", "src/lexer.rs, src/parsers.rs"), ("span resolution", "src/sources.rs resolve_span")],
 "model-based generation: byte ranges recorded by the renderer as oracle",
 "Exploration; the renderer's own bookkeeping is the reference.")
prop("C06", "Pushed tags and metadata reach exactly the directives in between",
 "A pushed tag or metadata key is attached to every directive after the push and before its matching pop, in reading order with each included file in place of its include, and to no other; the most recent open push of a key wins, and what a directive itself says takes precedence. Every pop without an open push, and every tag and key still pushed at the end, is reported at the place of such a declaration.",
 ["inputs", "histories"], "all sequences of push and pop declarations interleaved with directives, across files",
 "Tests have a few short push/pop sequences; nesting, repetition and interleaving are unbounded histories.",
 ["src/lib.rs", "src/types.rs"],
 [("push and pop processing while collecting declarations", "src/lib.rs")],
 "stateful model-based testing: sequences of declarations against a reference interpreter",
 "Exploration of sequences of up to some tens of declarations.")
prop("C07", "Includes gather every named file once, and report every other one",
 "A ledger read from a file is the combination of that file and of all files it includes, directly or indirectly, by relative or absolute path or wildcard, relative to the including file; each file is read once and contributes its declarations once, also in cycles. An include which names no readable file, or the ledger itself, or a file already included while other tags or metadata were pushed, is reported at that include; including a file again under the same pushes has no effect.",
 ["inputs", "configurations"], "all trees of files with includes of any shape: chains, diamonds, cycles, wildcards, missing, unreadable, links, odd names",
 "The tests have a handful of include trees; the outcome depends on the whole shape of the tree and the kinds of path.",
 ["src/sources.rs", "src/lib.rs"],
 [("reading the transitive closure", "src/sources.rs"), ("errors at the including declaration", "src/lib.rs, src/sources.rs")],
 "model-based testing over generated file trees in scratch directories",
 "Exploration of trees of a few files and directories; file system semantics are Linux's.")
prop("C08", "Options and plugins take effect and are returned as given",
 "Every supported option, given once with a valid value, is returned with that value and place; options that may repeat accumulate; the latest of the account type names and of the long string limit counts from its place on. Unknown options, invalid values, repeated single options, repeated values and account type names already taken are reported at the option, and plugins are returned in the order given with their configuration.",
 ["inputs", "histories"], "all sequences of options and plugins with valid and invalid values, in one or several files, interleaved with directives",
 "Tests set a few options to one value each; sequences, repetitions and value spaces are unbounded.",
 ["src/options.rs", "src/lib.rs", "src/parsers.rs"],
 [("option parsing and assimilation", "src/options.rs"), ("parse-time options", "src/lib.rs")],
 "stateful model-based testing: option sequences against a reference interpreter",
 "Exploration; the table of options and their value formats is the harness's own.")
prop("C09", "Layout does not change what a ledger means",
 "Spaces and tabs between tokens, the amount of indentation, comments, blank lines, lines which are to be ignored, line endings, and whether the last line ends, make no difference to what is returned, apart from spans.",
 ["inputs"], "all pairs of layouts of the same ledger",
 "Tests have one layout per feature; interactions of layout elements with each other and with tokens are unbounded.",
 ["src/lexer.rs", "src/parsers.rs"],
 [("whitespace, comment and end-of-line tokens", "src/lexer.rs"), ("indent handling", "src/parsers.rs")],
 "metamorphic testing: two random layouts of one generated ledger",
 "Exploration of random layouts.")
prop("C10", "String literals are unescaped exactly, and long ones warned about once",
 "The value of every string literal is its text with the escape sequences replaced as defined and everything else kept, including line breaks and quotes; a literal with a meaningless escape sequence is reported at that literal. A literal of more lines than the limit in force (64 unless set otherwise by an option before it) gives exactly one warning at it, and no other literal does.",
 ["inputs"], "all string literals of any characters and length at every place of a ledger, with any limit",
 "Tests have a few literals with simple escapes and one long string.",
 ["src/lexer.rs", "src/parsers.rs", "src/lib.rs"],
 [("string token unescaping", "src/lexer.rs"), ("long string check", "src/parsers.rs")],
 "property-based testing: unescaping and warnings against a reference implementation",
 "Exploration; escape sequences as defined by the reference in the harness.")
prop("C11", "Duplicates within a directive are reported, each at its place",
 "When a tag, link or metadata key, a currency of an opened account, or a kind of component of a cost is given more than once in the same directive or posting, each repetition is reported by an error at it (of a currency, at one of its occurrences; of a cost component, within the directive), and the ledger is rejected. When nothing is given twice, nothing is reported.",
 ["inputs"], "all directives and postings with any multiset of tags, links, keys, currencies and cost components",
 "Tests have one duplicate of some kinds in one place.",
 ["src/parsers.rs", "src/types.rs"],
 [("metadata, tags and links collected with duplicate check", "src/parsers.rs"), ("cost specification builder", "src/types.rs")],
 "property-based testing: expected error multiset computed from the model",
 "Exploration.")
prop("C12", "A malformed declaration is reported, and only it",
 "When some declarations of a ledger are malformed and the others are not, each malformed one which starts the file or follows a well-formed one gives at least one error that starts within its own lines, and no error starts within the lines of a well-formed one or reaches into another declaration. Parsing never succeeds for a ledger with a malformed declaration.",
 ["inputs"], "all ledgers with any subset of declarations damaged in any way that keeps the damage in its own lines",
 "Tests have single errors in tiny ledgers; recovery depends on what surrounds the damage.",
 ["src/lib.rs", "src/parsers.rs"],
 [("recovery to the next declaration", "src/parsers.rs, src/lib.rs")],
 "property-based testing: damaged declarations among sound ones, error places checked by line",
 "Exploration; damage that swallows neighbours (unbalanced quotes) is left out.")
prop("C13", "Reports show the right file, line, text, notes and annotation",
 "Writing errors or warnings renders each one, in order, with its kind, message, reason, the file name, line and column where its span starts, and the text of its source lines, and with every related and context element labelled; an annotation follows its report. Writing and resolving never fail or panic for any span at all, and a span which does not exist resolves to nothing.",
 ["inputs"], "all errors and warnings on any spans of any sources, with any related elements, contexts and annotations",
 "Tests look at no rendered reports beyond a few fixed ones.",
 ["src/sources.rs", "src/types.rs"],
 [("report writing", "src/sources.rs"), ("character indices of byte offsets", "src/sources.rs")],
 "property-based testing: rendered reports parsed back and compared with the model",
 "Exploration; the box drawing of the rendering library is not judged, only file, position, labels and source text.")
prop("C14", "Synthetic sources never disturb real ones and resolve to what was added",
 "Every fragment added as a synthetic source gets a span which resolves to exactly that fragment under the name given and is rendered in reports with that name and text, however many fragments have been added before or after, under the same or other names. Spans of the real sources resolve and are rendered as without any synthetic source.",
 ["inputs", "histories"], "all sequences of additions of any fragments under any names, mixed with resolving and reporting",
 "The tests add one or two fragments.",
 ["src/sources.rs"],
 [("synthetic span creation and lookup", "src/sources.rs SyntheticSources")],
 "stateful model-based testing of sequences of additions against a list model",
 "Exploration of histories of up to some tens of additions.")
prop("C15", "Parsing is deterministic and independent of earlier parses",
 "Parsing the same sources again, with the same parser or a new one, in the same or another process or thread, yields the same directives in the same order with the same spans, the same options and plugins, and the same errors and warnings up to their order. No parse affects another.",
 ["inputs", "schedules"], "all ledgers, valid or not, parsed repeatedly, concurrently and in different processes",
 "Tests parse each ledger once; dependence on hash order, addresses or earlier state shows only on repetition.",
 ["src/lib.rs", "src/sources.rs"],
 [("sources processed by id", "src/lib.rs"), ("no shared state", "src/lib.rs")],
 "metamorphic testing: repeated, concurrent and re-read parses compared",
 "Exploration; the hash seeds of the standard library vary between the compared parses.")
prop("C16", "A displayed directive or plugin can be parsed back to the same",
 "Displaying every plugin and directive of a successfully parsed ledger, one after another, gives a ledger which is again accepted and has the same plugins and directives, apart from spans and the arithmetic notation of numbers, which keep their value.",
 ["inputs"], "all well-formed directives whose values can be displayed",
 "The tests never parse displayed output.",
 ["src/types.rs", "src/format.rs"],
 [("display of directives", "src/types.rs"), ("formatting helpers", "src/format.rs")],
 "round-trip testing over generated ledgers",
 "Exploration; parts outside the displayed syntax are documented in DESIGN.md.")
prop("C17", "Names and strings in a parse result are the text of the source itself",
 "Every account, currency, tag, link and metadata key (other than one which is a keyword), and every string written without escape sequences, which a parse returns in a directive, plugin or option, is the very text of the source at its place and not a copy of it, so that it stays valid and costs no memory for as long as the sources live.",
 ["inputs"], "all ledgers with names and strings of any kind, length and position, in one or several files",
 "No test looks at where a returned text is stored; whether it is copied may depend on its length, content or position.",
 ["src/lexer.rs", "src/parsers.rs", "src/types.rs", "src/lib.rs"],
 [("string literals and their store", "src/lexer.rs"), ("names borrowed from tokens", "src/parsers.rs, src/types.rs")],
 "property-based testing: generated ledgers, with an invariant on the address of every returned text",
 "Exploration; the source's own text as given by resolve_span is the reference.")
prop("C18", "Validated names accept exactly what the ledger syntax accepts",
 "Constructing a currency, metadata key, tag, link, account type name, account name component, subaccount or flag letter from any text succeeds exactly when every character of it is allowed at its position for that kind of name, and then gives back the same text; otherwise the error says what is wrong, and there is never a panic. Such names compare as their texts; every name which a ledger returns can be constructed, and every valid ASCII name that the syntax of ledgers has room for is returned as the same name when written in one.",
 ["inputs"], "all texts over all characters for every validated name type",
 "Tests try a handful of names for each type.",
 ["src/types.rs", "src/lexer.rs"],
 [("validation of names", "src/types.rs TryFrom implementations"), ("token patterns", "src/lexer.rs")],
 "differential testing against independently written validity rules, and by writing the name in a ledger",
 "Exploration of random, boundary and mutated names.")
prop("C19", "Application errors carry the element, contexts and relations given",
 "An error or warning made on any element of a parse result has that element's place and kind of element as its message, the reason given, and exactly the related and context elements and annotation added, in the order added; none is lost by adding others. Located elements compare, hash and display as their content alone, and mapping or changing their content keeps their place.",
 ["inputs", "histories"], "all sequences of additions on errors and warnings of any element of any parse result",
 "The tests do not cover the application-facing error interface.",
 ["src/types.rs"],
 [("error and warning builder", "src/types.rs"), ("located elements", "src/types.rs Spanned")],
 "stateful model-based testing of builder call sequences",
 "Exploration.")
prop("C20", "Exactly the ledgers of the grammar are accepted",
 "A ledger is accepted exactly when it is well-formed: every line forms part of a declaration of the documented syntax with all its mandatory parts and no others, and the rules on duplicates, arithmetic and pushes and pops are kept. Nothing malformed is silently accepted, skipped or taken for something else.",
 ["inputs"], "all sequences of tokens and lines, well-formed or near misses",
 "Tests have few malformed ledgers; near misses of the grammar are unbounded.",
 ["src/parsers.rs", "src/lexer.rs", "src/lib.rs"],
 [("grammar", "src/parsers.rs"), ("rejecting what is left over", "src/lib.rs")],
 "differential testing against an independent reference tokeniser and parser over edited token sequences and character soup",
 "Exploration; the reference parser is the harness's own reading of the syntax.")
prop("C21", "A report is written whole, or the writer's failure is returned",
 "Whatever a writer does with the reports of errors and warnings written to it (takes them in pieces of any size, is interrupted, or fails at any byte), what it has received is always the beginning of the reports as written to a faultless writer; it is all of them whenever writing returns success, and otherwise the failure of the writer is returned. Writing again afterwards gives the same reports.",
 ["fault_sequences", "inputs"], "all reports on all sources, real or synthetic, and all writers which fail, are interrupted or take only a part, at any point",
 "No test writes reports to a writer which fails.",
 ["src/sources.rs"],
 [("writing of reports and annotations", "src/sources.rs write_errors_or_warnings, write_report")],
 "fault injection: generated reports to a writer with generated short writes, interruptions and failures, against the output of a faultless writer",
 "Exploration; one fault pattern per case.")

mods = open(f"{V}/harness/src/props/mod.rs").read()
have = set(re.findall(r"c(\d\d)::PROP", mods))
with open(f"{V}/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None}}, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick", "thorough_cmd": f"bash check.sh {p['id']} thorough",
                 "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in P if p["id"][1:] in have],
     "not_applicable": [{"property": p["id"], "reason": "no check built yet"} for p in P if p["id"][1:] not in have]}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    assert p["statement"].count(". ") <= 2, p["id"]
