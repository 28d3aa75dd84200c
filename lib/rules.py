"""What the evidence says about each check: how cases are made and counted."""

_TEXTS = (
    "Cases are texts: every string over a small alphabet of significant characters up to a length, "
    "every sequence of a set of pieces (tags, closes, attributes, strings, comments, spaces) up to a length, "
    "random tree documents, damaged documents, random piece and character soup with words taken from the "
    "literals of the sources, and texts with one dimension made large ({}). "
)
_SIG = (
    "Distinct non-trivial: number of different outcomes, where an outcome is the sequence of event kinds with "
    "attribute counts, content lengths and kind of error; an empty document is not counted."
)

RULES = {
    "C01": _TEXTS.format("up to 70,000, thorough 200,000")
    + "Each is read through a character stream that checks every position and character it is given, in four "
    "builds: with assertions and the standard library's own checks, plain, AddressSanitizer, and (few cases) Miri; "
    "and byte strings, whole and cut, go to the escaping functions. " + _SIG,
    "C02": _TEXTS.format("up to 70,000, thorough 200,000")
    + "Each is read to its end under a budget of stream steps and events proportional to its length; then further "
    "requests are made. " + _SIG,
    "C03": _TEXTS.format("up to 70,000, thorough 200,000")
    + "An automaton with a stack checks every event as it is delivered, with varying version numbers. " + _SIG,
    "C04": "Cases are element trees, random ones, ones from a random walk over the stack of open boxes and elements, "
    "and every small sequence of tags; written as HML with every element boxed or not, and the same tree again "
    "with other boxes. The events read are compared with the tree. " + _SIG,
    "C05": _TEXTS.format("up to 70,000, thorough 200,000")
    + "Acceptance is compared with a reference reader of the documented grammar. " + _SIG,
    "C06": "Cases are documents with attributes: every short sequence of attribute pieces, random trees, lists of up "
    "to thousands of attributes, long names and values. The attributes of every element start are compared with "
    "those written. " + _SIG,
    "C07": "Cases are documents with namespace declarations: every short sequence of declaring and using pieces, random "
    "trees with declarations, redeclarations and undeclarations, in both namespace modes and with mappings "
    "made beforehand. Resolved names are compared with a reference resolver. " + _SIG,
    "C08": "Cases are documents with strings: every short sequence of string characters, every Unicode character inside "
    "a string, every number of hashes up to thousands, random trees. Content is compared with what was written. " + _SIG,
    "C09": "Cases are documents with comments: every short sequence of comment and line pieces, every Unicode character "
    "inside a comment, blocks of comment lines, random trees. Comments are compared with what was written. " + _SIG,
    "C10": _TEXTS.format("up to 70,000, thorough 200,000")
    + "The byte range of every event is compared with the place where the reference reader, or the writer of the "
    "document, has that token; with two position types. " + _SIG,
    "C11": _TEXTS.format("up to 70,000, thorough 200,000")
    + "Line and column of both ends of every span, of events and errors, are compared with a count of the newlines "
    "and characters before its offset. " + _SIG,
    "C12": _TEXTS.format("up to 70,000, thorough 200,000")
    + "Only refused texts are judged; documents with exactly one mistake put in are added. Events before the error, and "
    "kind, span, detail and message of the error, are compared with the reference reader. " + _SIG,
    "C13": "Cases are histories of interning, lookups and name making over colliding and odd strings, up to 66,000 "
    "different strings in one namespace, compared with association lists. Distinct non-trivial: number of different "
    "histories (hash of all operations) with at least one repeated string.",
    "C14": "Cases are histories of push, pop, add, add-if-unset, lookup and iteration: every short one, random long ones, "
    "and deep ones with up to 66,000 frames, compared with a list of frames. Distinct non-trivial: number of "
    "different histories (hash of all operations).",
    "C15": "Cases are single events of every kind with random contents, and documents that XML can represent: random "
    "trees in both namespace modes and large ones. Converted events are compared with the originals; the XML "
    "written is read back by xml-rs and by expat and compared with the tree. Distinct non-trivial: number of "
    "different events or XML texts.",
    "C16": "Cases are runs of the real program: random documents that XML can represent, and refused ones; by file or "
    "standard input, to standard output, a new file or an existing longer one, with and without a version. The "
    "XML is read by expat and compared with the tree; for refused texts exit status, line, number, marker and "
    "reason are compared with the reference reader. Distinct non-trivial: number of different (text, options).",
    "C17": "Cases are texts and choices of characters to escape: every Unicode character under every set, every short "
    "sequence of reference pieces, every character number in decimal and hexadecimal with zeros and wrong "
    "digits, random texts and large ones; compared with a reference implementation in both directions. "
    "Distinct non-trivial: number of different inputs that contain something to replace.",
    "C18": "Cases are texts with backslashes: every short sequence of escape pieces, every two-digit pair, every braced "
    "scalar value with up to seven digits, every Unicode character after a backslash, random texts and large "
    "ones; compared with a reference implementation. Distinct non-trivial: number of different inputs with a "
    "backslash.",
    "C19": _TEXTS.format("up to 70,000")
    + "Each is read at least twice in ways that must not matter: with another position type, another stream "
    "implementation, after other documents, with strings interned before, interleaved with another reader, and "
    "in several threads; the outcomes, the caller's mappings, and the bytes written to standard output and error "
    "are compared. Further texts are read in processes with other environment variables, locales and working "
    "directories. " + _SIG,
    "C20": "Cases are all 1,112,064 Unicode scalar values, each in up to 12 contexts (first, later and following "
    "character of tag names, attribute names and prefixes, between tokens, in comments and strings), every pair of "
    "characters at the edges of the classes, and long names; compared with the tables of XML 1.0 fifth edition. "
    "Distinct non-trivial: number of different outcomes.",
    "C21": "Cases are runs of the real program with one fault: room for only some bytes of the output, a full device, a "
    "pipe without reader, the n-th read or write failing with one of several errors (once or for good), input that "
    "is not UTF-8, missing files; and runs without fault where input and output go in small pieces. A run that ends "
    "successfully must have written every byte that the run without fault wrote. Distinct non-trivial: number of "
    "different (document, fault).",
    "C22": "Cases are events of every kind made from random parts, events that were read from random texts, histories of "
    "making names, attributes and tags and of moving attributes between lists under a changing namespace stack, long "
    "lists, and errors of every kind; every accessor is compared with what went in. Distinct non-trivial: number of "
    "different values or histories.",
    "C23": "Cases are runs of the real program in a directory of their own: unknown options, options without value or "
    "twice, versions that are not numbers, two input files, input files that cannot be read, requests for help and "
    "version, and right command lines with the options written and ordered in every way. Exit status, both outputs, "
    "and contents and times of all files are compared with those before. Distinct non-trivial: number of different "
    "(document, command line).",
    "C24": _TEXTS.format("up to 70,000, thorough 200,000")
    + "An allocator counts the bytes held: the most held at once is compared with the length of the text, and what is "
    "held after the events, the parser and the namespace are dropped with what was held before, also if reading stops "
    "halfway; while one part of a document repeats thousands of times the bytes held must not grow. The same for the "
    "escaping functions, XML events, and histories of a namespace stack. Distinct non-trivial: number of different "
    "(length, events, most bytes held), units and histories.",
    "C25": "Cases are random documents, near misses, soups, texts with one part large, texts to escape, and histories of "
    "names; each is run in five builds of the library: optimised with and without assertions, not optimised, and "
    "without the feature xml with and without assertions. Everything delivered is compared. Distinct non-trivial: "
    "number of different results.",
}

EVOLVED = (
    " In a further build, with counters on every edge and before every comparison, cases that reach something new "
    "are kept and changed to make others (evolved_texts, evolved_cases)."
)

ASSUMPTIONS = {
    "*": [
        "Nothing is proved: the verdict is about the executions counted here.",
        "The reference models of the harness are right about what is documented; lexer-rs, xml-rs and the compiler are trusted.",
    ],
    "C01": [
        "AddressSanitizer does not see accesses that stay inside other live objects; the standard library is not instrumented by it. Miri runs few and small cases.",
    ],
    "C02": [
        "Termination is judged by a budget of stream steps and events; a loop that makes neither is recognised by processor time.",
    ],
    "C07": [
        "Redeclaring xmlns and declaring one prefix twice on one element are not exercised.",
    ],
    "C15": [
        "Documents that XML cannot represent are left out: control characters, two attributes of one name, '--' in comments.",
    ],
    "C16": [
        "Documents that XML cannot represent are left out; whitespace that indentation adds around text is ignored.",
    ],
    "C17": ["References to character number 0 are not exercised."],
    "C21": [
        "A descriptor that is closed from the start is not exercised: the Rust runtime opens the null device in its place.",
    ],
    "C24": [
        "Only memory taken by the thread that reads is counted; what is made once and kept for ever is not held against it.",
    ],
    "C19": ["Schedules of threads are whatever the machine gives; Miri adds some in the thorough tier."],
}

# counters that a run must have reached for its silence to mean anything
NEEDED = {
    "C01": {"stream_steps": 1_000_000, "strings_checked": 10_000, "byte_strings_checked": 10_000},
    "C02": {"requests_after_end": 1000, "requests_after_error": 1000, "accepted": 1000},
    "C03": {"accepted": 1000, "events": 100_000},
    "C04": {"accepted": 1000, "elements": 10_000},
    "C05": {"accepted": 1000, "model_UnexpectedCloseTag": 1000, "model_UnexpectedEOF": 1000},
    "C06": {"attributes_seen": 10_000},
    "C07": {"names_with_uri": 10_000, "attributes_with_uri": 10_000, "unmapped_prefix_cases": 1000},
    "C08": {"strings_seen": 10_000},
    "C09": {"comments_seen": 10_000},
    "C10": {"spans_checked": 100_000},
    "C11": {"positions_checked": 100_000},
    "C12": {"refused_UnexpectedEOF": 1000, "refused_UnexpectedCharacter": 1000, "refused_UnexpectedTagIndent": 1000},
    "C13": {"strings_interned": 10_000, "names_refused": 100},
    "C14": {"operations": 100_000, "comparisons": 10_000},
    "C15": {"events_converted": 10_000, "documents_read_back": 1000, "documents_read_by_expat": 100},
    "C16": {"converted": 100, "refused": 100},
    "C17": {"escapes": 10_000, "replacements": 10_000},
    "C18": {"expanded": 10_000, "refused": 10_000},
    "C19": {"paired_reads": 10_000, "threaded_reads": 100, "environments": 5},
    "C20": {"contexts_checked": 1_000_000},
    "C21": {"outputs_limited": 100, "outputs_full": 50, "inputs_in_pieces": 50, "inputs_not_utf8": 20, "files_missing": 20},
    "C22": {"events_viewed": 10_000, "attributes_listed": 1000, "tags_made": 1000, "errors_made": 1000},
    "C23": {"accepted": 500, "asked": 500, "refused_unknown": 200, "refused_no_value": 200, "refused_twice": 200,
            "refused_no_number": 200, "refused_two_files": 200, "refused_no_input": 200},
    "C25": {"builds": 4, "cases_compared": 10_000},
    "C24": {"accepted": 1000, "refused": 1000, "stopped_halfway": 1000, "repeated_units": 100, "histories": 1000,
            "texts_escaped": 1000},
}
