"""What each check runs: harness, parameters (the bounds), time budget and expected reachability witnesses.
`python3 spec.py` rewrites properties.jsonl and MANIFEST.json from here."""
from collections import namedtuple

Job = namedtuple("Job", "harness params secs tier covers note")


def Q(harness, *params, secs=60, covers=2, note=""):
    return Job(harness, list(params), secs, "quick", covers, note)


def T(harness, *params, secs=600, covers=2, note=""):
    return Job(harness, list(params), secs, "thorough", covers, note)


UNIVERSAL_ASSUMPTIONS = [
    "the code decided is the LLVM IR rustc (pinned nightly, opt-level 1, overflow checks on, panic=abort, target riscv64) emits for /repo's current tree, its dependencies and std; sampled paths are re-run in a native x86-64 debug build and must agree",
    "memory allocation does not fail; getrandom yields fixed bytes and the clock is fixed at 2023-11-14T22:13:20Z; hash seeds are fixed (HashMap iteration order is not varied)",
    "memchr/memrchr/memcmp/bcmp are replaced by their bytewise specifications",
    "the engine (engine/) and z3 4.8.12 are trusted",
]

SPEC = {}


def prop(pid, title, statement, over, anyof, tests, files, mech, bounds, outside, jobs, **kw):
    SPEC[pid] = dict(title=title, statement=statement, over=over, anyof=anyof, tests=tests, files=files, mech=mech, bounds=bounds, outside=outside, jobs=jobs, **kw)


IN = ["inputs"]
KINDS = ["components", "alarms", "occurrences of a property", "X- properties", "levels", "calendar properties", "mixed sub-components"]
MANY = [Q("h_many", k, 0, 40, 1, note="0..40 " + KINDS[k]) for k in range(7)] + [Q("h_many", k, 41, 129, 0, note="round numbers of %s up to 129" % KINDS[k]) for k in (0, 1, 2)] + [Q("h_many", 3, 41, 200, 0), Q("h_many", 4, 41, 127, 0, note="round numbers of levels up to 127")]
BIG = [Q("h_many", k, 199, 513, 0, note="around 200, 256, 500 and 512 %s" % KINDS[k]) for k in (0, 1, 3, 5, 6)]
MANY += [T("h_many", k, 41, 80, 1) for k in range(7)]

prop(
    "P01",
    "Text survives the trip over the wire",
    "A text set through any typed text setter (summary, description, location, uid, venue address fields, alarm description, calendar name/description/timezone, multi-properties such as COMMENT, properties marked VALUE=TEXT) is returned unchanged by the matching getter, both directly and after the calendar has been serialized and parsed again.",
    IN, "every text setter and every text without CR (any other control or Unicode char, any length)",
    "The tests round-trip a few dozen fixed strings; escaping, folding and unescaping have to be inverse for all strings, also where an escape meets a fold.",
    ["src/properties.rs", "src/parser/parsed_string.rs", "src/parser/properties.rs", "src/parser/utils.rs", "src/components.rs", "src/calendar.rs"],
    [("escape_text / unescape_text", "src/properties.rs, src/parser/parsed_string.rs"), ("ValueType::by_name decides what is escaped and unescaped", "src/value_types.rs")],
    "all 32 text setters/getters with every string of up to 3 ASCII chars, the empty string, every single Unicode scalar value, summary with up to 5 (thorough 6) ASCII chars and 2 chars out of 17 blocks of 64 Unicode chars; summary of 50..140 chars with 2 symbolic chars at any place around the fold; texts of 10 other kinds of units (escapes, spaces, multi-byte, mixtures) of every length up to 200..600 units",
    "CR in texts; more symbolic chars",
    [
        Q("h_text_rt", 99, 1, 0, 0, 0, note="all setters, 1 ASCII char"),
        Q("h_text_rt", 99, 2, 0, 0, 0, note="all setters, 2 ASCII chars"),
        Q("h_text_rt", 99, 3, 0, 0, 0, note="all setters, 3 ASCII chars"),
        Q("h_text_rt", 99, 1, 2, 0, 0, note="all setters, 1 char"),
        Q("h_text_rt", 0, 2, 2, 0, 0, note="summary, 2 chars"),
        Q("h_text_rt", 0, 4, 0, 0, 0, note="summary, 4 ASCII chars"),
        Q("h_text_rt", 0, 5, 0, 0, 0, note="summary, 5 ASCII chars"),
        Q("h_text_rt", 0, 3, 0, 64, 3, note="summary, 64 chars, 3 ASCII chars across the fold, 3 chars"),
        Q("h_text_rt", 0, 2, 0, 66, 80, note="summary, 66 chars, 2 ASCII chars across the fold, 80 chars"),
        Q("h_text_rt", 1, 2, 0, 61, 80, note="description, 61 chars, 2 ASCII chars across the fold, 80 chars"),
        Q("h_text_rt", 5, 1, 2, 60, 70, note="to-do description, 60 chars, 1 char across the fold, 70 chars"),
        Q("h_text_rt", 99, 0, 0, 0, 0, note="all setters, empty text"),
        Q("h_text_rt", 99, 1, 1, 0, 0, note="all setters, any 1 Unicode scalar value"),
        Q("h_long", 0, 0, 0, 400, 1, note="summary of 0..400 ASCII chars"), Q("h_long", 0, 9, 0, 200, 1, note="summary of 0..200 units of mixed chars"), Q("h_long", 1, 2, 0, 600, 1, note="description"), Q("h_long", 99, 9, 0, 100, 20, note="all setters, long"), Q("h_long", 99, 0, 0, 270, 15, note="all setters, long"), Q("h_long", 0, 7, 0, 400, 1), Q("h_long", 0, 0, 400, 4097, 0), Q("h_long", 0, 9, 400, 1025, 0), Q("h_long", 16, 0, 400, 1025, 0), Q("h_long", 17, 9, 400, 1025, 0),
        T("h_long", 0, 1, 400, 1400, 1, secs=300), T("h_long", 99, 9, 0, 140, 2), T("h_long", 99, 0, 0, 300, 2),
        T("h_text_rt", 0, 6, 0, 0, 0, secs=1200, note="summary, 6 ASCII chars"),
        T("h_text_rt", 99, 4, 0, 0, 0, note="all setters, 4 ASCII chars"),
        T("h_text_rt", 99, 2, 3, 0, 0, note="all setters, 2 chars of two blocks"),
    ],
)

prop(
    "P02",
    "TEXT is written in RFC 5545 form; no text can inject structure",
    "Whatever the text, its property is written as exactly one content line whose value is the RFC 5545 TEXT encoding of the text (backslash, comma, semicolon and newline escaped, everything else verbatim), so that any conforming reader gets the same text back. No text can add, remove or change lines, properties or components of the document.",
    IN, "every text setter and every text without CR",
    "A test can only check particular strings; that no string breaks out of its line is a statement about all of them.",
    ["src/properties.rs", "src/components.rs", "src/calendar.rs", "src/value_types.rs"],
    [("escape_text", "src/properties.rs"), ("Property::fmt_write", "src/properties.rs")],
    "all 32 text setters with every string of up to 3 ASCII chars (thorough 4) and every single Unicode scalar value; summary with up to 5 ASCII chars or 2 scalar values; around folds; long texts of 10 kinds of units",
    "CR in texts (written raw); more symbolic chars",
    [
        Q("h_text_wire", 99, 1, 0, 0, 0, note="all setters, 1 ASCII char"),
        Q("h_text_wire", 99, 2, 0, 0, 0, note="all setters, 2 ASCII chars"),
        Q("h_text_wire", 99, 3, 0, 0, 0, note="all setters, 3 ASCII chars"),
        Q("h_text_wire", 99, 1, 2, 0, 0, note="all setters, 1 char"),
        Q("h_text_wire", 0, 4, 0, 0, 0, note="summary, 4 ASCII chars"),
        Q("h_text_wire", 0, 5, 0, 0, 0, note="summary, 5 ASCII chars"),
        Q("h_text_wire", 0, 2, 0, 66, 80, note="summary, 66 chars, 2 ASCII chars across the fold, 80 chars"),
        Q("h_text_wire", 99, 0, 0, 0, 0, note="all setters, empty text"),
        Q("h_text_wire", 99, 1, 1, 0, 0, note="all setters, any 1 Unicode scalar value"),
        Q("h_text_wire", 0, 2, 1, 0, 0, note="summary, any 2 Unicode scalar values"),
        Q("h_long", 0, 0, 0, 400, 1), Q("h_long", 0, 9, 0, 200, 1), Q("h_long", 99, 9, 0, 100, 20), Q("h_long", 99, 0, 0, 270, 15), Q("h_long", 0, 0, 400, 4097, 0), Q("h_long", 0, 9, 400, 1025, 0),
        T("h_long", 99, 9, 0, 140, 2), T("h_long", 99, 0, 0, 300, 2),
        T("h_text_wire", 99, 4, 0, 0, 0, note="all setters, 4 ASCII chars"),
        T("h_text_wire", 99, 2, 2, 0, 0, note="all setters, 2 chars"),
    ],
)

prop(
    "P03",
    "Lines are folded at 75 octets, between characters, without loss",
    "Every physical line written (by a calendar, a component, a property, or the parser's property type) has at most 75 octets before its CRLF, is cut only between characters, every continuation line starts with exactly one added space and carries content, and removing CRLF-plus-space yields the unfolded line again. Folding terminates for every content, including content of nothing but whitespace or multi-byte characters.",
    IN, "every property content: any length, any mix of 1- to 4-byte characters and whitespace around the fold positions",
    "Tests fold two or three fixed lines; the interplay of byte length, character boundaries and whitespace at each possible fold position is not sampled.",
    ["src/properties.rs", "src/parser/properties.rs"],
    [("fold_line", "src/properties.rs"), ("Property::fmt_write (both)", "src/properties.rs, src/parser/properties.rs")],
    "5 writers; filler of 8 kinds (1..4-byte chars, spaces, words, ideographic spaces, tabs) of every length from 0 to 240 bytes or so, followed by up to 2 symbolic chars (1 of them any Unicode scalar value) and more filler; texts of up to 4097 units; names of up to 400 chars",
    "more than 3 folds with symbolic chars; more than 3 symbolic chars",
    [Q("h_fold", 0, k, 50, 80, 1, 2, 90 if k < 5 else 30, note="Property, filler %d of 50..80 chars, 1 symbolic char, filler" % k) for k in range(1, 9)]
    + [
        Q("h_fold", 0, 1, 0, 230, 1, 0, 0, note="Property, filler of 0..230 bytes, 1 ASCII char"),
        Q("h_fold", 0, 2, 0, 120, 1, 2, 0, note="Property, filler of 0..120 2-byte chars, 1 char"),
        Q("h_fold", 0, 3, 0, 80, 1, 2, 0, note="Property, filler of 0..80 3-byte chars, 1 char"),
        Q("h_fold", 0, 4, 0, 60, 1, 2, 0, note="Property, filler of 0..60 4-byte chars, 1 char"),
        Q("h_fold", 0, 5, 0, 230, 1, 2, 0, note="Property, 0..230 spaces, 1 char"),
        Q("h_fold", 0, 7, 0, 80, 1, 2, 0, note="Property, 0..80 ideographic spaces, 1 char"),
        Q("h_fold", 0, 8, 0, 230, 1, 2, 0, note="Property, 0..230 tabs, 1 char"),
        Q("h_fold", 1, 1, 55, 75, 2, 0, 90, note="parser's Property, 55..75 bytes, 2 ASCII chars, 90 bytes"),
        Q("h_fold", 1, 3, 15, 50, 1, 2, 30, note="parser's Property, 15..50 3-byte chars, 1 char, more"),
        Q("h_fold", 2, 1, 55, 75, 2, 0, 90, note="component"),
        Q("h_fold", 2, 5, 55, 75, 1, 2, 90, note="component, spaces"),
        Q("h_fold", 3, 1, 55, 75, 2, 0, 90, note="calendar"),
        Q("h_fold", 3, 6, 55, 150, 1, 2, 30, note="calendar, words"),
        Q("h_fold", 4, 1, 40, 75, 1, 2, 90, note="long parameter"),
        Q("h_fold", 4, 3, 15, 50, 1, 2, 30, note="long parameter, 3-byte chars"),
        Q("h_fold", 0, 1, 60, 78, 1, 1, 80, note="Property, 60..78 bytes, any 1 Unicode scalar value, 80 bytes"),
        Q("h_long", 0, 1, 400, 1400, 1, note="summary of 400..1400 units"), Q("h_long", 0, 9, 0, 200, 1), Q("h_long", 0, 7, 0, 400, 1), Q("h_long", 1, 2, 0, 600, 1), Q("h_long", 99, 9, 0, 100, 20), Q("h_long_name", 200), Q("h_long_name", 400), Q("h_long", 0, 0, 400, 4097, 0), Q("h_long", 0, 1, 400, 2048, 0), Q("h_long", 0, 7, 400, 1025, 0),
        T("h_fold", 0, 1, 50, 80, 3, 0, 90, note="Property, 3 ASCII chars"),
        T("h_fold", 0, 1, 50, 80, 2, 2, 90, note="Property, 2 chars"),
        T("h_fold", 0, 3, 16, 30, 2, 2, 40, note="Property, 3-byte filler, 2 chars"),
        T("h_fold", 0, 1, 230, 900, 1, 2, 0, note="Property, filler of 230..900 bytes, 1 char"),
    ],
)

prop(
    "P04",
    "TEXT from other writers is decoded as RFC 5545 says",
    "When a TEXT value is read, each of the escapes \\\\ \\, \\; \\n \\N (and the tolerated \\:) is decoded exactly once, from left to right, so that the result of one escape never becomes part of another, and everything else is kept as it is.",
    IN, "every wire value of a TEXT property, at calendar and component level, single- and multi-valued, by name or by VALUE=TEXT",
    "Tests decode single escapes; sequences such as an escaped backslash before n need all combinations.",
    ["src/parser/parsed_string.rs", "src/parser/properties.rs"],
    [("ParseString::unescape_text", "src/parser/parsed_string.rs")],
    "every value of up to 5 (thorough 6) ASCII chars for SUMMARY, 4 for the others, 2 for all 31 TEXT names in 6 places; every value of 2 Unicode scalar values for SUMMARY, 1 for the others; long texts of units",
    "longer values",
    [
        Q("h_text_decode", 1, 0, 0), Q("h_text_decode", 2, 0, 0), Q("h_text_decode", 3, 0, 0), Q("h_text_decode", 4, 0, 0), Q("h_text_decode", 5, 0, 0),
        Q("h_text_decode", 3, 0, 1), Q("h_text_decode", 3, 0, 2), Q("h_text_decode", 3, 0, 3),
        Q("h_text_decode", 4, 0, 1), Q("h_text_decode", 4, 0, 2), Q("h_text_decode", 4, 0, 3),
        Q("h_text_decode", 2, 2, 0), Q("h_text_decode", 2, 2, 1), Q("h_text_decode", 2, 3, 2), Q("h_text_decode", 2, 3, 3),
        Q("h_text_decode", 0, 0, 0), Q("h_text_decode", 0, 0, 1), Q("h_text_decode", 0, 0, 2), Q("h_text_decode", 0, 0, 3), Q("h_text_decode", 1, 1, 0), Q("h_text_decode", 2, 1, 0, secs=120), Q("h_text_decode", 1, 1, 1), Q("h_text_decode", 1, 1, 2), Q("h_text_decode", 1, 1, 3),
        Q("h_vt_text", 2, 0, note="all 31 TEXT names in 6 places"), Q("h_long", 0, 9, 0, 200, 1), Q("h_long", 0, 7, 0, 400, 1),
        T("h_text_decode", 6, 0, 0, secs=1200), T("h_text_decode", 5, 0, 1), T("h_text_decode", 3, 2, 0),
    ],
)

prop(
    "P05",
    "Unfolding removes exactly the folds",
    "Unfolding removes every line break (LF or CRLF) that is immediately followed by a space or a tab, together with that one character, and changes nothing else.",
    IN, "every text",
    "Tests unfold a handful of fixed texts.",
    ["src/parser/utils.rs", "src/parser/mod.rs"],
    [("unfold", "src/parser/utils.rs")],
    "every text of up to 8 (thorough 10) ASCII chars, of up to 3 Unicode scalar values, of 4 chars of 17 Unicode blocks",
    "longer texts",
    [
        Q("h_unfold", 0, 0, covers=0), Q("h_unfold", 1, 0, covers=0), Q("h_unfold", 2, 0), Q("h_unfold", 3, 0), Q("h_unfold", 4, 0), Q("h_unfold", 5, 0), Q("h_unfold", 6, 0), Q("h_unfold", 7, 0),
        Q("h_unfold", 3, 1), Q("h_unfold", 3, 2), Q("h_unfold", 8, 0), Q("h_unfold", 4, 2), Q("h_unfold", 2, 1),
        T("h_unfold", 9, 0), T("h_unfold", 10, 0, secs=900),
    ],
)

prop(
    "P06",
    "Property parameters survive the trip over the wire",
    "Parameters set on a property (any value without double quotes and control characters, including colons, semicolons, commas, spaces and non-ASCII text) come back with the same names and values after serializing and parsing, at calendar, component, multi-property and alarm level, and an RFC 5545 reader sees the same names and values and an unchanged property value. Quoted and unquoted parameter values of other writers are read as RFC 5545 says.",
    IN, "every parameter name and value, alone or among others, on any property",
    "Tests use a few fixed parameters; quoting decisions depend on every char of the value.",
    ["src/properties.rs", "src/parser/parameters.rs", "src/parser/properties.rs", "src/components.rs"],
    [("quote_if_contains_colon", "src/properties.rs"), ("parameters / parameter parser", "src/parser/parameters.rs")],
    "5 levels, 4 property names, values of up to 3 ASCII chars, 1 Unicode scalar value or 2 of the 17 Unicode blocks, up to 3 symbolic and up to 257 fixed other parameters; lists of up to 3 values of which any are quoted, folded parameters of 50..120 chars; names of up to 3 chars; quoted and unquoted values of up to 3 chars in two positions",
    "double quotes and control characters in values; the list meaning of commas in parameter values",
    [Q("h_param_rt", 5, n, 2, 0, 0, 0, note="all levels, name %d, 2 ASCII chars" % n) for n in range(4)]
    + [
        Q("h_param_rt", 5, 0, 1, 2, 0, 0, note="all levels, 1 char"),
        Q("h_param_rt", 5, 2, 1, 2, 2, 0, note="all levels, 1 char, 2 other parameters"),
        Q("h_param_rt", 5, 0, 3, 0, 0, 0, note="all levels, 3 ASCII chars"),
        Q("h_param_rt", 5, 1, 0, 0, 3, 0, note="empty value among 3 others"),
        Q("h_param_rt", 1, 0, 2, 2, 0, 0, note="event, 2 chars"),
        Q("h_param_rt", 5, 0, 2, 0, 3, 0, note="3 other parameters"),
        Q("h_param_rt", 5, 0, 2, 0, 1, 50, note="folded"),
        Q("h_param_rt", 5, 2, 1, 2, 0, 120, note="folded twice"),
        Q("h_param_key", 1), Q("h_param_key", 2), Q("h_param_key", 3),
        Q("h_param_venue", 2, 0), Q("h_param_venue", 1, 2),
        Q("h_param_read", 2, 0, 0, 0), Q("h_param_read", 2, 0, 1, 0), Q("h_param_read", 2, 0, 1, 1), Q("h_param_read", 2, 0, 0, 1), Q("h_param_read", 1, 2, 1, 0), Q("h_param_read", 3, 0, 1, 0), Q("h_param_read", 0, 0, 1, 0), Q("h_param_read", 0, 0, 1, 1), Q("h_param_read", 0, 0, 0, 0),
        Q("h_param_list", 2, 1, 0, covers=6, note="lists of 2 values"), Q("h_param_list", 3, 1, 0, covers=6), Q("h_param_list", 2, 2, 0, covers=6), Q("h_param_list", 2, 1, 1, covers=6), T("h_param_list", 3, 2, 0, covers=6), T("h_param_list", 4, 1, 0, covers=6),
        Q("h_param_rt", 5, 0, 1, 1, 0, 0, note="all levels, any 1 Unicode scalar value"), Q("h_param_read", 1, 1, 1, 0), Q("h_param_venue", 1, 1),
        Q("h_many_params", 0, 30, 1, 0, note="0..30 parameters"), Q("h_many_params", 0, 30, 1, 1), Q("h_many_params", 0, 30, 1, 2), Q("h_many_params", 31, 80, 1, 0), Q("h_many_params", 99, 257, 0, 0), Q("h_many_params", 99, 257, 0, 1), Q("h_long_name", 200),
        T("h_param_rt", 5, 0, 4, 0, 0, 0), T("h_param_rt", 5, 0, 2, 2, 0, 0), T("h_param_key", 4), T("h_param_read", 3, 2, 1, 0), T("h_param_read", 4, 0, 0, 0),
    ],
)

prop(
    "P07",
    "Parsed documents are written back to the same tree",
    "Whatever document has been parsed, writing the parsed representation (calendar, component or single property) and parsing that again gives an equal tree: same components in the same order, same properties in the same order, same names, values and parameters.",
    IN, "every document accepted by the parser, with TEXT and non-TEXT values, parameters, value-less parameters and nested components",
    "Tests compare a few fixture files; escaping on this second writer has to match the reader for all values.",
    ["src/parser/properties.rs", "src/parser/components.rs", "src/parser/calendar.rs", "src/parser/parameters.rs"],
    [("parser Property::fmt_write", "src/parser/properties.rs"), ("LikeComponent::fmt_write", "src/parser/components.rs")],
    "12 document skeletons (among them every list of 3 parameters, and of 4 properties and alarms, of which any may be the same) with up to 3 symbolic ASCII chars at the interesting place (value, parameter, name), 1 Unicode scalar value; component names with up to 2 chars more or fewer than known ones; up to 40 (each) and 200 (round) components, alarms, properties, levels",
    "double quotes inside quoted parameters, control characters",
    [Q("h_reser", k, 1, 0) for k in range(10)] + [Q("h_reser", k, 2, 0) for k in range(10)] + [Q("h_reser", k, 1, 2) for k in range(8)]
    + [Q("h_reser", 10, 1, 0), Q("h_reser", 11, 1, 0)] + [Q("h_reser", k, 3, 0) for k in (0, 2, 4, 5, 6)] + [Q("h_reser", k, 0, 0) for k in (0, 1)] + [Q("h_reser", k, 1, 1, secs=120) for k in (0, 1, 5, 6, 7)]
    + [Q("h_reser_kind", n, covers=2) for n in (1, 2)] + MANY + BIG + [Q("h_long", 0, 9, 0, 200, 1), Q("h_prop_name", 2, 0)]
    + [T("h_reser", k, 3, 0) for k in (1, 3, 7, 8, 9)] + [T("h_reser", k, 4, 0) for k in (0, 4)] + [T("h_reser", k, 2, 2) for k in (0, 2, 5)],
)

prop(
    "P08",
    "No input makes the library panic or hang",
    "Reading any text through any entry point (calendar, component, property and parameter parsers, unfolding, JSON aside), reading every typed getter of what was parsed, converting it and writing it back returns normally: it never panics, overflows, or fails to terminate.",
    IN, "every text",
    "Robustness against all inputs cannot be sampled; the crash inputs in the tests were found one by one.",
    ["src/parser/components.rs", "src/parser/properties.rs", "src/parser/parameters.rs", "src/parser/utils.rs", "src/properties.rs", "src/components/date_time.rs", "src/components/alarm.rs"],
    [("nom parsers", "src/parser/*.rs"), ("fold_line", "src/properties.rs"), ("typed getters returning Option", "src/components.rs, src/components/*.rs")],
    "14 document skeletons with up to 4 symbolic ASCII chars or 1-2 chars of the 17 Unicode blocks at the interesting place, through all readers; numbers of up to 30 digits in 15 places; many components, levels (up to 4000), properties",
    "more symbolic chars; several symbolic places",
    [Q("h_total", 0, n, 0, 1, note="%d ASCII chars" % n) for n in (0, 1, 2, 3, 4)]
    + [Q("h_total", k, 2, 0, 1, note="skeleton %d, 2 ASCII chars" % k) for k in range(1, 14)]
    + [Q("h_total", k, 1, 2, 1, note="skeleton %d, 1 char" % k) for k in range(0, 14)]
    + [Q("h_total", k, 3, 0, 0, note="skeleton %d, 3 ASCII chars" % k) for k in (1, 6, 7, 13)]
    + [Q("h_total", 5, 1, 1, 1, note="skeleton 5, any 1 Unicode scalar value")] + [Q("h_total_num", 15, 0, 30, note="numbers of up to 30 digits in 15 places", covers=2)] + MANY + [Q("h_deep", n, note="%d nested components" % n) for n in (50, 128, 129, 4000)]
    + [T("h_total_num", 15, 31, 80, covers=2)] + [T("h_total", k, 3, 0, 1) for k in range(1, 14)] + [T("h_total", k, 2, 2, 0) for k in range(0, 14)] + [T("h_total", 0, 5, 0, 0)],
)

prop(
    "P09",
    "Component structure survives the trip over the wire",
    "After serializing and parsing, a calendar has the same components of the same kinds in the same order, each with the same properties and the same sub-components (alarms, or unknown components nested to any depth up to the 128 levels the reader accepts) in the same order; nothing is lost, duplicated or moved to another component. A component is of a typed kind (event, to-do, venue) exactly if its name is that kind's; any other keeps its name.",
    ["inputs", "histories"], "every tree of components",
    "Tests have one or two components at a time.",
    ["src/parser/components.rs", "src/calendar/calendar_component.rs", "src/components.rs", "src/components/other.rs", "src/components/alarm.rs"],
    [("From<Component> for CalendarComponent", "src/parser/components.rs"), ("Component::fmt_write", "src/components.rs")],
    "calendars of up to 4 components of 4 kinds with up to 3 alarms each; nesting of unknown components to depth 6 with up to 2 children per level; every sequence of up to 6 (thorough 7) BEGIN, END and property lines over 4 kinds, empty components included; 9 component names with up to 4 chars more, one fewer, or one changed; up to 40 (each) and 512 (round) components, alarms and sub-components, 127 levels; alarms that are all the same",
    "wider or deeper trees; more than 128 levels (refused by the reader)",
    [
        Q("h_struct", 2, 2, 1, note="up to 2 components, 2 alarms, extra properties"), Q("h_struct", 4, 1, 0, note="up to 4 components, 1 alarm"), Q("h_struct", 1, 4, 1, note="1 component, up to 4 alarms"), Q("h_struct", 5, 0, 0, note="up to 5 components"),
        Q("h_tree", 5), Q("h_tree", 6, note="every tree of up to 6 lines"), Q("h_kind", 4), T("h_tree", 7),
        Q("h_nest", 4, 1, 1), Q("h_nest", 4, 2, 0), Q("h_nest", 8, 1, 0), Q("h_nest", 2, 2, 2),
        Q("h_children", 1, 0), Q("h_children", 1, 1, secs=120), *MANY, *BIG, Q("h_multi", 11, 2, 1),
        T("h_struct", 3, 2, 1), T("h_struct", 6, 0, 0), T("h_nest", 5, 2, 0), T("h_nest", 12, 1, 1),
    ],
)

prop(
    "P10",
    "Repeatable properties keep every occurrence, in order",
    "Properties that RFC 5545 allows more than once (ATTACH, ATTENDEE, CATEGORIES, COMMENT, CONTACT, EXDATE, RDATE, RELATED-TO, REQUEST-STATUS, RESOURCES, FREEBUSY) are kept in full when read: every occurrence, with its value and parameters, in document order. Multi-properties added in code are written one line each, in order, and no single-valued property is affected.",
    ["inputs", "histories"], "every number and order of occurrences",
    "Tests have two occurrences of one or two names.",
    ["src/parser/properties.rs", "src/parser/components.rs", "src/components.rs"],
    [("MULTIS / is_multi_property", "src/parser/properties.rs"), ("insert_multi", "src/components.rs")],
    "each of the 11 names, up to 5 occurrences (each new or equal to the one before) interleaved with other properties, in events, to-dos, alarms and unknown components, values with a symbolic char; up to 1025 occurrences; up to 4 multi-properties in code",
    "more occurrences",
    [Q("h_multi", 11, 2, 1), Q("h_multi", 11, 3, 0), Q("h_multi", 1, 5, 0), Q("h_multi", 3, 3, 1), Q("h_multi_build", 2, 1), Q("h_multi_build", 4, 0), Q("h_multi", 11, 1, 2), Q("h_many", 2, 0, 40, 1, note="0..40 occurrences"), Q("h_many", 2, 41, 129, 0), Q("h_many", 2, 199, 1025, 0), Q("h_tree", 5),
     T("h_multi", 11, 4, 0), T("h_multi", 11, 3, 1), T("h_multi_build", 5, 0), T("h_multi_build", 3, 1)],
)

prop(
    "P11",
    "Value types decide what is escaped, by RFC 5545's table",
    "The value type of a property is its VALUE parameter if that names one of the fourteen RFC 5545 types, and otherwise the default of its name; exactly the properties of type TEXT are escaped when written and decoded when read, by all writers and readers, all others are written and read verbatim. The names of the fourteen value types convert both ways, and nothing else is taken for one.",
    IN, "every property name, every VALUE parameter, every value",
    "Tests check three or four names; one wrong table entry silently corrupts that property only.",
    ["src/value_types.rs", "src/properties.rs", "src/parser/properties.rs", "src/parser/parsed_string.rs"],
    [("ValueType::by_name, FromStr, From<ValueType> for Parameter", "src/value_types.rs, src/properties.rs"), ("determin_value_type", "src/parser/properties.rs")],
    "31 TEXT names, 32 other names in 6 places, values of 2 ASCII chars or 1 Unicode scalar value; names of up to 2 free chars; VALUE= each of 14 types and 3 unknown ones on 4 names; type names of up to 6 chars; all these names with one char changed, added or dropped anywhere, two swapped, cut short or doubled",
    "commas in CATEGORIES and RESOURCES (lists)",
    [Q("h_vt_text", 1, 0), Q("h_vt_text", 2, 0), Q("h_vt_text", 3, 0), Q("h_vt_text", 1, 2), Q("h_vt_other", 1, 0), Q("h_vt_other", 2, 0), Q("h_vt_other", 1, 2), Q("h_vt_param", 1, 0, covers=6), Q("h_vt_param", 2, 2, covers=6), Q("h_vt_names", 3, covers=6), Q("h_vt_names", 5, covers=6), Q("h_vt_near"), Q("h_vt_text", 0, 0), Q("h_vt_other", 0, 0), Q("h_vt_text", 1, 1), Q("h_vt_other", 1, 1), Q("h_prop_name", 1, 0), Q("h_prop_name", 2, 0), Q("h_prop_name", 0, 1),
     T("h_vt_text", 4, 0), T("h_vt_text", 2, 3), T("h_vt_other", 3, 0), T("h_vt_other", 2, 3), T("h_vt_param", 3, 0, covers=6)],
)

WRITERS = ["calendar", "event", "to-do", "venue", "unknown component", "alarm", "parsed calendar", "parsed property"]
prop(
    "P30",
    "A writer's refusal is reported, and nothing is written after it",
    "Writing a calendar, component, alarm, or a parsed calendar or property into a writer that refuses, at whatever call or size, returns an error, and what the writer took until then is the beginning of what is written to one that refuses nothing; nothing is left out, reordered or written after the refusal. A writer that refuses nothing gets all of it, and no error is returned.",
    ["fault_sequences", "inputs"], "every point of refusal, lasting or not, and every text",
    "Tests write into strings, which never refuse.",
    ["src/calendar.rs", "src/components.rs", "src/properties.rs", "src/parser/calendar.rs", "src/parser/components.rs", "src/parser/properties.rs"],
    [("fmt_write (all of them)", "src/calendar.rs, src/components.rs, src/properties.rs, src/parser/*.rs")],
    "8 writers; refusal from every call on, at every single call, and at every size; texts of 1 (thorough 2) ASCII chars; documents of up to 3 components with alarms, folded and repeated properties and parameters",
    "larger documents; writers that take part of what they are given",
    [Q("h_refuse", w, 1, h, note="%s, refusing %s" % (WRITERS[w], ["from some call on", "one call", "above some size"][h])) for w in range(8) for h in range(3)]
    + [T("h_refuse", w, 2, h) for w in range(8) for h in range(3)],
)

YEARS = "every year from 0 to 9999"
prop(
    "P12",
    "Dates and times keep their value and form",
    "Start, end, due, all-day dates, DTSTAMP, CREATED, LAST-MODIFIED and COMPLETED are written in the RFC 5545 form of what they are (UTC with Z, floating, local time with TZID, VALUE=DATE) and come back as the same value of the same form, before and after serializing and parsing. Values of other writers in these forms are decoded exactly, and impossible dates and times yield none.",
    IN, "every date and time of the years 0 to 9999, in each of the forms, and any time zone name without double quotes",
    "Tests use a handful of instants.",
    ["src/components/date_time.rs", "src/components.rs", "src/components/todo.rs"],
    [("CalendarDateTime::{from,to}_property", "src/components/date_time.rs"), ("DatePerhapsTime::{from,to}_property", "src/components/date_time.rs"), ("parse_utc_date_time, format_utc_date_time", "src/components/date_time.rs")],
    YEARS + " (12 forms), every day of 2023, 2024, 1900 and 2000, every hour and minute, every second, combinations of extreme values; reading: every digit string of month and day, of the time, and of two digits of the year; one character replaced by any other",
    "seconds fractions, leap seconds; white space and signs inside numbers, numbers of one digit (chrono accepts them)",
    [
        Q("h_dt", 9, 4, 2024, note="12 forms, extreme values"), Q("h_dt", 9, 5, 0, note="12 forms, every year"), Q("h_dt", 9, 0, 2024, note="12 forms, every day of 2024"), Q("h_dt", 9, 0, 2023, note="12 forms, every day of 2023"),
        Q("h_dt", 2, 0, 1900), Q("h_dt", 0, 0, 2000), Q("h_dt", 0, 2, 2024), Q("h_dt", 1, 2, 2024), Q("h_dt", 3, 2, 2024), Q("h_dt", 9, 3, 2024, note="12 forms, every second"),
        Q("h_dt_utc", 4, 2024), Q("h_dt_utc", 5, 0), Q("h_dt_utc", 0, 2024), Q("h_dt_utc", 2, 2024), Q("h_dt_utc", 3, 2024),
        Q("h_dt_read", 0, 9, 14, covers=6, note="UTC, every digit of the time"), Q("h_dt_read", 1, 9, 14, covers=6), Q("h_dt_read", 3, 9, 14, covers=6),
        Q("h_dt_read", 0, 4, 5, covers=6, note="UTC, every month"), Q("h_dt_read", 1, 6, 7, covers=6), Q("h_dt_read", 2, 4, 5, covers=6), Q("h_dt_read", 2, 6, 7, covers=6), Q("h_dt_read", 3, 6, 7, covers=6), Q("h_dt_read", 2, 3, 3, covers=6), Q("h_dt_read", 0, 1, 1, covers=2),
        Q("h_dt_bad", 0), Q("h_dt_bad", 1), Q("h_dt_bad", 2),
        T("h_dt", 0, 6, 1900, secs=900, note="UTC, every day of 256 years"), T("h_dt", 2, 6, 2000, secs=900, note="date, every day of 256 years"), T("h_dt", 9, 2, 1999, secs=900),
        T("h_dt_read", 2, 2, 3, covers=6), T("h_dt_read", 0, 4, 7, covers=6), T("h_dt_read", 2, 4, 7, covers=6), T("h_dt_read", 2, 0, 3, covers=6, secs=1200),
    ],
)

prop(
    "P13",
    "Alarm triggers, durations and repetition keep their meaning",
    "A relative trigger of any sign and relation, an absolute trigger (UTC, floating or with TZID), and an alarm's action, description, duration and repeat count are written in RFC 5545 form and mean the same when read back. RFC 5545 durations of other writers (weeks, days, hours, minutes, seconds, either sign) are read as exactly that many seconds, with their relation, and what does not begin like a duration, or has another property name or value type, is no trigger.",
    IN, "every duration of whole seconds below 2^32 seconds, either sign, every relation, every date-time, every repeat count",
    "Tests have two or three durations.",
    ["src/components/alarm.rs", "src/components/date_time.rs", "src/properties.rs"],
    [("Trigger <-> Property", "src/components/alarm.rs"), ("parse_duration", "src/components/date_time.rs")],
    "durations of 0..65535 and up to 2^32-1 seconds, 0..65535 minutes, 0..4095 hours, 0..49407 days, 0..6911 weeks, both signs, 7 ways to build a trigger; 12 shapes of duration with up to 4 digits per number; 11 forms of absolute triggers, every year; counts up to 2^32-1",
    "fractions of seconds, months and years (no RFC 5545 durations), trailing characters after a duration",
    [
        Q("h_trigger", 0, 256, 0, note="0..65535 s"), Q("h_trigger", 4294901760, 256, 0, note="the 65536 durations below 2^32 s"), Q("h_trigger", 0, 256, 1), Q("h_trigger", 0, 16, 2), Q("h_trigger", 0, 193, 3), Q("h_trigger", 0, 27, 4),
        Q("h_trigger_abs", 8, 4, 2024), Q("h_trigger_abs", 8, 5, 0), Q("h_trigger_abs", 8, 0, 2024), Q("h_trigger_abs", 8, 3, 2024),
        Q("h_dur_read", 0, 2), Q("h_dur_read", 0, 3), T("h_dur_read", 0, 4), Q("h_dur_read", 1, 2), Q("h_dur_read", 2, 1), Q("h_dur_read", 3, 2), Q("h_dur_read", 4, 3), Q("h_dur_read", 5, 4), Q("h_dur_read", 6, 1), Q("h_dur_read", 7, 1), Q("h_dur_read", 8, 1), Q("h_dur_read", 9, 1), Q("h_dur_read", 10, 1), Q("h_dur_read", 11, 1), Q("h_dur_read", 11, 2),
        Q("h_dur_bad", 2, 0), Q("h_dur_bad", 1, 2),
        Q("h_alarm", 0, 8, 0, 8), Q("h_alarm", 0, 1, 4294967040, 1), Q("h_alarm", 65280, 16, 256, 1),
        T("h_dur_read", 1, 4), T("h_dur_read", 6, 2), T("h_dur_read", 7, 2), T("h_dur_read", 8, 2), T("h_dur_read", 9, 2), T("h_dur_read", 10, 2), T("h_dur_bad", 3, 0), T("h_trigger", 65536, 256, 0), T("h_trigger", 2147418112, 256, 0),
    ],
)

prop(
    "P14",
    "Calendar name, description, time zone and refresh interval",
    "Calendar name, description, time zone and refresh interval are written to both of their properties and read from either of them, the standard one first, wherever it stands among the calendar's properties and whatever its value; properties of other names or of components are never taken for them. Setting one again replaces both of its properties and nothing else. An unreadable REFRESH-INTERVAL falls back to X-PUBLISHED-TTL, and the VERSION, PRODID and CALSCALE of a new calendar are kept.",
    IN, "every value, every combination of present properties, every non-negative duration of whole seconds below 2^32",
    "Tests have one value each.",
    ["src/calendar.rs"],
    [("Calendar::{name,description,timezone,ttl} and their getters", "src/calendar.rs")],
    "10 histories of the two properties (absent, set, read, set again) x 3 kinds x neighbours, values of up to 3 ASCII chars or 1 Unicode scalar value; intervals of 0..65535 s, below 2^32 s, minutes, hours, days, weeks",
    "longer symbolic values",
    [Q("h_meta", 0, 0), Q("h_meta", 1, 0), Q("h_meta", 2, 0), Q("h_meta", 1, 2), Q("h_meta", 3, 0), Q("h_meta", 1, 1),
     Q("h_ttl", 0, 256, 0), Q("h_ttl", 4294901760, 256, 0), Q("h_ttl", 0, 256, 1), Q("h_ttl", 0, 16, 2), Q("h_ttl", 0, 193, 3), Q("h_ttl", 0, 27, 4), Q("h_dur_bad", 2, 0), Q("h_dur_read", 2, 1),
     T("h_meta", 2, 2), T("h_meta", 4, 0)],
)

prop(
    "P15",
    "Numbers, status and class keep their value",
    "Priority (clamped to 10), sequence, percent-complete, status and class come back as they were set, with the names RFC 5545 gives them, before and after serializing and parsing. Integers of other writers are read exactly, and numbers out of range, non-numbers and unknown names yield none.",
    IN, "every u32 priority and sequence, every percentage 0 to 100, every status and class, every other text",
    "Tests have one value each.",
    ["src/components.rs", "src/components/todo.rs", "src/components/event.rs", "src/properties.rs"],
    [("priority/sequence/percent_complete and getters", "src/components.rs, src/components/todo.rs"), ("Class/EventStatus/TodoStatus from_str and From for Property", "src/properties.rs")],
    "numbers 0..65535 and the 65536 highest; strings of up to 4 printable chars and of 5 digits; numbers around 2^32; names of up to 5 chars, and the 9 known ones with one char changed, added or dropped",
    "signs; percentages above 100",
    [Q("h_num_set", 0, 0, 256), Q("h_num_set", 1, 0, 256), Q("h_num_set", 2, 0, 256), Q("h_num_set", 0, 4294901760, 256), Q("h_num_set", 2, 4294901760, 256),
     Q("h_num_get", 1, 0), Q("h_num_get", 2, 0), Q("h_num_get", 3, 0), Q("h_num_get", 2, 1), Q("h_num_get", 2, 2), Q("h_num_get", 1, 3), Q("h_num_get", 2, 3), Q("h_num_get", 3, 3), Q("h_num_get", 4, 3), Q("h_num_get", 2, 4), Q("h_num_get", 5, 0),
     Q("h_enum_set"), Q("h_enum_get", 0), Q("h_enum_get", 1, 4), Q("h_enum_get", 1, 5),
     T("h_num_get", 5, 3), T("h_num_get", 6, 0), T("h_enum_get", 1, 6)],
)

prop(
    "P16",
    "Every component is written with exactly one UID and DTSTAMP",
    "Each component is written with exactly one UID and exactly one DTSTAMP: the user's if it has been set (whatever it is), a generated one otherwise, and generated ones do not change the component itself. Generated UIDs have the form of a UUID and differ from each other; a generated DTSTAMP is the current time in UTC form.",
    IN, "every kind of component, with and without UID and DTSTAMP, any UID",
    "Tests check one event.",
    ["src/components.rs"],
    [("Component::fmt_write", "src/components.rs")],
    "5 kinds of components x presence of UID and DTSTAMP, UIDs of up to 3 chars; calendars of up to 4 components with up to 2 alarms; up to 60 components",
    "generated UIDs across processes (the random source is a fixed counter-like stream)",
    [Q("h_stamp", 5, 0), Q("h_stamp", 5, 1), Q("h_stamp", 5, 2), Q("h_stamp", 5, 3), Q("h_generated", 3, 2), Q("h_generated", 4, 1), Q("h_many_ops", 0, 60, 1, note="0..60 components"), T("h_stamp", 5, 4)],
)

prop(
    "P17",
    "Line endings do not matter",
    "A document means the same whether each of its lines ends in LF or CRLF, in any mixture, with blank lines between, before and after components, and with or without a line ending after the last line. A property value is everything between its colon and the line ending, wherever a lone CR or other odd character occurs in it.",
    IN, "every assignment of line endings to lines",
    "Tests have documents of one kind of line ending.",
    ["src/parser/utils.rs", "src/parser/properties.rs", "src/parser/components.rs"],
    [("line, line_separated, line_ending", "src/parser/utils.rs"), ("property", "src/parser/properties.rs")],
    "6 documents of 7 lines x every assignment of LF/CRLF x up to 6 blank lines at any one place between lines, or up to 3 before and up to 6 after the document; values of up to 4 ASCII chars, 2 Unicode scalar values x 3 line endings",
    "other documents",
    [Q("h_eol", d, b, 0) for d in range(6) for b in (0, 1, 2)] + [Q("h_eol", d, 1, 99) for d in range(6)] + [Q("h_eol_value", 0, 0, e) for e in range(3)] + [Q("h_eol_value", n, 1, e) for n in (1, 2) for e in range(3)] + [Q("h_eol_value", n, 0, e) for n in (1, 2, 3) for e in range(3)] + [Q("h_eol_value", 2, 2, e) for e in range(3)]
    + [T("h_eol_value", 4, 0, e) for e in range(3)],
)

prop(
    "P18",
    "Where a document is folded does not matter",
    "Inserting a fold (line break plus space or tab, LF or CRLF) between any two characters of any line of a document does not change what is read from it.",
    IN, "every fold position",
    "Tests have documents folded at one place.",
    ["src/parser/utils.rs", "src/parser/calendar.rs", "src/parser/components.rs", "src/calendar/calendar_component.rs"],
    [("unfold before parsing", "src/parser/calendar.rs, src/parser/components.rs")],
    "6 documents x 1 fold at every position, x 2 folds at every pair of positions",
    "folds inside of a multi-byte char",
    [Q("h_foldpos", 0, 1), Q("h_foldpos", 1, 1), Q("h_foldpos", 2, 1), Q("h_foldpos", 0, 2), Q("h_foldpos", 1, 2), Q("h_foldpos", 2, 2)] + [Q("h_foldpos", d, k) for d in (3, 4, 5) for k in (1, 2)],
)

prop(
    "P19",
    "All root components of a document are read, in order",
    "A text of any number of root components, with or without blank lines between them, is read completely: each root, of whatever kind, in order, with its properties. (A VCALENDAR root that comes first is the calendar itself.)",
    ["inputs", "histories"], "every sequence of root components",
    "Tests have one root.",
    ["src/parser/mod.rs", "src/parser/components.rs", "src/parser/calendar.rs"],
    [("components", "src/parser/components.rs"), ("read_calendar", "src/parser/mod.rs")],
    "every sequence of up to 3 (thorough 4) roots of 4 kinds, LF or CRLF each, blank lines; 0..40 and round numbers up to 1025 roots",
    "roots after a first VCALENDAR (dropped by design)",
    [Q("h_roots", 0), Q("h_roots", 1), Q("h_roots", 2), Q("h_roots", 3)] + [Q("h_many_roots", 0, 40, 1, e) for e in (0, 1)] + [Q("h_many_roots", 31, 1025, 0, e) for e in (0, 1)] + [T("h_roots", 4)],
)

prop(
    "P20",
    "A calendar behaves as a sequence of components",
    "Through any history of push, append, extend, collect, done and serialize/parse, a calendar holds exactly the components that were put in, in order and of their kinds; len, is_empty, iteration and slices agree with that; appended calendars are left empty and their calendar properties are not taken over; done moves everything out; the calendar's own properties stay.",
    ["histories"], "every sequence of operations",
    "Tests call each operation once.",
    ["src/calendar.rs", "src/calendar/calendar_component.rs"],
    [("Calendar::{push,append,extend,done}, From, FromIterator, Deref, AsRef", "src/calendar.rs")],
    "6 constructors followed by every sequence of up to 4 (thorough 5) of 9 operations; up to 270 components pushed, appended, extended",
    "longer histories",
    [Q("h_ops", 1), Q("h_ops", 2), Q("h_ops", 3), Q("h_ops", 4), Q("h_many_ops", 0, 60, 1), Q("h_many_ops", 0, 270, 3), T("h_ops", 5)],
)

prop(
    "P21",
    "Values that are not TEXT pass through verbatim",
    "Values of URLs, recurrence rules, coordinates, addresses, attachments and X- or unknown properties are written exactly as they were set and read back exactly as they were written, including backslashes, commas, semicolons, quotes and non-ASCII characters, at calendar and component level.",
    IN, "every value without line breaks",
    "Tests have two or three URLs.",
    ["src/properties.rs", "src/parser/properties.rs", "src/components.rs"],
    [("Property::fmt_write", "src/properties.rs"), ("property", "src/parser/properties.rs")],
    "values of up to 3 ASCII chars, 1 Unicode scalar value and 2 of the 17 Unicode blocks, in 4 contexts, in 10 properties; 32 names in 6 places",
    "line breaks in such values",
    [Q("h_verbatim", 1, 0), Q("h_verbatim", 2, 0), Q("h_verbatim", 3, 0), Q("h_verbatim", 1, 2), Q("h_verbatim", 2, 2), Q("h_vt_other", 1, 0), Q("h_vt_other", 1, 2), Q("h_verbatim", 0, 0), Q("h_vt_other", 0, 0), Q("h_verbatim", 1, 1), Q("h_vt_other", 1, 1), Q("h_prop_name", 1, 0), Q("h_prop_name", 2, 0), Q("h_prop_name", 0, 1), T("h_verbatim", 4, 0), T("h_vt_other", 3, 0)],
)

prop(
    "P22",
    "Local times convert to UTC by the zone's rules, or not at all",
    "Converting a date-time to UTC gives the very instant for UTC values, nothing for floating ones, and for values with a time zone the instant the zone's rules assign to that local time; local times that are skipped or that occur twice, and unknown zones, yield nothing rather than a guess. Building a date-time from a zoned instant, or from a local time and a zone, names that zone and keeps its local time, and impossible dates yield none.",
    IN, "every local time, every zone",
    "Tests convert one or two instants.",
    ["src/components/date_time.rs"],
    [("try_into_utc, from_ymd_hm_tzid, from_date_time, From<(NaiveDateTime, Tz)>", "src/components/date_time.rs")],
    "12 cases (both clock changes of Berlin, New York and Lord Howe; Apia's skipped day; Kathmandu's change of 1986; fixed offsets) x every minute of 4 days around; 13 unknown zones; every date and time of 1900..2100 with months 0..13, days 0..32, hours 0..24, minutes 0..60",
    "other zones (the data are chrono-tz's)",
    [Q("h_utc", 12, 3072, 24, covers=6), Q("h_utc", 12, 128, 1, covers=6), Q("h_utc_unknown"), Q("h_tz_build", 4, 2024), Q("h_tz_build", 0, 2024), Q("h_tz_build", 2, 2024), Q("h_tz_build", 5, 0), Q("h_tz_bad", covers=6), Q("h_tz_moment", 4, 2024), Q("h_tz_moment", 0, 2024), Q("h_tz_moment", 2, 2024), Q("h_tz_moment", 5, 0),
     Q("h_utc_zones", 0, 700, 6, covers=6, note="every zone of chrono-tz, every 6th day"),
     T("h_utc_zones", 0, 700, 1, covers=6), T("h_utc", 12, 16384, 128, covers=6)],
)

prop(
    "P23",
    "All conversions of dates agree",
    "The date or date-time obtained from a parsed property directly is the one the typed getters return for the same line, for every valid value in UTC, floating, zoned and date form, and the plain date extracted from it (either way) is the date that was written.",
    IN, "every valid date and date-time value, with its form's parameters",
    "Tests check each conversion on one value.",
    ["src/components/date_time.rs"],
    [("TryFrom<&parser::Property> for DatePerhapsTime", "src/components/date_time.rs"), ("from_property, date_naive, From<DatePerhapsTime> for NaiveDate", "src/components/date_time.rs")],
    "digit strings of month and day, of the time, of two digits of the year, in 4 forms; typed values of every year and of every day of 2024 in 12 forms",
    "date values without VALUE=DATE; UTC values with TZID",
    [Q("h_dt_read", f, 9, 14, covers=6) for f in (0, 1, 3)] + [Q("h_dt_read", f, 4, 5, covers=6) for f in range(4)] + [Q("h_dt_read", f, 6, 7, covers=6) for f in range(4)] + [Q("h_dt_read", 2, 3, 3, covers=6), Q("h_dt_read", 0, 3, 3, covers=6), Q("h_dt_read", 1, 1, 1, covers=2), Q("h_dt", 9, 5, 0), Q("h_dt", 9, 0, 2024)]
    + [T("h_dt_read", f, 4, 7, covers=6) for f in range(4)] + [T("h_dt_read", f, 2, 3, covers=6) for f in (0, 2)] + [T("h_dt_read", 1, 0, 1)],
)

prop(
    "P24",
    "What is written is a well-formed iCalendar stream",
    "Every calendar or component is written as CRLF-terminated content lines in balanced BEGIN/END pairs, with one VCALENDAR at the root, the properties of each component before its sub-components, VERSION, PRODID and CALSCALE exactly once for a new calendar and not at all for an empty one; all ways to write it (Display, to_string, try_into, and print, which may add an empty line) agree.",
    ["inputs", "histories"], "every calendar built through the public interface from texts without CR",
    "Tests compare a few fixed outputs.",
    ["src/calendar.rs", "src/components.rs", "src/properties.rs", "src/lib.rs"],
    [("Calendar::fmt_write, Component::fmt_write, write_crlf!", "src/calendar.rs, src/components.rs, src/lib.rs")],
    "32 setters with up to 2 ASCII chars or any Unicode scalar value; print with texts of 3 ASCII chars or 1 Unicode scalar value; up to 60 components; calendars of up to 3 (thorough 4) components of 4 kinds with up to 2 alarms",
    "CR in texts",
    [Q("h_well", 99, 1, 0), Q("h_well", 99, 2, 0), Q("h_well", 99, 1, 2), Q("h_well", 0, 3, 0), Q("h_print", 3, 0), Q("h_print", 1, 1), Q("h_well_struct", 0), Q("h_well_struct", 1), Q("h_well_struct", 2), Q("h_well_struct", 3), Q("h_well", 99, 0, 0), Q("h_well", 99, 1, 1), Q("h_make", 1, 1, 0), Q("h_make", 2, 1, 1), *MANY, Q("h_many_ops", 0, 60, 1), Q("h_multi_build", 2, 1), Q("h_long", 0, 9, 0, 200, 1), T("h_well", 99, 3, 0), T("h_well_struct", 4), T("h_well", 99, 2, 3)],
)

prop(
    "P25",
    "Builders replace what is set again, and hand everything over",
    "Setting a single-valued property again, through its setter or generically, replaces its value and parameters and affects no other property; each property is written once; done() hands all properties and sub-components over and leaves the builder empty; clones are equal and independent.",
    ["histories"], "every sequence of setter calls",
    "Tests call each setter once.",
    ["src/components.rs", "src/properties.rs", "src/components/event.rs", "src/components/todo.rs", "src/components/venue.rs"],
    [("append_property", "src/components.rs"), ("done", "src/components.rs, src/properties.rs")],
    "events, to-dos and venues, every sequence of up to 4 (thorough 5) of 8 calls with values of one symbolic char",
    "longer sequences",
    [Q("h_builder", k, n) for k in range(3) for n in (1, 2, 3, 4)] + [Q("h_make", 1, 1, 0), Q("h_make", 2, 1, 1), Q("h_make", 1, 2, 0)] + [T("h_builder", k, 5) for k in range(3)],
)

prop(
    "P26",
    "Parsed documents survive JSON",
    "With the serde feature, a parsed calendar, component or property written to JSON and read back is equal to the original, and is written and converted as the original is.",
    IN, "every parsed document",
    "There are no tests of the serde feature.",
    ["src/parser/calendar.rs", "src/parser/components.rs", "src/parser/properties.rs", "src/parser/parameters.rs", "src/parser/parsed_string.rs"],
    [("serde derives", "src/parser/*.rs")],
    "6 document skeletons with up to 2 symbolic ASCII chars or 1 Unicode scalar value in TEXT values, other values, names and parameters",
    "formats other than JSON; components nested more than 60 deep (serde_json refuses 128 levels of JSON)",
    [Q("h_json", k, n, 0) for k in range(5) for n in (0, 1, 2)] + [Q("h_json", k, 1, 2) for k in (0, 1, 3, 4)] + [Q("h_json", 5, 1, 0), Q("h_json", 5, 1, 2)] + [Q("h_json", k, 1, 1, secs=120) for k in (0, 1, 3, 4)] + [T("h_json", 5, 2, 0)] + [T("h_json", k, 3, 0) for k in range(5)] + [T("h_json", k, 2, 2) for k in (0, 1)],
)

prop(
    "P27",
    "Only complete components are reported",
    "A component is reported only if its END line has been read and names exactly the component it ends, innermost first; a document cut off anywhere before that yields no component and no properties of it, and asking for that component as such is an error.",
    ["inputs", "crash_points"], "every pair of component names, every cut",
    "Tests have one mismatched END.",
    ["src/parser/components.rs"],
    [("component parser", "src/parser/components.rs")],
    "every pair of names of up to 3 chars in 3 nestings; 3 documents cut at every position; every line of up to 5 chars and the name in the place of an END line; every sequence of up to 6 BEGIN, END and property lines",
    "cuts within the first BEGIN line",
    [Q("h_end", a, b, f, covers=6 if a == b else 4) for a in (1, 2, 3) for b in (1, 2, 3) for f in range(3)] + [Q("h_cut", d, covers=6) for d in range(3)] + [Q("h_end_line", n, k, covers=6 if n == 4 else 4) for n in (0, 1, 2, 3, 4, 5) for k in (0, 1)] + [Q("h_tree", 5), Q("h_tree", 6)] + [T("h_end", 4, 4, f, covers=6) for f in range(3)] + [T("h_end", 5, 4, f, covers=4) for f in range(3)],
)

prop(
    "P28",
    "All entry points read the same document the same way",
    "For every text, the readers (components, calendar, simple reader, FromStr of calendar and component, conversions between parsed and typed representation) agree on whether it is readable and on what it contains.",
    IN, "every text",
    "Tests exercise one entry point each.",
    ["src/parser/mod.rs", "src/parser/calendar.rs", "src/parser/components.rs", "src/calendar/calendar_component.rs"],
    [("read_calendar, read_calendar_simple, read_components, FromStr", "src/parser/mod.rs, src/parser/calendar.rs, src/parser/components.rs")],
    "4 document skeletons (one of them with names near VCALENDAR) with up to 3 symbolic ASCII chars or 1 Unicode scalar value; many components and roots",
    "FromStr of a component reads the first root only",
    [Q("h_agree", 3, 2, 0, covers=6), Q("h_agree", 3, 1, 2, covers=6)] + [Q("h_agree", k, n, 0, covers=6 if k == 1 and n > 1 else 2) for k in range(3) for n in (1, 2)] + [Q("h_agree", 0, 3, 0), Q("h_agree", 0, 1, 2), Q("h_agree", 1, 1, 2), Q("h_agree", 2, 1, 2), Q("h_agree", 0, 1, 1), Q("h_agree", 1, 1, 1), *MANY] + [Q("h_many_roots", 0, 40, 1, e) for e in (0, 1)]
    + [T("h_agree", 1, 3, 0), T("h_agree", 2, 3, 0), T("h_agree", 0, 2, 2)],
)

prop(
    "P29",
    "Other programs' calendars survive being read, changed and written",
    "When a calendar written by another program is read into the typed interface, one thing in it is changed, and it is written again, everything that was not changed is still there: every component, sub-component and property with its name, parameters and value, in every occurrence, components and repeated properties in their order; and the change is the only difference (beyond a UID and DTSTAMP made up for components that had none).",
    ["inputs", "histories"], "every document, every value in it, every change",
    "The tests either read or write; none of them does both to a document with properties the library does not know.",
    ["src/calendar/calendar_component.rs", "src/parser/components.rs", "src/parser/calendar.rs", "src/components.rs", "src/components/event.rs", "src/components/todo.rs", "src/components/venue.rs", "src/components/other.rs", "src/calendar.rs"],
    [("From<parser::Component> for CalendarComponent, InnerComponent", "src/parser/components.rs, src/calendar/calendar_component.rs"), ("Component::{add_property, append_property, remove_property}, fmt_write", "src/components.rs")],
    "7 documents (foreign calendars with VTIMEZONE, VJOURNAL, X- components and properties, alarms, lists, unusual parameters) with up to 2 symbolic ASCII chars or 1 Unicode scalar value in their values; 10 changes",
    "single-valued properties that occur more than once (the last wins); value-less parameters; escaped commas inside of the lists CATEGORIES and RESOURCES; parameter values with commas that are quoted alone; the order of single-valued properties",
    [Q("h_rewrite", d, 1, 0, 10, note="document %d, all changes" % d) for d in range(7)] + [Q("h_rewrite", d, 2, 0, 0, note="document %d, 2 ASCII chars" % d) for d in range(7)] + [Q("h_rewrite", d, 1, 1, 0, note="document %d, any Unicode scalar value" % d) for d in range(7)] + [Q("h_rewrite", d, 0, 0, 10) for d in range(7)]
    + [Q("h_many", k, 0, 40, 1) for k in (0, 1, 2, 3, 5, 6)]
    + [T("h_rewrite", d, 2, 0, 10) for d in range(7)] + [T("h_rewrite", d, 3, 0, 0) for d in range(7)] + [T("h_rewrite", d, 1, 1, 10) for d in range(7)],
)

if __name__ == "__main__":
    import json, os
    root = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for pid, p in sorted(SPEC.items()):
            f.write(json.dumps({
                "id": pid, "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["anyof"]},
                "why_tests_cant": p["tests"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
            }, ensure_ascii=False) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "python3 check.py --setup",
        "checks": [{
            "property": pid,
            "quick_cmd": "python3 check.py %s" % pid,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": "symbolic execution of the compiled code (LLVM IR of /repo, dependencies and std), branches and assertions decided by z3 over all inputs within the bounds; counterexamples replayed natively",
            "level": "model_checking",
            "level_note": "Holds for all values within: %s. Outside: %s. Trusted: the engine in engine/, z3, rustc's IR (see DESIGN.md)." % (p["bounds"], p["outside"]),
        } for pid, p in sorted(SPEC.items())],
        "not_applicable": [],
        "notes": "No hooks in /repo. Written by `python3 spec.py`.",
    }
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")
