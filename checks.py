"""The harness entries of every property: parameters, bounds and what must be reached."""

COMMON_ASSUMPTIONS = [
    "the code is encoded from the LLVM IR rustc emits for /repo's working tree and its locked dependencies (release profile, overflow checks on)",
    "hash maps: the hasher is replaced by a constant, so iteration order is one of the possible ones; results are compared independently of order",
    "the message text of a serde_json error is fixed; whether an error is raised is not",
    "memory allocation does not fail",
    "trusted: rustc's lowering to LLVM IR, the executor (cross-checked on every run against native execution), Z3",
]


def r(*n):
    return [[i] for i in range(*n)]


# group and case of harness/src/cases.rs: data schemas, security schemes, parts, Things
CASES = [[g, k] for g, n in ((0, 10), (1, 11), (2, 12), (3, 2), (4, 7)) for k in range(n)]


def with_third(vals):
    return [c + [v] for v in vals for c in CASES]


def flavoured(vals, flavours):
    """The seventh parameter is the flavour of texts and the size of lists (harness/src/sym.rs);
    the Thing with nearly everything has too many symbols for flavours 2 and 3."""
    return [c + [v, 0, 0, 0, f] for f in flavours for v in vals for c in CASES if not (c == [4, 2] and f in (2, 3))]


def lettered(vals, flavours):
    """Texts of as many symbols as the flavour says, less two: all but the large documents."""
    return [c + [v, 0, 0, 0, f] for f in flavours for v in vals for c in CASES if c[0] < 4]


# crowds: the sixth parameter says how many
def crowd(plist, sizes):
    return [p + [0] * (5 - len(p)) + [n] for n in sizes for p in plist]


def flav(plist, flavours):
    """The given parameters, and again with each of the flavours."""
    return plist + [p + [0] * (6 - len(p)) + [f] for f in flavours for p in plist]


def whole(plist):
    """With the eighth parameter set."""
    return [p + [0] * (7 - len(p)) + [1] for p in plist]


def every_subset(plist):
    """The eighth parameter asks for all subsets of fields where there are at most 13."""
    return [p + [0] * (7 - len(p)) + [1] for p in plist]


DOCS = ("data schemas of all 7 types and none, 11 kinds of security scheme, links, forms, properties, actions, events, Things: "
        "every subset of fields of size at most 2 or at least all but 2 (quick), every subset where there are at most 13 (thorough), "
        "lists and maps of 0 to 6 members (all of them empty in one run, with repeated members in others), nesting up to 3 schemas deep (one chain of 8); texts of 1 symbolic ASCII symbol, and in further runs empty, of 2 to 6 and 16 (thorough: 2 to 24) symbolic symbols, of two-byte and four-byte symbols, and of over 100 bytes; all u32, u64, i64 and finite doubles symbolic "
        "(through the text form: texts and numbers from a list of boundary values, see the _text entries for symbolic texts)")
DOCS_OUT = "other long texts and longer lists (the code treats the members of a list and the symbols of a text alike), deeper nesting, NaN and infinities as limits (JSON has none)"


def grid(*dims):
    out = [[]]
    for d in dims:
        out = [o + [x] for o in out for x in d]
    return out


P_ = range(12)  # places of harness/src/place.rs

PLACES = ("the 12 places of a schema (property, action input and output, the four schemas of an event, URI variables of the Thing and of each kind of affordance, "
          "schema definitions), alone, after or before another of its kind")
NESTS = "in itself, as array items, any of up to three members of a tuple, object property (required or not, any of up to three), any of up to three alternatives"
BUILD_OUT = "Things with more parts than stated; builder calls nested deeper than stated (the code treats every level alike)"
DEFECT = "what the fault is, and which Things have it, is decided by an oracle over the description of the calls (harness/src/ast.rs), which shares no code with the builder"
DRESSED = "; in Things that have any of 32 groups of other members and parts (none, all, each, all but each; thorough, and P05, P07 and P08 always: any two, all but any two), and among 20 others (thorough: 5, 20, 60) of each of 14 kinds, first, in the middle or last"
SHAPE = "schemas of all 7 types and none, constants, enumerations and alternatives"

CHECKS = {
    "P15": dict(
        bounds="all values: every pair and triple of limits over i64, f64 (NaN, infinities, signed zeros included) and u8",
        outside="other number types",
        entries=[
            dict(entry="p15_pairs", params=r(3), covers=["ordered", "unordered"]),
            dict(entry="p15_triples", params=r(3), covers=["chain of lower limits", "chain of upper limits"]),
            dict(entry="p15_nan", covers=["nan", "number"]),
        ],
    ),
    "P16": dict(
        bounds="every value of each numeric field (u8, u16, u64), every enumerated term, every subset of fields of size at most 2 or at least all but 2; strings of 1 and 5 symbolic ASCII bytes, empty, long and not ASCII, 0 to 5 headers and 0 to 7 filters; refused method names up to 6 bytes",
        outside="longer strings and lists",
        entries=[
            dict(entry="p16_coap", params=flav([[]], [1, 2, 4, 7, 27, 28]), covers=["coap"]),
            dict(entry="p16_coap_blocks", covers=["blocks"]),
            dict(entry="p16_coap_read", params=r(6), covers=["accepted", "refused"]),
            dict(entry="p16_http", params=flav([[]], [1, 2, 4, 7, 27, 28]), covers=["http"]),
            dict(entry="p16_http_method", covers=["method"]),
            dict(entry="p16_mqtt", params=flav([[]], [1, 2, 4, 7, 27, 28]), covers=["mqtt"]),
        ],
    ),
    "P10": dict(
        bounds=DOCS + "; dates with each of seconds and minutes and hours over its whole range, every day of May, every month, 10 years, 9 fractions and 11 offsets",
        outside=DOCS_OUT,
        entries=[
            dict(entry="p10_cases", params=with_third([0, 1]) + flavoured([0, 1], [1, 2, 3, 4, 5, 27, 28]) + lettered([0], [7, 18]), thorough=every_subset(with_third([0, 1])) + flavoured([0, 1], [1, 2, 3, 4, 5, 27, 28, 29]) + lettered([0], range(6, 27)), covers=["round trip"]),
            dict(entry="p10_text", params=[[1, k] for k in range(7)], covers=["round trip"]),
            dict(entry="p10_decimal", covers=["decimal"]),
            dict(entry="p10_dates", weight=5, params=[[t, k] for t in range(2) for k in range(8)], covers=["round trip"]),
        ],
    ),
    "P11": dict(
        bounds=DOCS + "; all 18 operations; dates with each of minutes and seconds over its whole range and 4 offsets",
        outside=DOCS_OUT,
        assumptions=["the specification is represented by the writer in harness/src/gen.rs (trait Wire), written from the W3C Thing Description 1.1 recommendation"],
        entries=[
            dict(entry="p11_cases", params=with_third([0, 1]) + flavoured([0, 1], [1, 2, 3, 4, 5, 27, 28]) + lettered([0], [7, 18]), thorough=every_subset(with_third([0, 1])) + flavoured([0, 1], [1, 2, 3, 4, 5, 27, 28, 29]) + lettered([0], range(6, 27)), covers=["written"]),
            dict(entry="p11_operations", covers=["operation"]),
            dict(entry="p11_dates", params=r(2), covers=["dates"]),
            dict(entry="p11_data_response"),
            dict(entry="p11_additional_response"),
        ],
    ),
    "P12": dict(
        bounds=DOCS + "; each document in six forms",
        outside=DOCS_OUT,
        assumptions=["the specification is represented by the writer in harness/src/gen.rs (trait Wire)"],
        entries=[
            dict(entry="p12_cases", params=with_third(range(6)) + flavoured([1, 3], [1, 2, 4, 27, 28]) + lettered([1], [7, 18]), thorough=every_subset(with_third(range(6))) + flavoured(range(6), [1, 2, 3, 4, 5, 27, 28, 29]) + lettered(range(5), range(6, 19)), covers=["read"]),
            dict(entry="p12_defaults", covers=["defaults"]),
        ],
    ),
    "P13": dict(
        bounds="each member of each of 15 kinds of object with a value of any of 13 shapes (numbers and texts symbolic); any two members of such an object with any two of 5 (thorough: 13) shapes; any member or element of four documents with many members left out, wrapped in a list or of any of 4 (thorough: 13) shapes; 12 short documents as text, cut off anywhere or with any one byte replaced by any byte; texts of up to 4 (thorough: 5) arbitrary bytes as a whole document; operation names of 11 to 13 letters, locations of 4 to 6, schema types and scheme names of 4 to 7",
        outside="documents with more than two members of the wrong shape, longer arbitrary texts",
        entries=[
            dict(entry="p13_members", params=r(15), covers=["accepted", "refused"]),
            dict(entry="p13_shapes", params=r(8), covers=["shape"]),
            dict(entry="p13_mandatory", params=r(10), covers=["mandatory"]),
            dict(entry="p13_terms", params=[[0, 12], [0, 13], [0, 11], [1, 4], [1, 6], [1, 5], [2, 6], [2, 4], [2, 7], [3, 4], [3, 5], [3, 6]], covers=["known", "unknown"]),
            dict(entry="p13_changed", weight=2, params=grid(range(4), range(8), [8]), thorough=whole(grid(range(4), range(8), [8])), covers=["changed"]),
            dict(entry="p13_pairs", params=[[k] for k in range(1, 15) if k != 7] + grid([0, 7], range(4), [4]), thorough=whole([[k] for k in range(1, 15) if k != 7] + grid([0, 7], range(4), [4])), covers=["accepted", "refused"]),
            dict(entry="p13_text", params=grid(range(12), range(4), [4]), covers=["text", "accepted", "refused"]),
            dict(entry="p13_bytes", params=[[k, n] for k in range(4) for n in range(1, 5)], thorough=[[k, n] for k in range(4) for n in range(1, 6)], covers=["bytes"]),
        ],
    ),
    "P17": dict(
        bounds="two values of each type that differ at most in one field's presence or contents, symbolic contents (texts of one symbol, empty, long, not ASCII; lists and maps empty, and of up to 6 members), all 11 kinds of security scheme, all schema types, dates by the second",
        outside="longer texts and lists",
        entries=[
            dict(entry="p17_fields", params=flav([[0]] + r(2, 9) + [[1, k] for k in range(11)], [1, 4, 27, 28]), thorough=flav([[0]] + r(2, 9) + [[1, k] for k in range(11)], [1, 2, 4, 7, 18, 27, 28, 29]), covers=["compared"]),
            dict(entry="p17_types", params=flav(r(8), [1, 2, 4, 7, 18, 27, 28]), covers=["compared"]),
            dict(entry="p17_kinds", params=r(2), covers=["compared"]),
            dict(entry="p17_dates", params=r(1), covers=["compared"]),
        ],
    ),
    "P01": dict(
        bounds=PLACES + "; leaves: numbers, integers, texts, lists and multiple-of with every combination of limits, all i64, u32 and f64 (NaN and infinities included); nested " + NESTS +
               "; two (thorough: three) levels for one numeric type each, chains of two ways of nesting up to 20 (thorough: 40) deep; two faulty schemas at every two places" + DRESSED,
        outside=BUILD_OUT + "; both an inclusive and an exclusive limit on the same side (the builder keeps the last one)",
        assumptions=[DEFECT],
        entries=[
            dict(entry="p01_limits", weight=2, params=grid(P_, range(8)), covers=["accepted", "refused"]),
            dict(entry="p01_deep", weight=3, params=grid(P_, [0]), thorough=grid(P_, [0, 1]), covers=["accepted", "refused"]),
            dict(entry="p01_pairs", params=r(12), covers=["accepted", "refused"]),
            dict(entry="p01_chain", params=grid(P_, [3, 4, 6, 10, 20]), thorough=grid(P_, list(range(3, 21)) + [40]), covers=["accepted", "refused"]),
            dict(entry="p01_dressed", weight=3, params=r(12) + crowd(r(12), [20]), thorough=whole(r(12)) + crowd(r(12), [5, 20, 60]), covers=["accepted", "refused"]),
        ],
    ),
    "P02": dict(
        bounds="up to 4 definitions and 3 references with symbolic names of 1 to 2, of 5 and of 16 letters each (every equality pattern among them), names that are empty, blank or not ASCII, forms of the Thing, of the first and of the second affordance of each kind, combined schemes of 0 to 3 names added in up to three calls, all kinds of scheme under the name of their kind" + DRESSED,
        outside="longer names, more definitions",
        assumptions=[DEFECT],
        entries=[
            dict(entry="p02_forms", params=r(7) + [[k, 0, 0, 0, 0, 0, n] for k in (0, 3) for n in (5, 16, 30)], covers=["accepted", "refused"]),
            dict(entry="p02_two", covers=["accepted", "refused"]),
            dict(entry="p02_combos", weight=9, params=r(2) + [[1, 0, 0, 0, 0, 0, 30]], covers=["accepted", "refused"]),
            dict(entry="p02_required", params=flav([[]], [5, 16, 30]), covers=["accepted", "refused"]),
            dict(entry="p02_kinds", weight=3, params=r(7), covers=["accepted", "refused"]),
            dict(entry="p02_dressed", weight=3, params=r(7) + crowd(r(7), [20]), thorough=whole(r(7)) + crowd(r(7), [5, 20, 60]), covers=["accepted", "refused"]),
        ],
    ),
    "P03": dict(
        bounds="0 to 2 definitions, 1 to 3 additional responses with and without a schema, in one form or in two at the same or different places (Thing, first and second affordance of each kind), symbolic names of 1 to 2, of 5 and of 16 letters, and names that are empty, blank or not ASCII" + DRESSED,
        outside="longer names, more responses",
        assumptions=[DEFECT],
        entries=[
            dict(entry="p03_responses", weight=2, params=r(7) + [[k, 0, 0, 0, 0, 0, n] for k in (0, 3) for n in (5, 16, 30)], covers=["accepted", "refused"]),
            dict(entry="p03_two", params=r(7), covers=["accepted", "refused"]),
            dict(entry="p03_dressed", weight=3, params=r(7) + crowd(r(7), [20]), thorough=whole(r(7)) + crowd(r(7), [5, 20, 60]), covers=["accepted", "refused"]),
        ],
    ),
    "P04": dict(
        bounds="every sequence of 0 to 3 of the 18 operations at each of 7 places (Thing, first and second affordance of each kind), two forms at the same place with a third at another, any operation at any position among three that belong" + DRESSED,
        outside="more operations in one form",
        assumptions=["which operation belongs where is listed in harness/src/p04.rs from the specification"],
        entries=[
            dict(entry="p04_ops", weight=2, params=grid(range(7), range(4)), covers=["accepted", "refused"]),
            dict(entry="p04_second", weight=2, params=r(7), covers=["accepted", "refused"]),
            dict(entry="p04_among", params=r(4), covers=["accepted", "refused"]),
            dict(entry="p04_dressed", weight=3, params=r(7) + crowd(r(7), [20]), thorough=whole(r(7)) + crowd(r(7), [5, 20, 60]), covers=["accepted", "refused"]),
            dict(entry="p04_none", params=[[]], thorough=whole([[]]), covers=["accepted", "refused"]),
        ],
    ),
    "P05": dict(
        bounds="up to 3 (4 with one-letter names) affordances of a kind and one of each other kind, two of each kind, with symbolic names of 1 to 2, of 5 and of 16 letters; names that are empty, long, blank, differ in case or are not ASCII" + DRESSED,
        outside="longer symbolic names, more affordances",
        assumptions=[DEFECT],
        entries=[
            dict(entry="p05_names", weight=2, params=grid(range(3), [2, 3, 4]) + [[k, 2, 0, 0, 0, 0, n] for k in range(3) for n in (5, 16)], covers=["accepted", "refused"]),
            dict(entry="p05_kinds", covers=["accepted", "refused"]),
            dict(entry="p05_odd", params=r(3), covers=["accepted", "refused"]),
            dict(entry="p05_dressed", params=whole(flav(r(3), [1, 2, 4])) + crowd(r(3), [20]), thorough=whole(flav(r(3), range(1, 6))) + crowd(r(3), [5, 20, 60]), covers=["accepted", "refused"]),
        ],
    ),
    "P06": dict(
        bounds="titles and descriptions of the Thing, of affordances (alone or second), of security schemes (all kinds, first or second) and of " + PLACES + ", nested once (thorough: twice, at every place) " + NESTS +
               "; languages of links; tags: a list of well-formed and malformed ones everywhere, and every tag of up to 6 symbols for the titles of the Thing" + DRESSED,
        outside="longer tags other than those listed; which tags are well formed is the oracle of harness/src/p06.rs (BCP 47 up to the lengths used)",
        assumptions=[DEFECT],
        entries=[
            dict(entry="p06_affordances", params=grid(range(7), range(2)), covers=["accepted", "refused"]),
            dict(entry="p06_schemas", weight=2, params=grid(P_, range(2), [0]) + [[p, 0, 1] for p in (0, 4, 7)], thorough=grid(P_, range(2), range(2)), covers=["accepted", "refused", "titles", "descriptions"]),
            dict(entry="p06_kinds", weight=4, params=grid(range(3), [0]), thorough=grid(range(3), range(2)), covers=["accepted", "refused"]),
            dict(entry="p06_security", weight=3, params=grid([0], range(2)), covers=["accepted", "refused"]),
            dict(entry="p06_links", params=grid([0], range(2)), covers=["accepted", "refused"]),
            dict(entry="p06_tags", weight=3, params=r(7), covers=["accepted", "refused"]),
            dict(entry="p06_two", covers=["refused"]),
            dict(entry="p06_dressed", weight=5, params=r(17) + crowd(r(17), [20]), thorough=whole(r(17)) + crowd(r(17), [5, 20, 60]), covers=["accepted", "refused"]),
        ],
    ),
    "P07": dict(
        bounds="every subset of a link's fields, with any relation of 0 to 6 ASCII symbols or none, 12 relations close to `icon`; 1 to 3 links of 5 shapes, languages given once and more than once, texts of 1, 5 and 16 symbolic symbols, empty, long and not ASCII" + DRESSED,
        outside="longer relations, more links",
        assumptions=[DEFECT],
        entries=[
            dict(entry="p07_link", params=r(8) + grid([3, 4, 7], [1, 2, 3]), covers=["accepted", "refused"]),
            dict(entry="p07_close", covers=["accepted", "refused"]),
            dict(entry="p07_links", params=flav([[1], [2], [3]], [1, 2, 3, 4, 5, 7, 18, 28]) + grid([1, 2], [1, 2, 3]), covers=["accepted", "refused"]),
            dict(entry="p07_dressed", weight=5, params=whole([[]]) + crowd([[]], [20]), thorough=whole([[]]) + crowd([[]], [5, 20, 60]), covers=["accepted", "refused"]),
        ],
    ),
    "P08": dict(
        bounds="14 ways to make a schema (each type, items added one by one, through constants, enumerations and alternatives, read-only and write-only), at 7 places, alone, first or second, with a variable at another place" + DRESSED,
        outside="alternatives of a URI variable that are arrays (the specification leaves them open)",
        assumptions=[DEFECT],
        entries=[
            dict(entry="p08_one", params=r(7), covers=["accepted", "refused"]),
            dict(entry="p08_two", params=r(7), covers=["accepted", "refused"]),
            dict(entry="p08_elsewhere", covers=["accepted"]),
            dict(entry="p08_dressed", weight=5, params=whole(r(7)) + crowd(r(7), [20]), thorough=whole(r(7)) + crowd(r(7), [5, 20, 60]), covers=["accepted", "refused"]),
        ],
    ),
    "P09": dict(
        bounds=SHAPE + " at " + PLACES + ", with every subset of the common members of size at most 2 or at least all but 2, calls before and after the type, nested once (thorough: twice) " + NESTS +
               "; forms, links, affordances and the Thing with every subset of members of size at most 2 or at least all but 2 (links: all), 1 to 3 forms, 0 to 3 additional responses, 1 to 3 links; every call that sets a single value made twice; texts of 1, 5 and 16 symbolic symbols, empty, long and not ASCII, lists of up to 5" + DRESSED,
        outside=BUILD_OUT,
        assumptions=["what the Thing should be is computed from the description of the calls (harness/src/ast.rs), which shares no code with the builder"],
        entries=[
            dict(entry="p09_kinds", weight=2, params=[[p, k] for p in P_ for k in range(11) if not (7 <= p <= 10 and k in (5, 6, 7)) and not (p == 0 and k == 4)], covers=["built"]),
            dict(entry="p09_schemas", weight=5, params=r(12), covers=["built"]),
            dict(entry="p09_nested", weight=6, params=grid(P_, [0]), thorough=[[p, d, 0, 0, 0, 0, 0, 1 - d] for p in P_ for d in (0, 1)], covers=["built"]),
            dict(entry="p09_forms", weight=3, params=flav(r(4), [1, 2, 4, 7, 18, 28]), thorough=flav(r(4), [*range(1, 19), 28, 29]), covers=["built"]),
            dict(entry="p09_responses", weight=3, params=flav([[]], [1, 2, 4, 7, 18, 28]), covers=["built"]),
            dict(entry="p09_links", weight=3, params=flav([[]], [1, 2, 4, 7, 18, 28]), covers=["built"]),
            dict(entry="p09_affordances", weight=3, params=flav(r(3), [1, 2, 4, 7, 18, 28]), thorough=flav(r(3), [*range(1, 19), 28, 29]), covers=["built"]),
            dict(entry="p09_thing", weight=4, params=flav([[]], [1, 2, 4, 7, 18, 28]), thorough=flav([[]], [*range(1, 19), 28, 29]), covers=["built"]),
            dict(entry="p09_again_thing", weight=3, params=flav([[]], [1, 4]), covers=["built"]),
            dict(entry="p09_again_parts", params=flav(r(10), [1, 4]), covers=["built"]),
            dict(entry="p09_dressed", weight=3, params=flav(r(12), [1, 4]) + crowd(r(12), [20]), thorough=whole(r(12)) + flav(r(12), range(1, 6)) + crowd(r(12), [5, 20, 60]), covers=["built"]),
        ],
    ),
    "P14": dict(
        bounds="two and three extensions with symbolic contents at every place that can be extended (Thing, interaction, property, action, event, schema and its object, array and form parts, security, link, expected and additional responses), all at once and one at a time, one of them absent at some places; every other member of a Thing, form, affordance or schema given before, between or after the extensions (at most two, or all but two, before; thorough: every subset); lists of 1 to 4 elements, all contents",
        outside="longer lists (the code is recursive in the tail), extensions whose own keys collide with standard ones",
        entries=[
            dict(entry="p14_lists", params=r(4), covers=["list"]),
            dict(entry="p14_extend", covers=["extend"]),
            dict(entry="p14_everywhere", params=r(2), covers=["extended"]),
            dict(entry="p14_partial", params=r(5), covers=["extended"]),
            dict(entry="p14_kinds", params=[[2], [3]], covers=["extended"]),
            dict(entry="p14_survives", weight=2, params=[[k] for k in (0, 1, 2, 3, 5, 6, 7, 8, 9, 10)], thorough=whole([[k] for k in (0, 1, 2, 3, 5, 6, 7, 8, 9, 10)]), covers=["extended"]),
        ],
    ),
    "P18": dict(
        bounds=SHAPE + " asked to be read-only, write-only or neither, with other calls before, between and after, at " + PLACES + ", nested once (thorough: twice) " + NESTS + ", and built on their own" + DRESSED,
        outside=BUILD_OUT,
        entries=[
            dict(entry="p18_modes", params=r(12), covers=["built"]),
            dict(entry="p18_nested", weight=5, params=grid(P_, [0]), thorough=grid(P_, [0, 1]), covers=["built"]),
            dict(entry="p18_alone", covers=["built"]),
            dict(entry="p18_dressed", weight=3, params=r(12) + crowd(r(12), [20]), thorough=whole(r(12)) + crowd(r(12), [5, 20, 60]), covers=["built"]),
        ],
    ),
    "P19": dict(
        bounds="groups of calls of the Thing: any two exchanged, rotated or reversed with every fault of 6, and any three (thorough: four) in any order; any three (thorough: four) calls of an affordance and of each kind of schema in any order, before or after the type; any four of a form and of a security scheme (thorough: five), all five of a link; value and closure forms of 17 calls; 10 defaults; 13 schemas alone and within each of 12 places",
        outside="orders of more calls at once; calls that are not independent (a later value replaces an earlier one, lists keep the order of calls)",
        entries=[
            dict(entry="p19_groups", params=r(6), covers=["compared"]),
            dict(entry="p19_few", params=grid(range(17), [0]), thorough=grid(range(17), [0, 1]), covers=["compared"]),
            dict(entry="p19_form", weight=2, params=[[4]], covers=["compared"]),
            dict(entry="p19_link", covers=["compared"]),
            dict(entry="p19_affordance", weight=6, params=grid(range(3), [0]), thorough=grid(range(3), [0, 1]), covers=["compared"]),
            dict(entry="p19_schema", weight=2, params=grid(range(11), [0]), thorough=grid(range(11), [0, 1]), covers=["compared"]),
            dict(entry="p19_security", weight=2, params=grid(range(10), [0]), thorough=grid(range(10), [0, 1]), covers=["compared"]),
            dict(entry="p19_parameters", params=r(5), covers=["compared"]),
            dict(entry="p19_forms", params=r(16), covers=["compared"]),
            dict(entry="p19_defaults", params=r(9), covers=["compared"]),
            dict(entry="p19_alone", params=r(12), covers=["compared"]),
            dict(entry="p19_alone_nested", weight=2, params=r(12), covers=["compared"]),
        ],
    ),
    "P20": dict(
        bounds="each kind of security scheme with every combination of its parameters, required or not, named or not, with calls early and late; three schemes of any kinds; symbolic texts (of one symbol, empty, long, not ASCII)",
        outside="more than three schemes",
        assumptions=["what the definition should be is computed from the description of the calls (harness/src/ast.rs)"],
        entries=[
            dict(entry="p20_kinds", weight=2, params=flav(r(10), [1, 2, 4, 7, 18, 28]), thorough=flav(r(10), [*range(1, 19), 28, 29]), covers=["built"]),
            dict(entry="p20_common", params=flav(r(10), [1, 2, 4, 7, 18, 28]), thorough=flav(r(10), [*range(1, 19), 28, 29]), covers=["built"]),
            dict(entry="p20_several", weight=5, params=r(10), covers=["built"]),
        ],
    ),
    "P21": dict(
        bounds=SHAPE + " at " + PLACES + ", forms, links, affordances, security schemes of every kind and Things with every subset of members of size at most 2 or at least all but 2, finite numbers; 12 kinds of fault that may or may not be there (symbolic names and limits) at every place and nesting; through values, and for a part of them through text" + DRESSED,
        outside=BUILD_OUT + "; NaN and infinite limits (JSON has none)",
        assumptions=["whether a document is valid is judged on the JSON by harness/src/p21.rs, written from the specification"],
        entries=[
            dict(entry="p21_kinds", weight=2, params=[[p, k] for p in (0, 1, 5, 8, 11) for k in range(11) if not (p == 8 and k in (5, 6, 7)) and not (p == 0 and k == 4)], thorough=[[p, k] for p in P_ for k in range(11) if not (7 <= p <= 10 and k in (5, 6, 7)) and not (p == 0 and k == 4)], covers=["built"]),
            dict(entry="p21_schemas", weight=3, params=[[0], [4], [9]], thorough=r(12), covers=["built"]),
            dict(entry="p21_nested", weight=5, params=grid([0, 6], [0]), thorough=grid(P_, [0]), covers=["built"]),
            dict(entry="p21_forms", weight=2, params=flav(r(4), [1, 4]), thorough=flav(r(4), [1, 2, 3, 4, 5, 7, 28]), covers=["built"]),
            dict(entry="p21_responses", params=flav([[]], [1, 4, 28]), covers=["built"]),
            dict(entry="p21_links", params=flav([[]], [1, 4, 28]), covers=["built"]),
            dict(entry="p21_affordances", weight=2, params=flav(r(3), [1, 4]), thorough=flav(r(3), [1, 2, 3, 4, 5, 7, 28]), covers=["built"]),
            dict(entry="p21_thing", weight=2, params=flav([[]], [1, 4]), thorough=flav([[]], [1, 2, 3, 4, 5, 7, 28]), covers=["built"]),
            dict(entry="p21_dressed", weight=3, params=[[0], [3], [5], [10], [11]] + crowd([[2], [8]], [20]), thorough=whole(r(12)) + crowd(r(12), [5, 20]), covers=["built"]),
            dict(entry="p21_security", params=flav(r(10), [1, 4]), covers=["built"]),
            dict(entry="p21_schemes", params=flav(r(10), [1, 4]), covers=["built"]),
            dict(entry="p21_several", weight=3, params=[[0], [7]], thorough=r(10), covers=["built"]),
            dict(entry="p21_faults", weight=3, params=grid(range(12), [0]) + grid([0, 9], [1]), thorough=grid(range(12), [0]) + grid([0, 1, 2, 3, 4, 9, 10, 11], [1]), covers=["accepted", "refused"]),
            dict(entry="p21_text", weight=3, params=[[0, 0, 0, 0, 0, 0, 1], [4, 0, 0, 0, 0, 0, 1], [11, 0, 0, 0, 0, 20, 1]], thorough=[[p, 0, 0, 0, 0, n, 1] for p in P_ for n in (0, 5, 20)], covers=["built"]),
        ],
    ),
    "P22": dict(
        bounds="0 to 3 additions of texts, maps and near-copies of the context; every text that is as long as the context and differs from it in at most one symbol, is longer by up to two at the end or one at the start, is a beginning or an end of it, or differs in case" + DRESSED,
        outside="more additions",
        entries=[
            dict(entry="p22_contexts", params=flav(r(4), [1, 2, 4, 7, 18, 28]), covers=["built"]),
            dict(entry="p22_close", params=r(4), covers=["built"]),
            dict(entry="p22_dressed", params=[[]] + crowd([[]], [20]), thorough=whole([[]]) + crowd([[]], [5, 20, 60]), covers=["built"]),
        ],
    ),
    "P23": dict(
        bounds="two and three translations under tags that may differ in nothing but their case, symbolic texts, at 11 places; one Thing with a schema at each of the 12 places among everything else it can have" + DRESSED + "; up to five faults in one Thing; each built, written and read twice, with hash maps that are seeded apart by 1 to 6 (both orders of their members are reached)",
        outside="other seeds; which of several faults is reported (any of them may be)",
        assumptions=["here the hasher is the compiled one, with the seeds that std gives to successive maps, from 0"],
        entries=[
            dict(entry="p23_tags", weight=2, real_hash=True, params=r(12), covers=["another order", "built twice"]),
            dict(entry="p23_dressed", weight=3, real_hash=True, params=[[p, 0, 0, 0, 0, 0, 1] for p in (0, 4, 8, 11)] + [[5, 0, 0, 0, 0, 5, 1]], thorough=[[p, 0, 0, 0, 0, n, 1] for p in P_ for n in (0, 5, 20)], covers=["another order", "built twice"]),
            dict(entry="p23_faults", real_hash=True, params=r(3), covers=["another order", "built twice"]),
            dict(entry="p23_read", weight=2, real_hash=True, params=[[0], [5], [11]], thorough=r(12), covers=["read twice"]),
        ],
    ),
}
