"""What is run for each property: harness entries with their bounds."""

ASSUMPTIONS = [
    "bounded: nothing is claimed beyond the stated bounds",
    "the LLVM IR rustc emits for the crates, the standard library and the harness has the meaning of the compiled program; the engine's reading of it is checked by running sampled paths natively",
    "the allocator never fails; a freed or foreign address is never accessed (checked on every access)",
    "in configurations with symbolic patterns or grammars hashes are constant, so hash collections are visited in one order; configurations with hash seeds use the real hash function",
    "char::is_alphabetic and the like are summarised by decision diagrams computed from the standard library's own tables for all scalar values",
    "z3 decides the queries; a sample is handed to cvc5 in the thorough tier",
]


def each(entry, *ranges, **opts):
    """All combinations of parameter values."""
    out = [[]]
    for r in ranges:
        r = [r] if isinstance(r, int) else list(r)
        out = [p + [v] for p in out for v in r]
    return [(entry, p, dict(opts)) for p in out]


PROPERTIES = {}

PROPERTIES["L01"] = dict(
    bounds="every pattern of up to 5 (thorough 6) arbitrary Unicode scalar values; every pattern of up to 7 (8) signs out of ( ) | [ ] ^ - * a, and of up to 8 (9) out of a { } , 1 ? ( ) \\; counted quantifiers whose bounds have up to 3 (4) symbolic digits behind six prefixes up to and beyond 32 bits; the beginnings of escapes, counted quantifiers and sets (16) followed by up to 4 (5) arbitrary characters, and hexadecimal escapes followed by 6 (7) hexadecimal digits, braces or brackets; 16 long patterns (up to 300 elements, 60 levels of nesting) that end in 3 arbitrary characters",
    quick=each("h_l01", range(0, 6)) + each("h_l01_count", [3]) + each("h_l01_escape", range(16), range(1, 5)) + each("h_l01_counter", [7, 8])
    + each("h_l01_operator", [6, 7]) + each("h_l01_digits", [0, 1, 2, 4], 6) + each("h_l01_long", range(16), 60, 3) + each("h_l01_long", range(16), 300, 1),
    thorough=each("h_l01", range(0, 7)) + each("h_l01_count", [4]) + each("h_l01_escape", range(16), range(1, 6)) + each("h_l01_counter", [8, 9])
    + each("h_l01_operator", [7, 8]) + each("h_l01_digits", range(5), [6, 7]) + each("h_l01_long", range(16), [60, 300], 3),
)
def LONG_PATTERNS(entry):
    jobs = each(entry, [k for k in range(17) if k not in (2, 3)], 60) + each(entry, 2, 10) + each(entry, 3, [3, 5]) + each(entry, 17, 20) + each(entry, 18, [20, 70])
    jobs += each(entry, [0, 1, 4, 5, 8, 9, 10, 11, 12, 13, 14, 15, 16], 300) + each(entry, [12, 13, 14, 16], 1000)
    return jobs + (each(entry, [10, 12], 65537, max_steps=4_000_000_000) if entry == "h_l02_long" else [])


PROPERTIES["L02"] = dict(
    bounds="31 pattern shapes with symbolic letters, every choice of quantifier and symbolic one-digit counts below 3 (thorough 4) against every input of 1 to 3 letters; every pattern of up to 6 (7) signs out of a b * + ? | ( ) against every input of up to 4 (5) letters; ten fixed patterns with real hashing and 4 (8) seeds against every input of up to 5 letters; every pattern of 3 against every input of 2 arbitrary characters; 19 kinds of long patterns and inputs (up to 600 characters, counts up to 1000 and two of 65537 over as many characters, 300 alternatives, 20 optional elements in a row, 70 counts in progress at a time, 5 levels of quantified groups) with up to four symbolic letters",
    quick=each("h_l02", [k for k in range(22) if k not in (12, 14, 19, 21)], [2, 3], 3)
    + each("h_l02", [14, 19, 21], [2, 3], 2) + each("h_l02", 12, 2, 2) + each("h_l02", range(22, 31), [2, 3], 3) + each("h_l02", [0, 11], 5, 6)
    + each("h_l02_text", range(0, 6), 4) + each("h_l02_text", 6, 3) + each("h_l02_seed", range(10), [3, 5], 4)
    + each("h_l02_any", 2, 2) + each("h_l02_any", 3, 2) + LONG_PATTERNS("h_l02_long"),
    thorough=each("h_l02", range(31), [1, 2, 3], 4) + each("h_l02", [0, 1, 3, 4, 8, 9, 11], 4, 4)
    + each("h_l02", [0, 1, 3, 11], 6, 8)
    + each("h_l02_text", range(0, 8), 5) + each("h_l02_seed", range(10), [3, 4, 5], 8)
    + each("h_l02_any", 3, [2, 3]) + each("h_l02_any", 4, 1) + LONG_PATTERNS("h_l02_long"),
)
PROPERTIES["L03"] = dict(
    bounds="each of 24 classes and class combinations against every scalar value; [ ] around up to 3 (thorough 4) arbitrary scalar values against every scalar value; six set shapes with symbolic members and range ends; every pattern of up to 3 (4) arbitrary characters against every character; 8 kinds of sets with 60 members",
    quick=each("h_l03_class", range(24)) + each("h_l03_set", range(0, 4), 0) + each("h_l03_ranges", range(6))
    + each("h_l03_one", [1, 2, 3]) + each("h_l03_long", range(8), 60),
    thorough=each("h_l03_class", range(24)) + each("h_l03_set", range(0, 5), 0) + each("h_l03_ranges", range(6))
    + each("h_l03_one", [1, 2, 3, 4]) + each("h_l03_long", range(8), [60, 300]),
)
PROPERTIES["L04"] = dict(
    bounds="every escape form with every digit combination, followed by up to 1 (thorough 2) arbitrary hexadecimal or letter characters; every ASCII escape letter, alone and with one more character, inside and outside sets, against every ASCII input; repetition bounds of up to 3 (4) digits against runs of up to 12 (30) characters, of 5 digits and around 32 bits against runs of up to 3, and every bound from 60 to 69 and from 260 to 269 against runs of about as many; five kinds of escapes behind 20 (60) other elements",
    quick=each("h_l04_hex", range(7), [0, 1]) + each("h_l04_letter", range(8), [0, 1])
    + each("h_l04_bound", range(3), [1, 2], [1, 11]) + each("h_l04_bound", range(2), 3, [3, 12]) + each("h_l04_bound", range(3), 5, [1, 2])
    + each("h_l04_wrap", range(3), 3) + each("h_l04_far", range(3), [6, 26]) + each("h_l04_late", range(5), 20),
    thorough=each("h_l04_hex", range(7), [0, 1, 2]) + each("h_l04_letter", range(8), [0, 1, 2])
    + each("h_l04_bound", range(3), [1, 2], [1, 5, 12, 30]) + each("h_l04_bound", range(2), [3, 4], [3, 12]) + each("h_l04_bound", range(3), 5, [1, 2])
    + each("h_l04_wrap", range(3), 4) + each("h_l04_far", range(3), [6, 12, 26, 52]) + each("h_l04_late", range(5), 60),
)
PROPERTIES["L05"] = dict(
    bounds="every pattern of up to 4 (thorough 5) arbitrary Unicode scalar values; every pattern of up to 7 (8) signs out of ( ) | [ ] ^ - * a, and of up to 8 (9) out of a { } , 1 ? ( ) \\; counted quantifiers with up to 3 (4) symbolic digits behind six prefixes; the beginnings of escapes, counted quantifiers and sets (16) followed by up to 4 (5) arbitrary characters, and hexadecimal escapes followed by 6 (7) hexadecimal digits, braces or brackets; 16 long patterns (up to 300 elements, 60 levels of nesting) that end in 3 arbitrary characters",
    quick=each("h_l05", range(1, 5)) + each("h_l05_count", [3]) + each("h_l05_escape", range(16), range(0, 5)) + each("h_l05_counter", [6, 7, 8])
    + each("h_l05_operator", [5, 6, 7]) + each("h_l05_digits", [0, 1, 2, 4], 6) + each("h_l05_long", range(16), 60, 3) + each("h_l05_long", range(16), 300, 1),
    thorough=each("h_l05", range(1, 6)) + each("h_l05_count", [4]) + each("h_l05_escape", range(16), range(0, 6)) + each("h_l05_counter", [8, 9])
    + each("h_l05_operator", [5, 6, 7, 8]) + each("h_l05_digits", range(5), [6, 7]) + each("h_l05_long", range(16), [60, 300], 3),
)

HEAVY = [12, 13, 22, 24, 9, 15]
LIGHT = [k for k in range(26) if k not in HEAVY]


def token_jobs(entry):
    quick = each(entry, LIGHT, 4, 0, 2, 0) + each(entry, HEAVY, 3, 0, 2, 0)
    quick += each(entry, [0, 3, 8], 3, 1, 2, 0) + each(entry, [14, 25], 3, 0, 3, 0) + each(entry, [0, 1, 2, 3, 6, 8], 6, 0, 0, 0)
    quick += each(entry, range(26, 34), 4, 0, 2, 4)
    quick += each(entry, [34, 36, 37, 39], 3, 2, 2, 0) + each(entry, [35, 38], 2, 2, 2, 0) + each(entry, range(40, 46), 2, 0, 2, 0)
    quick += each(entry, range(46, 50), 3, 0, 2, 0)
    long = each(entry, 100, [100, 300], 0, 4, 1) + each(entry, [101, 102], 1100, 0, 4, 1) + each(entry, 103, 600, 0, 4, 1) + each(entry, [104, 108, 111], 300, 0, 4, 1)
    long += each(entry, [105, 106], 60, 0, 4, 1) + each(entry, 107, 150, 0, 4, 1) + each(entry, 109, 10, 0, 4, 1) + each(entry, 112, 60, 0, 4, 1)
    if entry == "h_l06":
        long += each(entry, 110, 65600, 0, 4, 1, max_steps=4_000_000_000)
    quick += long
    thorough = long + each(entry, LIGHT, [4, 5], 0, 3, 0) + each(entry, HEAVY, [3, 4], 0, 2, 0)
    thorough += each(entry, [k for k in LIGHT if k not in (1, 2, 4, 5, 6, 7)], 3, 1, 2, 0) + each(entry, [0, 1, 2, 3, 6, 8, 10, 14], 7, 0, 0, 0)
    thorough += each(entry, range(26, 34), 5, 0, 2, 8)
    thorough += each(entry, range(46, 50), [3, 4], 0, 2, 0) + each(entry, range(34, 40), [3, 4], 2, 2, 0) + each(entry, range(40, 46), 4, 0, 2, 0)
    return dict(
        quick=quick,
        thorough=thorough,
        bounds="30 token-set shapes with symbolic letters and quantifiers over inputs of 4 letters (3 for six large ones, 6 for six read-ahead ones; thorough 5, 4 and 7), with one-byte and with four-byte letters, with every way of registering kinds; 8 fixed token sets with the real hash function and 4 (8) seeds over every input of 4 (5) letters; six token sets over every input of 3 (two of them 2; thorough 4) arbitrary Unicode characters; six token sets with a fixed beginning of 11 to 18 characters before 2 (4) arbitrary letters, for far read-ahead; 12 long texts (up to 1200 characters; L06: one of 65600) with two to four symbolic characters: 100 and 300 keywords, long words, far read-ahead, many short tokens, characters of several bytes, repeated read-ahead, counts up to 150, 60 different characters that may come next, a small programming language",
    )


for p in ("L06", "L07", "L08", "L09"):
    PROPERTIES[p] = token_jobs("h_" + p.lower())

PROPERTIES["L10"] = dict(
    bounds="31 pattern shapes with symbolic letters, quantifiers and counts over inputs of 3 letters; every pattern of up to 6 (thorough 7) signs out of a b * + ? | ( ); every pattern of up to 4 (5) arbitrary characters; 8 shapes with bounds around and beyond 32 bits; 14 ambiguous repetitions over inputs of 32 letters the last two of which are symbolic; 16 long patterns that end in 2 arbitrary characters and the long patterns of L02; at most 200 million executed instructions per path",
    quick=each("h_l10", [k for k in range(22) if k not in (12, 14, 19, 21)], 3, 3) + each("h_l10", [12, 14, 19, 21], 3, 2) + each("h_l10", range(22, 31), 3, 3)
    + each("h_l10_text", range(1, 7), 3) + each("h_l10_any", range(0, 5), 2) + each("h_l10_large", range(8), 3)
    + each("h_l10_long", [k for k in range(14) if k != 7], 30) + each("h_l10_long", 7, 8)
    + LONG_PATTERNS("h_l10_far") + each("h_l10_shape", [k for k in range(16) if k not in (8, 14)], 60, 2) + each("h_l10_shape", [8, 14], 8, 2),
    thorough=each("h_l10", range(31), 3, 4) + each("h_l10_text", range(1, 8), 4) + each("h_l10_any", range(0, 6), 2)
    + each("h_l10_large", range(8), 4) + each("h_l10_long", [k for k in range(14) if k != 7], 40) + each("h_l10_long", 7, 10)
    + LONG_PATTERNS("h_l10_far") + each("h_l10_shape", [k for k in range(16) if k not in (8, 14)], 60, 3) + each("h_l10_shape", [8, 14], 8, 3),
)

# Templates of harness/src/p.rs: whole families of small grammars, grammars
# with holes, and large grammars (kind * 1000 + size).
FAMILY = list(range(8))
HOLES = list(range(14, 54)) + list(range(58, 66))
# Templates with few symbolic symbols.
FEW = [k for k in HOLES if k not in (15, 16, 17, 23, 33, 34, 35, 36, 43, 44, 48, 53)]
REST = [k for k in HOLES if k not in FEW and k not in (35, 36, 43, 48)]
SOME = [14, 18, 19, 22, 24, 26, 28, 29, 30, 32, 37, 38, 41]
LARGE = [1012, 2006, 3006, 4005, 5003, 6012, 10004, 11004, 12004]
LONG = [7100, 8120, 9120]
MORE = [101006, 102004, 103004, 104003, 105002, 106006, 108001, 110003, 111003, 112004]
MANY = dict(max_steps=2_000_000_000)
GRAMMARS = "every grammar of 9 families (one variable with two bodies of up to 3, or three bodies of up to 2, or bodies of up to 4 and 2 symbols; two variables with bodies of up to 2 or 3 symbols and up to four rules; three variables with bodies of up to 2 symbols; 1 or 2 terminals) and of 48 templates with symbolic symbols (expressions, dangling else, LALR and LR(1) grammars, lists, nullable chains, brackets, FIRST and FOLLOW sets that grow late, indirect and hidden left recursion, rules out of reach, rules that never end, unit chains, common prefixes; up to 4 variables and 5 terminals)"
SIZES = "; large grammars of nine kinds (one long body, many alternatives, unit chains, rows of nullable variables, precedence levels, common prefixes, chains of FIRST sets, of FOLLOW sets and of empty variables; up to 270 states, 120 variables or 120 terminals), and smaller ones of these kinds with one more rule that contains any symbol"

PROPERTIES["P01"] = dict(
    bounds="every sequence of up to 3 (thorough 4) calls adding rules with up to 2 symbols over up to 3 variables, with the start variable set before, between, after, repeatedly or never; all four forms of adding rules (singly, in bulk with 0 to 2 bodies) for up to 2 calls; behaviour of the built grammar on every sentence of up to 2 tokens; chains of 70 variables with one symbolic symbol, one rule missing and varying start variables",
    quick=each("h_p01", [1, 2, 3], 1, 1, 2, 2, 1) + each("h_p01", 2, 1, 2, 1, 0, 1) + each("h_p01", 3, 1, 2, 1, 0, 0)
    + each("h_p01", 2, 2, 2, 2, 0, 0) + each("h_p01", [2, 3], 1, 3, 1, 0, 0) + each("h_p01", 2, 1, 2, 1, 3, 0)
    + each("h_p01_large", [9, 70], [0, 1]),
    thorough=each("h_p01", [1, 2, 3], 2, 1, 2, 3, 1) + each("h_p01", [2, 3], 1, 2, 1, 2, 1) + each("h_p01", 3, 2, 2, 2, 2, 0)
    + each("h_p01", [2, 3], 1, 3, 1, 2, 0) + each("h_p01", 2, 1, 4, 1, 0, 0)
    + each("h_p01_large", [9, 70, 120], [0, 1]),
)
PROPERTIES["P02"] = dict(
    bounds=GRAMMARS + SIZES,
    quick=each("h_p02", FAMILY + list(range(8, 14)) + HOLES, 0) + each("h_p02", LARGE + [1050, 1270, 2030, 2120, 3030, 3100, 4012, 4060, 5008, 5030, 6060, 6120, 10012, 10040, 11015, 11050, 12020, 12120], 0, **MANY)
    + each("h_p02", [101012, 102008, 103010, 104006, 105004, 106012, 107001, 108001, 110005, 111006, 112008], 0),
    thorough=each("h_p02", FAMILY + list(range(8, 14)) + HOLES, 0) + each("h_p02", range(54, 58), 0) + each("h_p02", LARGE + [1050, 1270, 2030, 2120, 3030, 3100, 4012, 4060, 5008, 5030, 6060, 6120, 10012, 10040, 11015, 11050, 12020, 12120], 0, **MANY)
    + each("h_p02", [101012, 102008, 103010, 104006, 105004, 106012, 107001, 108001, 110005, 111006, 112008], 0),
)
PROPERTIES["P03"] = dict(
    bounds=GRAMMARS + " with every sequence of up to 3 tokens (templates up to 5, thorough 6), one foreign kind among them" + SIZES + " and three grammars with sentences of 200 or more tokens, with one token changed, added or missing",
    quick=each("h_p03", FAMILY, 0, [0, 2, 3]) + each("h_p03", [9, 12, 13], 0, [2, 3]) + each("h_p03", 8, 0, 2) + each("h_p03", 10, 0, 3)
    + each("h_p03", HOLES, 0, [0, 1, 2, 3]) + each("h_p03", FEW, 0, [4, 5]) + each("h_p03", LARGE + LONG, 0, 1)
    + each("h_p03", MORE, 0, 0) + each("h_p03", 1270, 0, 0, **MANY),
    thorough=each("h_p03", FAMILY + [9, 12, 13], 0, range(5)) + each("h_p03", [8, 10, 11], 0, range(5))
    + each("h_p03", HOLES, 0, range(7)) + each("h_p03", LARGE + LONG, 0, 2)
    + each("h_p03", MORE, 0, 1) + each("h_p03", 1270, 0, 1, **MANY),
)
PROPERTIES["P04"] = dict(
    reach={1},
    bounds=GRAMMARS + " with every accepted sequence of up to 3 tokens (templates up to 5, thorough 7)" + SIZES + " and three grammars with sentences of 200 or more tokens, with one token changed, added or missing",
    quick=each("h_p04", FAMILY, 0, [0, 2, 3]) + each("h_p04", [9, 12, 13], 0, [2, 3]) + each("h_p04", 8, 0, 2) + each("h_p04", 10, 0, 2)
    + each("h_p04", HOLES, 0, [0, 2, 3]) + each("h_p04", FEW, 0, [4, 5, 6]) + each("h_p04", LARGE + LONG, 0, 1)
    + each("h_p04", MORE, 0, 0) + each("h_p04", 1270, 0, 0, **MANY),
    thorough=each("h_p04", FAMILY + [9, 12, 13], 0, range(6)) + each("h_p04", [8, 10, 11], 0, range(5))
    + each("h_p04", HOLES, 0, range(8)) + each("h_p04", LARGE + LONG, 0, 2)
    + each("h_p04", MORE, 0, 1) + each("h_p04", 1270, 0, 1, **MANY),
)
PROPERTIES["P05"] = dict(
    bounds=GRAMMARS + " with every sequence of up to 3 tokens (templates up to 5), one foreign kind among them; every pair of sequences of 2 or 3 tokens for reuse" + SIZES + " and three grammars with sentences of 200 or more tokens; at most 200 million executed instructions per path",
    quick=each("h_p05", FAMILY + [9, 12], 0, [0, 1, 3], 0) + each("h_p05", [8, 10], 0, 2, 0) + each("h_p05", HOLES, 0, [0, 1, 2, 3], 0) + each("h_p05", FEW, 0, 5, 0)
    + each("h_p05", [0, 4, 5, 7], 0, 2, 2) + each("h_p05", [k for k in HOLES if k not in (15, 16, 17, 33)], 0, 3, 3)
    + each("h_p05", LARGE + LONG, 0, 1, 0)
    + each("h_p05", MORE, 0, 0, 0) + each("h_p05", 1270, 0, 0, 0, **MANY),
    thorough=each("h_p05", FAMILY + [9, 12, 13, 8, 10, 11], 0, range(5), 0) + each("h_p05", HOLES, 0, range(7), 0)
    + each("h_p05", FAMILY, 0, 2, 3) + each("h_p05", HOLES, 0, 3, 4) + each("h_p05", LARGE + LONG, 0, 2, 0)
    + each("h_p05", MORE, 0, 1, 0) + each("h_p05", 1270, 0, 1, 0, **MANY),
)
PROPERTIES["P06"] = dict(
    bounds="every assignment of 10-bit values to grammar terminals and input tokens, for " + GRAMMARS + ", with every sequence of up to 3 tokens; six grammars with the real hash function, 2 (thorough 4) seeds and three values per token; terminals that are variants of an enum, some of which own memory, with every sequence of up to 3 tokens; a terminal type without contents with up to 5 (thorough 8) tokens",
    quick=each("h_p06", [0, 2, 4, 5, 6, 7], 0, 2, 0) + each("h_p06", HOLES, 0, [1, 2, 3], 0)
    + each("h_p06", [14, 18, 29, 37, 41, 42], 1, [1, 2], 2)
    + each("h_p06_variants", [0, 4, 5], 0, 1) + each("h_p06_variants", FEW, 0, 2) + each("h_p06_variants", SOME, 0, 3) + each("h_p06_unit", FAMILY, 0, 5),
    thorough=each("h_p06", FAMILY, 0, 3, 0) + each("h_p06", HOLES, 0, 4, 0) + each("h_p06", [14, 18, 29, 37, 41, 42], 1, 3, 4)
    + each("h_p06_variants", FAMILY, 0, 2) + each("h_p06_variants", HOLES, 0, 3) + each("h_p06_unit", FAMILY, 0, 8),
)
PROPERTIES["P07"] = dict(
    bounds=GRAMMARS + " with every text of up to 3 (templates up to 4, thorough 6) characters out of 8 tokens and 8 characters no token matches, for a lexer with one pattern, one with patterns that fail half way and one with a pattern per kind; texts of up to 3 (thorough 4) tokens with one of them replaced by any Unicode character",
    quick=each("h_p07", [0, 2, 4, 5, 6, 7], 0, [2, 3], 0) + each("h_p07", HOLES, 0, [1, 2], [0, 1, 2])
    + each("h_p07", FEW, 0, [3, 4], [0, 1]) + each("h_p07", FEW, 0, [1, 2, 3], 3),
    thorough=each("h_p07", FAMILY, 0, [2, 3, 4], [0, 1]) + each("h_p07", HOLES, 0, [4, 5], [0, 1, 2]) + each("h_p07", [14, 18, 19, 29, 37, 41], 0, 6, [0, 1])
    + each("h_p07", [0, 4], 0, [1, 2], 3) + each("h_p07", HOLES, 0, [1, 2, 3, 4], 3),
)
PROPERTIES["P08"] = dict(
    bounds=GRAMMARS + SIZES + "; 12 grammars with the real hash function and 3 (thorough 6) seeds",
    quick=each("h_p08", FAMILY + [8, 10, 12, 13] + HOLES, 0, 0) + each("h_p08", LARGE + [1050, 1270, 2060, 3060, 4030, 5015, 6100, 10020, 11020, 12060], 0, 0, **MANY) + each("h_p08", [102005, 103006, 104004, 105003, 106010, 107001, 108001, 110004, 111004, 112005], 0, 0)
    + each("h_p08", [14, 18, 19, 22, 24, 26, 29, 30, 32, 37, 40, 51], 1, 3),
    thorough=each("h_p08", FAMILY + list(range(8, 14)) + HOLES, 0, 0) + each("h_p08", range(54, 58), 0, 0) + each("h_p08", LARGE + [1050, 1270, 2060, 3060, 4030, 5015, 6100, 10020, 11020, 12060], 0, 0, **MANY) + each("h_p08", [102005, 103006, 104004, 105003, 106010, 107001, 108001, 110004, 111004, 112005], 0, 0)
    + each("h_p08", HOLES, 1, 6),
)
PROPERTIES["P09"] = dict(
    bounds="every order of the rules, with one repeated rule, of every grammar of two families and every rotation and reversal for " + GRAMMARS + " with every sequence of 2 or 3 tokens; the same with the real hash function and 2 (thorough 4) seeds for grammars without families" + SIZES,
    quick=each("h_p09", [1040, 2012, 3012, 4006, 5003, 6020, 10005, 11005, 12005], 0, 1, 2, 0) + each("h_p09", [0, 4], 0, 2, 0, 3) + each("h_p09", [2, 5, 6], 0, 1, 0, 0) + each("h_p09", REST, 0, 1, 0, 0)
    + each("h_p09", FEW, 0, 3, 0, 0) + each("h_p09", SOME, 0, 1, 0, 2) + each("h_p09", FEW, 1, 1, 2, 0),
    thorough=each("h_p09", FAMILY, 0, 2, 0, 3) + each("h_p09", [41, 37, 38, 18, 29, 28, 19], 0, 3, 0, 3) + each("h_p09", HOLES, 0, 4, 0, 2)
    + each("h_p09", HOLES, 1, 3, 4, 2) + each("h_p09", [1080, 2030, 3030, 4010, 5006, 6050, 10010, 11010, 12010], 0, 1, 4, 0),
)
PROPERTIES["P10"] = dict(
    bounds="every placement of 1 or 2 (thorough 3) epsilon symbols, or of a row of 3 or 8 (thorough also 20), into " + GRAMMARS + " with every sequence of 2 or 3 tokens",
    quick=each("h_p10", [0, 2, 4, 5, 6, 7], 0, 1, 1) + each("h_p10", [0, 4], 0, 2, 1) + each("h_p10", 4, 0, 1, 2)
    + each("h_p10", REST, 0, 1, 1) + each("h_p10", FEW, 0, 3, 1) + each("h_p10", SOME, 0, 1, 2) + each("h_p10", [0, 4], 0, 1, 30) + each("h_p10", FEW, 0, 2, [30, 80]) + each("h_p10", [1012, 4003, 5002, 10003, 11003, 12004], 0, 1, 1),
    thorough=each("h_p10", FAMILY, 0, [2, 3], 1) + each("h_p10", FAMILY, 0, 2, 2) + each("h_p10", HOLES, 0, 4, [1, 2]) + each("h_p10", HOLES, 0, 2, 3) + each("h_p10", FAMILY, 0, 2, 30) + each("h_p10", HOLES, 0, 3, [30, 80, 200]),
)
PROPERTIES["P11"] = dict(
    bounds="every sequence of 3 (thorough 4) operations out of building an automaton, building a parser, boxing or unboxing and moving, reordering and rendering, parsing every sequence of 2 tokens, dropping; the trees of every parse are read once all parsers are gone; for " + GRAMMARS + "; terminals own heap memory; every access is checked",
    quick=each("h_p11", [0, 4, 5], 0, 2, 1) + each("h_p11", FEW, 0, 3, 2) + each("h_p11", [14, 18, 29, 37, 41], 0, 4, 2)
    + each("h_p11", [1012, 2006, 4005], 0, 2, 0),
    thorough=each("h_p11", FAMILY, 0, 3, 2) + each("h_p11", HOLES, 0, 4, 2) + each("h_p11", [18, 29, 37, 41], 0, 5, 2),
)
PROPERTIES["P12"] = dict(
    bounds="every sequence of up to 3 calls adding rules with up to 2 symbols (4 calls with up to 1, 2 with up to 3; thorough 4 calls with up to 2) over 2 variables, 2 terminals and epsilon, in all forms, with the start variable set in between; 120 rules and then any variant of four of them; four ways of copying " + GRAMMARS + " with every sequence of up to 3 tokens",
    quick=each("h_p12", 2, 2, [1, 2, 3], 1) + each("h_p12", [1, 2], 1, [2, 3], 2) + each("h_p12", 2, 1, 2, 3) + each("h_p12", 2, 1, 4, 1)
    + each("h_p12_large", [20, 120]) + each("h_p12_copy", [0, 4, 5, 7], 0, 2) + each("h_p12_copy", FEW, 0, [2, 3]) + each("h_p12_copy", REST, 0, 1)
    + each("h_p12_copy", [1012, 2006, 4005, 10004], 0, 1),
    thorough=each("h_p12", 2, 2, 3, 2) + each("h_p12", 2, 1, 4, 2) + each("h_p12", 2, 1, 3, 3) + each("h_p12", 2, 1, 5, 1)
    + each("h_p12_large", [20, 120]) + each("h_p12_copy", FAMILY, 0, 3) + each("h_p12_copy", HOLES, 0, [2, 3, 4])
    + each("h_p12_copy", LARGE, 0, 1),
)
