"""The verification units, and which units and bounded stand-ins decide which property."""

UNITS = {
    "scanner": dict(overlays=["prelude.vx", "utfoff.vx", "scanner.vx", "text.vx", "scan.vx"], rlimit=200, floor=178, default=["P05", "P06", "P07"]),
    "utf8": dict(overlays=["prelude.vx", "utfon.vx", "scanner.vx", "text.vx", "scan.vx"], rlimit=200, floor=210, only="P08", base="scanner"),
    "parser": dict(overlays=["prelude.vx", "utfoff.vx", "~scanner.vx", "text.vx", "~scan.vx", "parser.vx"], rlimit=300, floor=132, default=[]),
    "scalar": dict(overlays=["prelude.vx", "utfoff.vx", "scalar.vx"], rlimit=50, floor=25, default=["P10"]),
    "loader": dict(overlays=["prelude.vx", "utfoff.vx", "~scanner.vx", "text.vx", "~scan.vx", "~parser.vx", "~scalar.vx", "node.vx", "loader.vx"], rlimit=150, floor=215, default=[]),
    "iter": dict(overlays=["prelude.vx", "utfoff.vx", "~scanner.vx", "text.vx", "~scan.vx", "~parser.vx", "iter.vx"], rlimit=100, floor=95, default=["P19"]),
    "node": dict(overlays=["prelude.vx", "utfoff.vx", "~scalar.vx", "node.vx"], rlimit=100, floor=110, default=["P12"]),
}

COMMON = [
    "machine arithmetic is exact (Verus checks every operation for overflow); usize is 64 bits",
    "the standard library behaves as vstd and the assumed specifications listed in trusted_base state",
    "texts are at most 2^32 - 16 bytes long (positions are u32)",
    "default features; allocation succeeds and the call stack suffices",
]
TEXTS = ("texts: token soup, short strings over the indicators, mutated documents, and generated documents with known meaning; "
         "non-trivial: parsing gets past the stream start")

BOTH = ["scanner", "parser"]
PROPS = {
    "P01": dict(note="Proved for all inputs: every transition of the event parser follows the grammar of event streams (ghost automaton), and load delivers what was made; the one-line EventReceiver adapter is bounded.", units=BOTH, rule=TEXTS, assumptions=COMMON),
    "P02": dict(note="Proved for all inputs: peek keeps the event next_event then returns, both hand out the same history of events, and load feeds its receiver exactly that history (with the stream end where pulling gives it); the Iterator does the same; the one-line EventReceiver adapter is bounded.", units=BOTH, rule=TEXTS, assumptions=COMMON),
    "P03": dict(note="Proved for all inputs: identifiers, aliases and the anchor table follow the anchors written, and anchor and alias tokens carry the name as written (every byte up to a separator).", units=BOTH, rule=TEXTS, assumptions=COMMON),
    "P04": dict(note="Proved for all inputs: tags resolve by the directives in force, and the tokens carry handle, suffix and prefix as written, percent-decoded.", units=BOTH, rule=TEXTS, assumptions=COMMON),
    "P05": dict(note="Proved for all inputs for scanner and event parser: every loop and recursion has a decreasing measure, at most 8*length+4 tokens are delivered and every event lowers a bound linear in them.", units=BOTH, rule=TEXTS, assumptions=COMMON),
    "P06": dict(note='Proved for all inputs for the byte source, the scanner, the event parser with load and the scalars, nodes and tree loader: no overflow, index, unwrap, assertion or unreachable can fail, also after an error; the tree loader likewise on what a parser feeds it.', units=BOTH + ["scalar", "loader"], rule=TEXTS, assumptions=COMMON),
    "P07": dict(note='Proved for all inputs: every token and event span and the cursor lie on the line and column of their offset. A scalar span starts at the first byte of its text and ends where the specification of its content ends; error markers are bounded.', units=BOTH, rule=TEXTS, assumptions=COMMON),
    "P08": dict(note="Proved for all inputs: every conversion without a check receives valid UTF-8, because the content specifications yield it from a valid text and tokens start at character boundaries; all other strings are built by safe Rust.", units=["scanner", "utf8"], rule=TEXTS, assumptions=COMMON),
    "P09": dict(note="Proved for all inputs: the content of quoted scalars, the escape and the percent decoding equal a specification of escapes over the source bytes, and the scalars delivered by the event parser say it; the value table of escapes is the specification's.", units=BOTH, rule=TEXTS, assumptions=COMMON),
    "P10": dict(note="Proved for every text, style and tag: the value is the core schema's, stated as a specification of texts; what Rust's own number parsers return is assumed (their documented grammar).", units=["scalar"], rule="texts near the core schema's words and numbers with every style and tag, alone and in documents; non-trivial: every case", assumptions=COMMON),
    "P11": dict(note="Proved for all inputs: the loader's documents are the trees that a specification of event sequences builds from the parser's events (ghost fold), each loading function returns them, and an error of the parser is returned.", units=["scanner", "parser", "loader"], rule="documents with known events, loaded by every loading function; non-trivial: the text parses to at least one document", assumptions=COMMON + ["a clone of a node equals its origin; From<YamlData> wraps the data (assumed of generic nodes)"]),
    "P12": dict(note="Proved for every node: all typed accessors, mutable accessors and lookups of the nodes and their containers agree with the node's ghost shape; indexing operators, equality and clones are bounded.", units=["node"], rule="nodes built directly and loaded from generated documents, every accessor, index and comparison on each; non-trivial: every case", assumptions=COMMON),
    "P13": dict(note="Proved for all inputs: every plain or quoted scalar token carries the content a specification of folding gives for its source text, plain scalars extend exactly as far as the specification says, and the event parser delivers that content unchanged.", units=BOTH, rule=TEXTS, assumptions=COMMON),
    "P14": dict(note="Proved for all inputs: every block scalar token carries the content a specification of header, indentation, chomping and folding gives for the lines after it, and the event parser delivers that content unchanged.", units=BOTH, rule=TEXTS, assumptions=COMMON),
    "P19": dict(note="Proved for all inputs: what the iterator yielded is the image of the first document of the parser's events, it ends when that document is complete or the parser fails (with the parser's error), and stays ended.", units=["scanner", "parser", "iter"], rule=TEXTS, assumptions=COMMON),
    "P21": dict(note='Proved for all texts and positions on the string source and its shared operations; two bodies are trusted (listed in the evidence).', units=["scanner"], rule="random texts and operation sequences on the string source; non-trivial: the text is not empty", assumptions=COMMON),
}
