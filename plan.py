"""Which monitors decide which property, in which builds."""

# Build configurations. "debug" has overflow checks, debug assertions and the
# standard library's unsafe-precondition checks; "release" has none of them.
ASAN = {"ASAN_OPTIONS": "exitcode=99:detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=1"}
MIRI = {"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-symbolic-alignment-check"}
CONFIGS = {
    "debug": {},
    "release": {"release": True},
    # the opt-in checks that change which inputs are accepted
    "ccp": {"features": ["check_complete_parse"]},
    "hexsrc": {"features": ["implicit_hexstring"]},
    # the other backing containers
    "arr": {"features": ["arrayvec_fixseq", "arrayvec_limseq"]},
    "arrfix": {"features": ["arrayvec_fixseq"]},
    # AddressSanitizer; the same with inline (fixed-capacity) storage; the interpreter
    "asan": {"toolchain": ["+nightly"], "rustflags": "-Zsanitizer=address", "target": "x86_64-unknown-linux-gnu", "runenv": ASAN},
    "asanarr": {"toolchain": ["+nightly"], "rustflags": "-Zsanitizer=address", "target": "x86_64-unknown-linux-gnu", "runenv": ASAN,
                "features": ["arrayvec_fixseq", "arrayvec_limseq"]},
    "miri": {"miri": True, "runenv": MIRI},
    "miriarr": {"miri": True, "runenv": MIRI, "features": ["arrayvec_fixseq", "arrayvec_limseq"]},
    "arrlim": {"features": ["arrayvec_limseq"]},
    # the features that must change nothing: one by one, and together
    "elo": {"features": ["enc_len_estimable_override"]},
    "relaxed": {"features": ["relaxed_padding_invariant"]},
    "fmt": {"features": ["index_binary_formatting"]},
    "serde": {"features": ["serde_impls", "serde_probe"]},
    "neutral": {"features": ["enc_len_estimable_override", "relaxed_padding_invariant", "index_binary_formatting", "serde_impls", "serde_probe"]},
    "every": {"features": ["arrayvec_fixseq", "arrayvec_limseq", "enc_len_estimable_override", "relaxed_padding_invariant", "index_binary_formatting",
                           "serde_impls", "serde_probe"]},
    # the opt-in checks
    "checkpad": {"features": ["check_padding"]},
    "checkrange": {"features": ["invalid_range_checking"]},
    "checks": {"features": ["check_padding", "invalid_range_checking", "check_complete_parse", "implicit_hexstring"]},
    "total": {"features": ["check_padding", "invalid_range_checking", "check_complete_parse", "implicit_hexstring",
                           "arrayvec_fixseq", "arrayvec_limseq", "enc_len_estimable_override", "relaxed_padding_invariant", "index_binary_formatting",
                           "serde_impls", "serde_probe"]},
    "hexccp": {"features": ["implicit_hexstring", "check_complete_parse"]},
}

ASSUMPTIONS = [
    "the monitors observe only the executions they produce: the result is 'held on the executions observed', not a proof",
    "cases are drawn from VERIF_SEED; each can be replayed alone with check --replay",
]


def job(bin, config="debug", prop=None, scale=None, **kw):
    j = {"bin": bin, "config": config}
    if prop:
        j["prop"] = prop
    if scale:
        j["scale"] = {"quick": scale[0], "thorough": scale[1]}
    j.update(kw)
    return j


BOTH = ("debug", "release")

PLAN = {
    "C01": {"jobs": [job("codec", c) for c in BOTH],
            "rule": "a distinct (type, value) pair whose encoding was decoded again"},
    "C02": {"jobs": [job("codec", c) for c in BOTH],
            "rule": "a distinct (type, value) pair whose bytes were compared with the reference encoder"},
    "C03": {"jobs": [job("codec", c) for c in BOTH],
            "rule": "a distinct (type, input, outcome) compared with the reference decoder"},
    "C04": {"jobs": [job("codec", c) for c in BOTH],
            "rule": "a distinct (type, hostile input) decoded under CPU, step and memory budgets"},
    "C05": {"jobs": [job("hist", c) for c in BOTH],
            "rule": "a distinct (parser state, operation, outcome) transition compared with the cursor model"},
    "C06": {"jobs": [job("codec"), job("hist"), job("hist", "release")],
            "rule": "a distinct decode or operation history whose outcome was compared across the three parsers"},
    "C07": {"jobs": [job("codec", c) for c in BOTH],
            "rule": "a distinct (type, value) whose reported lengths were compared with its bytes"},
    "C08": {"jobs": [job("targets", c) for c in BOTH],
            "rule": "a distinct (type, value, target) whose bytes were compared with the reference encoding"},
    "C09": {"jobs": [job("ub", c) for c in ("debug", "release", "arr", "asan", "asanarr")]
            + [job("ub", "miri", prop="C09/" + p, limit={"quick": 600, "thorough": 7000}) for p in
               ("bufs+floats", "parsers+zarith", "seqs/0+seqs/1+seqs/3", "fixed/0+fixed/1+fixed/4+fixed/33+text+targets+leftovers+lying", "codec+threads", "owning-small+owning-large")]
            + [job("ub", "miriarr", prop="C09/seqs/1+seqs/3+seqs/8", limit={"quick": 600, "thorough": 7000})]
            # the other monitors' workloads, watched here for crashes and reports only
            + [job(b, c, prop=p, crash_only=True, scale=(s, 1.0)) for b, c, p, s in
               (("codec", "asan", "C04", 0.15), ("hist", "asan", "C05", 0.3), ("seqs", "asanarr", "C11", 0.5), ("hexs", "asan", "C13", 0.3),
                ("zarith", "asan", "C23", 0.3), ("targets", "asan", "C08", 0.3), ("fixed", "asan", "C20", 0.3))],
            "rule": "a distinct (type, operation, argument or input) executed under the instrumentation"},
    "C10": {"jobs": [job("codec", c) for c in BOTH],
            "rule": "a distinct decode whose window events were checked against the exact payload extents"},
    "C11": {"jobs": [job("seqs", c) for c in ("debug", "release", "arr", "arrfix")],
            "rule": "a distinct (container, bound, construction or extension, counts, outcome) compared with a list"},
    "C12": {"jobs": [job("ranged", c) for c in BOTH],
            "rule": "a distinct (ranged type, number) pushed through every constructor, accessor and conversion"},
    "C13": {"jobs": [job("hexs", c) for c in BOTH],
            "rule": "a distinct text or byte string converted to and from hex"},
    "C14": {"jobs": [job("enums", c) for c in BOTH],
            "rule": "a distinct (tagged type, tag or variant) checked against the declared table"},
    "C16": {"jobs": [job("targets", c) for c in BOTH],
            "rule": "a distinct segmentation history compared with a list of segments"},
    "C15": {"jobs": [job("hist"), job("hist", "release"), job("entry", "ccp")],
            "rule": "a distinct (parser state, leftover partition) checked at cleanup"},
    "C17": {"jobs": [job("hist"), job("hist", "release")],
            "rule": "a distinct traced history whose recorded spans were compared with the operations performed"},
    "C18": {"jobs": [job("hist"), job("hist", "release")],
            "rule": "a distinct (buffer, skip or search) compared with reading and discarding"},
    "C19": {"jobs": [job("features", c, same="features") for c in ("debug", "arrfix", "arrlim", "neutral", "every", "checkpad", "checkrange", "checks")]
            + [job("features", c, same="features", tiers=("thorough",)) for c in ("arr", "elo", "relaxed", "fmt", "serde", "ccp", "hexsrc", "total")],
            "rule": "a distinct (type, value or input or history) whose observations were compared across builds"},
    "C20": {"jobs": [job("fixed", c) for c in BOTH],
            "rule": "a distinct (width, source bytes) pushed through every constructor and conversion"},
    "C21": {"jobs": [job("codec"), job("errors"), job("hist"), job("hist", "release")],
            "rule": "a distinct failure whose error was compared with the facts of that failure"},
    "C22": {"jobs": [job("wrap", c) for c in BOTH],
            "rule": "a distinct (wrapper, contents) or pair of contents compared bare and wrapped"},
    "C23": {"jobs": [job("zarith", c) for c in BOTH],
            "rule": "a distinct integer or group sequence compared with the base-128 reference"},
    "C24": {"jobs": [job("derives", c) for c in BOTH], "probe": ("base", "records"),
            "rule": "a distinct (record type, value or input) compared with its fields one by one"},
    "C25": {"jobs": [job("entry"), job("entry", "release"), job("entry", "hexsrc"), job("entry", "hexccp")],
            "rule": "a distinct (type, input, source kind) decoded through every entry point"},
}

# technique and level note per property, for MANIFEST.json
_X = "executions observed, drawn from VERIF_SEED; boundary cases are enumerated, the rest sampled; not exhaustive"
TECH = {
    "C01": ("runtime monitor: round-trip oracle over generated values of 130 codec types, real parsers and targets", _X),
    "C02": ("runtime monitor: independent reference encoder compared byte for byte", _X),
    "C03": ("runtime monitor: independent reference decoder compared on valid, mutated and hostile inputs", _X),
    "C04": ("runtime monitor: CPU, step and allocation budgets plus panic and crash detection on hostile inputs, with and without overflow checks", _X),
    "C05": ("online checker: cursor/window model stepped alongside random operation histories on each parser", _X),
    "C06": ("runtime monitor: differential comparison of the three parsers on decodes and operation histories", _X),
    "C07": ("runtime monitor: every reported, predicted or fixed length compared with the bytes produced", _X),
    "C08": ("runtime monitor: one reference byte list compared with the content of every output target, with pre-filled targets", _X),
    "C09": ("sanitizers: AddressSanitizer, unsafe-precondition checks and Miri over API histories with extreme arguments", _X),
    "C10": ("trace-specification checker over the window events recorded during decoding", _X),
    "C11": ("runtime monitor: list model stepped alongside construction, collection and extension of bounded sequences, both backing containers", _X),
    "C12": ("runtime monitor: integer and float model compared through every constructor, accessor and conversion", _X),
    "C13": ("runtime monitor: plain hexadecimal model compared on generated texts and byte strings", _X),
    "C14": ("runtime monitor: tag table model compared over all 8- and 16-bit tags and sampled 32-bit tags", _X),
    "C15": ("conservation monitor: bytes returned by cleanup matched against bytes never consumed, per window", _X),
    "C16": ("runtime monitor: list-of-segments model stepped alongside builder and buffer histories", _X),
    "C17": ("trace checker: recorded spans compared with the log of successful consuming operations", _X),
    "C18": ("runtime monitor: skip and search compared with reading and discarding on a twin parser", _X),
    "C19": ("offline comparison of observation logs across feature configurations, plus monitors of the opt-in checks", _X),
    "C20": ("runtime monitor: array model compared through every constructor, accessor and conversion", _X),
    "C21": ("runtime monitor: error contents compared with the facts of the failure; every error and value displayed under a panic trap", _X),
    "C22": ("runtime monitor: wrapped and bare values driven side by side through the same operations", _X),
    "C23": ("runtime monitor: independent base-128 reference compared on integers up to thousands of bits", _X),
    "C24": ("runtime monitor: generated record types compared with the concatenation of their fields; derive output built separately", _X),
    "C25": ("runtime monitor: every entry point and source kind compared on the same bytes", _X),
}
