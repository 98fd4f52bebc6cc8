#!/usr/bin/env python3
"""Writes harness/src/records/recs_items.inc (record declarations deriving the codec
traits) and harness/src/records/recs_ty.inc (their description for the monitors).
Deterministic; the output is committed."""
import os, random
R = random.Random(20240611)
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src", "records")

# type: (text, min width, fixed?, greedy?)
LEAF = [
    ("()", 0, 1, 0), ("bool", 1, 1, 0), ("u8", 1, 1, 0), ("i8", 1, 1, 0), ("u16", 2, 1, 0), ("i16", 2, 1, 0), ("u32", 4, 1, 0),
    ("i32", 4, 1, 0), ("u64", 8, 1, 0), ("i64", 8, 1, 0), ("f64", 8, 1, 0), ("u30", 4, 1, 0), ("i31", 4, 1, 0),
    ("RangedInt<u8, 3, 200>", 1, 1, 0), ("RangedInt<i16, -300, 300>", 2, 1, 0), ("RangedInt<u16, 1000, 1010>", 2, 1, 0),
    ("FUnit", 8, 1, 0), ("FixedBytes<1>", 1, 1, 0), ("FixedBytes<4>", 4, 1, 0), ("FixedBytes<0>", 0, 1, 0), ("FixedString<3>", 3, 1, 0),
    ("ESparse8", 1, 1, 0), ("EUnordered16", 2, 1, 0), ("EWide32", 4, 1, 0),
    ("N", 1, 0, 0), ("Z", 1, 0, 0), ("DMixed", 1, 0, 0), ("DWide", 2, 0, 0),
    ("Option<u8>", 1, 0, 0), ("Option<()>", 1, 0, 0), ("Option<N>", 1, 0, 0),
]
GREEDY = [("String", 0, 0, 1), ("Vec<u8>", 0, 0, 1), ("Bytes", 0, 0, 1), ("Sequence<u16>", 0, 0, 1), ("Sequence<N>", 0, 0, 1),
          ("LimSeq<u8, 3>", 0, 0, 1), ("Nullable<u16>", 0, 0, 1), ("Nullable<Dynamic<u8, String>>", 0, 0, 1), ("VPadded<Bytes, 0>", 0, 0, 1)]
recs = []


def field(depth):
    k = R.randrange(20)
    if k < 8 or depth <= 0:
        return R.choice(LEAF)
    if k < 11 and recs:
        r = R.choice([x for x in recs if not x[3]] or [LEAF[1]])
        return r
    if k < 14:
        p = R.choice([("u8", 1), ("u8", 1), ("u16", 2), ("u30", 4)])
        t = R.choice(GREEDY) if R.randrange(2) else (R.choice(recs) if recs and R.randrange(2) else field(depth - 1))
        return (f"Dynamic<{p[0]}, {t[0]}>", p[1], 0, 0)
    if k == 14:
        t = field(depth - 1)
        return (f"Option<{t[0]}>", 1, 0, 0)
    if k == 15:
        t = R.choice([x for x in LEAF if x[2]])
        n = R.randrange(0, 5)
        return (f"Padded<{t[0]}, {n}>", t[1] + n, 0, 0)
    if k == 16:
        t = field(depth - 1)
        while t[1] == 0:
            t = field(depth - 1)
        n = R.randrange(1, 4)
        return (f"FixSeq<{t[0]}, {n}>", t[1] * n, 0, 0)
    if k == 17:
        t = field(depth - 1)
        return (f"AutoBox<{t[0]}>", t[1], 0, 0)
    if k == 18:
        t = field(depth - 1)
        while t[1] == 0:
            t = field(depth - 1)
        return (f"Dynamic<u16, Sequence<{t[0]}>>", 2, 0, 0)
    t = field(depth - 1)
    while t[1] == 0:
        t = field(depth - 1)
    return (f"Dynamic<u8, LimSeq<{t[0]}, {R.randrange(0, 4)}>>", 1, 0, 0)


HOSTILE = ["buf", "p", "u", "f", "x", "n", "len", "r#type", "pos0", "pos1", "some", "none", "write_to", "unknown", "parse", "r#match", "known", "estimate",
           "tedium", "resolve_zero", "_0", "self_", "fixed", "_x", "i", "ty", "value", "name", "encode", "decode", "target", "std", "option", "usize_", "r#fn", "a", "b", "c", "d", "e",
           "__pad", "__", "___0", "_reserved", "_padding", "__private", "UPPER", "X", "mixedCase", "r#async", "r#struct", "r#use", "naïve", "tag", "skip", "phantom", "marker",
           "size", "id", "data", "bytes", "hash", "version", "ret", "acc", "tgt", "buffer", "parser", "_buf", "_p", "x0", "x1", "_1", "out", "count", "total", "sum", "res", "result",
           "this", "other", "output", "field", "fields", "max", "min", "reserved", "dummy", "ignored", "unused", "padding"]
deck = []


def names_for(n):
    """n distinct names; every name of the pool gets its turn"""
    got = []
    while len(got) < n:
        if not deck:
            deck.extend(HOSTILE)
            R.shuffle(deck)
        x = next((d for d in deck if d not in got), None)
        if x is None:
            deck.extend(R.sample(HOSTILE, len(HOSTILE)))
            continue
        deck.remove(x)
        got.append(x)
    return got


ITEMS, TYS, NAMES = [], [], []
COUNTS = [0, 0, 1, 1, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 17, 21]


def emit(i):
    name = f"R{i:02d}"
    # the parser's own type parameter and the target's are commonly called these
    if i == 5:
        name = "P"
    if i == 8:
        name = "U"
    if i == 11:
        name = "T"
    form = R.choice(["named", "named", "tuple", "tuple"])
    n = COUNTS[i % len(COUNTS)]
    if n == 0:
        form = R.choice(["unit", "tuple", "named"])
    mode = "fixed" if R.randrange(5) == 0 else "any"
    fs = []
    for j in range(n):
        if mode == "fixed":
            c = [x for x in LEAF if x[2]] + [x for x in recs if x[2]] * 3
            fs.append(R.choice(c))
        else:
            fs.append(field(3 if n < 6 else 2))
    if i == 12:
        # field types named like the type parameters of the generated functions
        fs[-2:] = [x for x in recs if x[0] in ("U", "P")]
    if i == 13:
        fs[-2:] = [x for x in recs if x[0] in ("T", "P")]
    if mode == "any" and n and i not in (5, 8, 11) and R.randrange(3) == 0:
        k = R.randrange(4)
        if k == 0 and n >= 2:
            # a reserve-delimited field followed by exactly its reserve
            res = R.choice([x for x in LEAF if x[2]])
            g = R.choice([x for x in GREEDY if not x[0].startswith("VPadded")])
            fs[-2] = (f"VPadded<{g[0]}, {res[1]}>", 0, 0, 0)
            fs[-1] = (res[0], res[1], res[2], 1)
        else:
            fs[-1] = R.choice(GREEDY)
    fixed = all(f[2] for f in fs) and n > 0
    greedy = any(f[3] for f in fs) or any(f[0].startswith("VPadded") for f in fs)
    width = sum(f[1] for f in fs)
    derive_fixed = fixed and (mode == "fixed")
    if n == 0:
        # with no fields the two length derives give the same implementation
        derive_fixed = bool(R.randrange(2))
    der = ["Encode", "Decode", "FixedLength" if derive_fixed else "Estimable", "Debug", "Clone", "PartialEq"]
    R.shuffle(der)
    vis = lambda: R.choice(["pub ", "", "pub(crate) "])
    doc = R.choice(["", "", "/// documented\n", "#[allow(dead_code)]\n"])
    d = f"{doc}#[derive({', '.join(der)})]\n"
    d += "#[allow(non_camel_case_types, non_snake_case)]\n"
    if form == "unit":
        d += f"pub struct {name};\n"
        TYS.append(f"ty_struct!({name});\nrec!({name});\n")
    elif form == "tuple":
        d += f"pub struct {name}({', '.join(vis() + f[0] for f in fs)});\n"
        b = ", ".join(f"{j}: {f[0]}" for j, f in enumerate(fs))
        TYS.append(f"ty_struct!({name}({b}));\nrec!({name}({b}));\n")
    else:
        names = names_for(n)
        attr = lambda: R.choice(["", "", "", "/// a field\n    "])
        d += f"pub struct {name} {{\n" + "".join(f"    {attr()}{vis()}{nm}: {f[0]},\n" for nm, f in zip(names, fs)) + "}\n"
        b = ", ".join(f"{nm}: {f[0]}" for nm, f in zip(names, fs))
        TYS.append(f"ty_struct!({name} {{ {b} }});\nrec!({name} {{ {b} }});\n")
    if derive_fixed:
        TYS.append(f"lens!({name}: {', '.join(f[0] for f in fs)});\n" if fs else f"lens!({name}:);\n")
    else:
        TYS.append(f"nolens!({name});\n")
    ITEMS.append(d)
    NAMES.append(name)
    # how the record behaves as a field of later records
    recs.append((name, width, int(derive_fixed), int(greedy)))


for i in range(72):
    emit(i)
# records with nothing in them: every form with each of the two length derives
for form, body in (("Unit", ";"), ("Tuple", "();"), ("Braces", " {}")):
    for der in ("FixedLength", "Estimable"):
        name = f"Empty{form}{der[:3]}"
        ITEMS.append(f"#[derive(Encode, Decode, {der}, Debug, Clone, PartialEq)]\npub struct {name}{body}\n")
        b = {"Unit": "", "Tuple": "()", "Braces": " {  }"}[form]
        TYS.append(f"ty_struct!({name}{b});\nrec!({name}{b});\nlens!({name}:);\n")
        NAMES.append(name)

# records whose widths add up to more than 2^8, 2^9 ... bytes
WIDE = [
    ("named", "Estimable", ["FixedBytes<200>", "FixedBytes<100>"]),
    ("named", "FixedLength", ["FixedBytes<200>", "u16", "FixedBytes<100>"]),
    ("tuple", "Estimable", ["FixedBytes<255>", "u8"]),
    ("tuple", "FixedLength", ["FixedBytes<300>"]),
    ("tuple", "Estimable", ["Padded<u16, 300>"]),
    ("named", "Estimable", ["Padded<FixedBytes<257>, 513>"]),
    ("named", "Estimable", ["u8", "FixedBytes<520>", "Dynamic<u16, Bytes>", "FixedBytes<300>"]),
    ("tuple", "Estimable", ["FixedBytes<300>", "Option<FixedBytes<300>>", "N"]),
    ("named", "Estimable", ["Padded<u8, 1030>", "FixSeq<u64, 40>", "FixSeq<FixedBytes<9>, 30>"]),
    ("tuple", "Estimable", ["FixSeq<u32, 64>", "i31", "RWide"]),
]
for j, (form, der, fs) in enumerate(WIDE):
    name = f"Wide{j}"
    d = f"#[derive(Encode, Decode, {der}, Debug, Clone, PartialEq)]\npub struct {name}"
    if form == "tuple":
        d += f"({', '.join('pub ' + f for f in fs)});\n"
        b = "(" + ", ".join(f"{i}: {f}" for i, f in enumerate(fs)) + ")"
    else:
        d += " {\n" + "".join(f"    pub f{i}: {f},\n" for i, f in enumerate(fs)) + "}\n"
        b = " { " + ", ".join(f"f{i}: {f}" for i, f in enumerate(fs)) + " }"
    ITEMS.append(d)
    TYS.append(f"ty_struct!({name}{b});\nrec!({name}{b});\n" + (f"lens!({name}: {', '.join(fs)});\n" if der == "FixedLength" else f"nolens!({name});\n"))
    NAMES.append(name)

# records of very many fields, their names in no order
MANY = [(26, "named", "Estimable"), (33, "named", "FixedLength"), (40, "tuple", "Estimable"), (65, "named", "Estimable"),
        (70, "tuple", "FixedLength")]
for j, (n, form, der) in enumerate(MANY):
    name = f"Many{j}"
    simple = ["u8", "bool", "u16", "i8", "RangedInt<u8, 3, 200>", "FixedBytes<1>", "u32", "i31"]
    fs = [R.choice(simple + (["N", "Option<u8>", "Dynamic<u8, Bytes>"] if der == "Estimable" else [])) for _ in range(n)]
    d = f"#[derive(Encode, Decode, {der}, Debug, Clone, PartialEq)]\npub struct {name}"
    if form == "tuple":
        d += f"({', '.join('pub ' + f for f in fs)});\n"
        b = "(" + ", ".join(f"{i}: {f}" for i, f in enumerate(fs)) + ")"
    else:
        ids = [f"{R.choice('abcxyz_')}{R.choice('qwe')}{i}" for i in range(n)]
        d += " {\n" + "".join(f"    pub {i}: {f},\n" for i, f in zip(ids, fs)) + "}\n"
        b = " { " + ", ".join(f"{i}: {f}" for i, f in zip(ids, fs)) + " }"
    ITEMS.append(d)
    TYS.append(f"ty_struct!({name}{b});\nrec!({name}{b});\n" + (f"lens!({name}: {', '.join(fs)});\n" if der == "FixedLength" else f"nolens!({name});\n"))
    NAMES.append(name)

with open(os.path.join(OUT, "recs_items.inc"), "w") as f:
    f.write("// generated by tools/gen_records.py\n" + "\n".join(ITEMS))
with open(os.path.join(OUT, "recs_ty.inc"), "w") as f:
    f.write("// generated by tools/gen_records.py\n" + "".join(TYS))
    f.write("\npub fn records() -> Vec<RecOps> {\n    vec![" + ", ".join(f"RecOps::of::<{n}>()" for n in NAMES) + "]\n}\n")
