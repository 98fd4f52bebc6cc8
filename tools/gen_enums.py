#!/usr/bin/env python3
"""Generates harness/src/gen_enums.rs.inc: large enumerations for the tag monitor."""
import random
r = random.Random(7)
out = ["// Generated by tools/gen_enums.py: large enumerations for the tag monitor.\n"]
def cst(name, back, tags):
    body = ", ".join(f"V{i} = {t}" for i, t in enumerate(tags))
    out.append(f"cenum!({name}, {back}, {{ {body} }});\n")
full = list(range(256)); r.shuffle(full)
cst("Full8", "u8", full)
hole = [t for t in range(256) if t not in (0, 0x55, 255)]
cst("Holes8", "u8", hole)
cst("Many16", "u16", r.sample(range(65536), 300))
cst("Edge16", "u16", [0xff, 0x100, 0xff00, 0xffff, 0x8000, 0x7fff, 1, 0])
cst("Many32", "u32", sorted(r.sample(range(2**32), 60)))
cst("Edge32", "u32", [0xff, 0x100, 0xffff, 0x10000, 0xff000000, 0xffffffff, 0x80000000, 0x3fffffff, 0x40000000, 7])
open(__file__.replace("tools/gen_enums.py", "harness/src/gen_enums.rs.inc"), "w").write("".join(out))
