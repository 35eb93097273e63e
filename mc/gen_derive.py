#!/usr/bin/env python3
"""Write src/obj/shapes.rs: every struct and enum of a bounded grammar. Run by hand; the result is committed."""
import itertools
import os

FIELDS = ["u8", "u64", "String", "File", "()", "bool", "Vec<u16>", "Option<u8>"]
# Names the derived code might use itself
NAMES = ["s", "d", "r#type", "a0", "self_", "serde", "i", "value", "a1", "usize", "x"]
out = []
types = []


def declare(kw, name, body, values, same, extra="", empty=False):
    out.append(f"#[derive(Object)]\n{extra}pub {kw} {name}{body}\n")
    arg = "_" if empty else "o"
    out.append(f"impl U for {name} {{\n    fn values() -> Vec<Self> {{\n{values}    }}\n"
               f"    fn same(&self, {arg}: &Self) -> bool {{\n        {same}\n    }}\n}}\n")
    types.append(name)


def combos(ts):
    return "&[" + ", ".join(f"n::<{t}>()" for t in ts) + "]"


def struct(kind, ts, shift=0):
    name = f"S{len(types)}"
    names = [NAMES[(i + shift) % len(NAMES)] for i in range(len(ts))]
    if kind == "unit":
        declare("struct", name, ";", "        vec![Self]\n", "true", empty=True)
        return
    if kind == "tuple":
        body = "(" + ", ".join(ts) + ");"
        make = "Self(" + ", ".join(f"pick(c[{i}])" for i in range(len(ts))) + ")"
        names = [str(i) for i in range(len(ts))]
    else:
        body = " { " + ", ".join(f"{n}: {t}" for n, t in zip(names, ts)) + " }"
        make = "Self { " + ", ".join(f"{n}: pick(c[{i}])" for i, n in enumerate(names)) + " }"
    if ts:
        values = f"        combos({combos(ts)}).into_iter().map(|c| {make}).collect()\n"
    else:
        values = f"        vec![{make}]\n"
    same = " && ".join(f"self.{n}.same(&o.{n})" for n in names) or "true"
    declare("struct", name, body, values, same, empty=not ts)


def enum(variants, name=None, names=None, discr=None, extra=""):
    """variants: (kind, types)"""
    name = name or f"E{len(types)}"
    body, values, same = "", "        #[allow(unused_mut)]\n        let mut v = vec![];\n", "match (self, o) {\n"
    for k, (kind, ts) in enumerate(variants):
        vn = (names or ["Ok", "None", "String", "Err", "Some"] + [f"V{i}" for i in range(1000)])[k]
        fn = [NAMES[(i + k) % len(NAMES)] for i in range(len(ts))]
        d = f" = {discr[k]}" if discr else ""
        if kind == "unit":
            body += f"    {vn}{d},\n"
            values += f"        v.push(Self::{vn});\n"
            same += f"            (Self::{vn}, Self::{vn}) => true,\n"
            continue
        if kind == "tuple":
            body += f"    {vn}({', '.join(ts)}){d},\n"
            make = f"Self::{vn}({', '.join(f'pick(c[{i}])' for i in range(len(ts)))})"
            left = f"Self::{vn}({', '.join(f'l{i}' for i in range(len(ts)))})"
            right = f"Self::{vn}({', '.join(f'r{i}' for i in range(len(ts)))})"
        else:
            body += f"    {vn} {{ {', '.join(f'{a}: {t}' for a, t in zip(fn, ts))} }}{d},\n"
            make = f"Self::{vn} {{ {', '.join(f'{a}: pick(c[{i}])' for i, a in enumerate(fn))} }}"
            left = f"Self::{vn} {{ {', '.join(f'{a}: l{i}' for i, a in enumerate(fn))} }}"
            right = f"Self::{vn} {{ {', '.join(f'{a}: r{i}' for i, a in enumerate(fn))} }}"
        if ts:
            values += f"        v.extend(combos({combos(ts)}).into_iter().map(|c| {make}));\n"
        else:
            values += f"        v.push({make});\n"
        eq = " && ".join(f"l{i}.same(r{i})" for i in range(len(ts))) or "true"
        same += f"            ({left}, {right}) => {eq},\n"
    values += "        v\n"
    if len(variants) != 1:
        same += "            #[allow(unreachable_patterns)]\n            _ => false,\n"
    same += "        }"
    if not variants:
        same = "match *self {}"
    declare("enum", name, " {\n" + body + "}", values, same, extra, empty=not variants)


# Structs
struct("unit", [])
for kind in ["tuple", "named"]:
    struct(kind, [])
    for n, pool in [(1, FIELDS), (2, FIELDS), (3, ["u8", "u64", "String", "File"])]:
        for j, ts in enumerate(itertools.product(pool, repeat=n)):
            struct(kind, ts, j)
    struct(kind, ["u8", "u64", "u8", "u32", "bool", "u16"])
    struct(kind, ["u8"] * 10 + ["String"])
    struct(kind, ["String"] + ["u64"] * 10)
    struct(kind, ["File", "u8"] * 5)
    struct(kind, ["u8", "i128", "char", "f64", "(u8, u32)", "[u16; 3]"])

# Enums
SHAPES = [("unit", []), ("tuple", []), ("named", []), ("tuple", ["u8"]), ("tuple", ["String"]), ("named", ["u8"]),
          ("named", ["File"]), ("tuple", ["u8", "String"]), ("named", ["String", "u64"])]
enum([])
for n in [1, 2]:
    for vs in itertools.product(SHAPES, repeat=n):
        enum(vs)
for vs in itertools.product([SHAPES[0], SHAPES[3], SHAPES[4], SHAPES[8]], repeat=3):
    enum(vs)
for t in FIELDS:
    for k in ["tuple", "named"]:
        enum([(k, [t, "u32", t]), ("unit", []), (k, ["u32", t])])
        enum([("tuple", [t]), ("named", [t]), ("tuple", [t, t])])
enum([("unit", [])] * 3, discr=[5, -3, 100], extra="#[repr(i16)]\n")
enum([("unit", [])] * 4, discr=[0, 128, 255, 3], extra="#[repr(u8)]\n")
enum([("tuple", ["u8"]), ("unit", []), ("named", ["u64"])], discr=[200, 7, 9], extra="#[repr(u8)]\n")
enum([("unit", [])] * 300)
enum([("tuple", ["u8"]), ("unit", []), ("named", ["String"])] * 90)
enum([("tuple", ["u8"])] * 17)
enum([("tuple", ["String", "u8", "u64", "File", "u8", "bool", "u16", "u8", "String", "u8", "()"]),
      ("named", ["String", "u8", "u64", "File", "u8", "bool", "u16", "u8", "String", "u8", "()"])])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "src", "obj", "shapes.rs"), "w") as f:
    f.write("// Written by gen_derive.py.\nuse crate::c07::check;\nuse crate::shapes::*;\nuse crate::uni::U;\nuse crossmist::Object;\nuse std::fs::File;\n")
    f.write("".join(out))
    f.write("\npub fn shapes(v: &mut Vec<mc::Scenario>) {\n")
    f.write("".join(f"    check::<{t}>(v);\n" for t in types))
    f.write("}\n")
print(len(types), "types")
