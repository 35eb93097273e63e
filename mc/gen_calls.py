#!/usr/bin/env python3
"""Generates src/calls/fns.rs: functions with arguments of all modes, and all ways of binding them.

Modes: V (by value), R (by reference), M (by mutable reference) of u64; v, r, m of Tok.
"""
import itertools
import os

out = []
w = out.append
rests = set()
cases = []


def ty(m):
    t = "u64" if m.isupper() else "Tok"
    return {"V": t, "R": f"&{t}", "M": f"&mut {t}"}[m.upper()]


def hrtb(m):
    return ty(m).replace("&", "&'a ")


def get(m, i):
    return {"V": f"a{i}", "R": f"*a{i}", "M": f"*a{i}", "v": f"a{i}.0", "r": f"a{i}.0", "m": f"a{i}.0"}[m]


def body(modes, start=0):
    s = "let mut acc = 17u64; "
    for i, m in enumerate(modes):
        s += f"acc = mix(acc, {get(m, i)}); "
    for i, m in enumerate(modes):
        if m in "Mm":
            s += f"{get(m, i)} = mix({get(m, i)}, acc); "
    return s + "acc"


def level(modes, bound):
    h = modes[:bound]
    return "Once" if "v" in h else "Mut" if "M" in h or "m" in h else "Fn"


def short(modes):
    """A name for a sequence of modes"""
    s = ""
    for m, g in itertools.groupby(modes):
        n = len(list(g))
        m = m if m.isupper() else "t" + m
        s += m + (str(n) if n > 1 else "")
    return s or "0"


def bind(m, i):
    v = f"h[{i}]" if m.isupper() else f"Tok::new(h[{i}])"
    return f".bind_{ {'V': 'value', 'R': 'ref', 'M': 'mut'}[m.upper()] }({v})"


def case(name, modes, bound, expr):
    rest = modes[bound:]
    rests.add(rest)
    lv = level(modes, bound)
    cases.append(f'    v.push(Case {{ name: "{name}", modes: "{modes}", bound: {bound}, level: Level::{lv}, '
                 f'make: |h| {{ let _ = h; Box::new(C::<_, L{lv}, S{short(rest)}>({expr}, PhantomData)) }} }});')


def function(modes):
    name = "f_" + short(modes)
    args = ", ".join(f"a{i}: {ty(m)}" for i, m in enumerate(modes))
    w(f"#[func]\npub fn {name}({args}) -> u64 {{ {body(modes)} }}")
    return name


seqs = [()]
for n in (1, 2):
    seqs += itertools.product("VRMvrm", repeat=n)
seqs += itertools.product("VRM", repeat=3)
seqs = ["".join(s) for s in seqs]
few = []
for n in range(4, 21):
    few += [c * n for c in "VRM"]
mixed = ["VRMvrm", "mrvMRV", ("VRM" * 7)[:20], ("MVR" * 7)[:20], ("rMV" * 7)[:19], "RMRMRMRMRV"]
# Rust limits the arity of functions made callable to 20
for s in seqs + few + mixed:
    f = function(s)
    n = len(s)
    bounds = range(n + 1)
    if 4 <= n < 20 and s in few:
        bounds = sorted({0, 1, n // 2, n - 1, n})
    # Each bound argument more multiplies the time rustc takes. What is implemented separately, however, is each
    # number of arguments that are left (0 to 19), and those all occur.
    bounds = [k for k in bounds if k <= (12 if set(s) <= {"V"} else 9)]
    for k in bounds:
        case(f"{short(s)}/{k}", s, k, f + "".join(bind(m, i) for i, m in enumerate(s[:k])))

# Lambdas
for n in range(4):
    for caps in itertools.product(["VRMvrm", "VRMvrm", "VRMv", "VRM"][n], repeat=n):
        for extra in ([0, 1, 2] if n < 2 else [0, 1]):
            for args in ([""] if extra == 0 else ["V", "M", "R", "v"] if extra == 1 and n < 3 else ["V"] if extra == 1 else ["VV", "MR"]):
                modes = "".join(caps) + args
                pre = "".join(f"let a{i} = {f'h[{i}]' if m.isupper() else f'Tok::new(h[{i}])'}; " for i, m in enumerate(caps))
                sig = {"V": "", "R": "&", "M": "&mut "}
                c = ", ".join(f"{sig[m.upper()]}a{i}: {ty(m)}" for i, m in enumerate(caps))
                a = ", ".join(f"a{len(caps) + i}: {ty(m)}" for i, m in enumerate(args))
                moves = [f"move({c}) "] if caps else ["", "move() "]
                if n == 1 or (n == 2 and extra == 1 and args == "V"):
                    moves.append(f"move({c},) ")
                for k, mv in enumerate(moves):
                    commas = [a] if not args else [a] if k else [a, a + ","]
                    for j, al in enumerate(commas):
                        case(f"lambda {short(caps)}|{short(args)}|{k}{j}", modes, n,
                             f"{{ {pre}*lambda! {{ {mv}|{al}| -> u64 {{ {body(modes)} }} }} }}")

# Function pointers
for n in range(21):
    t = "fn(" + ", ".join(["u64"] * n) + ") -> u64"
    args = ", ".join(f"a{i}: u64" for i in range(n))
    w(f"fn plain{n}({args}) -> u64 {{ {body('V' * n)} }}")
    for k in sorted({0, 1, n} & set(range(n + 1))):
        case(f"static{n}/{k}", "V" * n, k, f"unsafe {{ StaticFn::<{t}>::new(plain{n}) }}" + "".join(bind("V", i) for i in range(k)))

# Running in a process: everything by value
runs = []
for s in [x for x in seqs + few if set(x) <= set("Vv")]:
    a = ", ".join(f"h[{i}]" if m == "V" else f"Tok::new(h[{i}])" for i, m in enumerate(s))
    runs.append(f'    v.push(("{short(s)}", "{s}", Box::new(|h: &[u64], how| {{ let _ = h; match how {{ '
                f'0 => f_{short(s)}.run({a}), 1 => f_{short(s)}.spawn({a})?.join(), '
                f'2 => tokio(f_{short(s)}.run_tokio({a})), 3 => smol(f_{short(s)}.run_smol({a})), '
                f'4 => tokio(async {{ f_{short(s)}.spawn_tokio({a}).await?.join().await }}), '
                f'_ => smol(async {{ f_{short(s)}.spawn_smol({a}).await?.join().await }}) }} }})));')

# What is left to pass when calling
for rest in sorted(rests, key=lambda r: (len(r), r)):
    n = short(rest)
    w(f"pub struct S{n};")
    tup = "(" + "".join(hrtb(m) + "," for m in rest) + ")"
    pat = "[" + ", ".join(f"a{i}" for i in range(len(rest))) + "]"
    pre = f"let {pat} = v else {{ unreachable!() }}; "
    post = ""
    args = []
    for i, m in enumerate(rest):
        if m.islower() and m != "v":
            pre += f"let mut t{i} = Tok::new(*a{i}); let t{i} = &mut t{i}; "
            post += f"*a{i} = t{i}.0; "
        args.append({"V": f"*a{i}", "R": f"&*a{i}", "M": f"a{i}", "v": f"Tok::new(*a{i})", "r": f"&*t{i}", "m": f"&mut *t{i}"}[m])
    tupv = "(" + "".join(a + "," for a in args) + ")"
    w(f"callable! {{ S{n}, {tup}, v, [{pre}], {tupv}, [{post}], ({', '.join(args)}) }}")

head = '''//! Generated by gen_calls.py.
#![allow(unused)]
use super::*;
use crossmist::{func, lambda, BindMut, BindRef, BindValue, FnMutObject, FnObject, FnOnceObject, StaticFn};
use std::marker::PhantomData;

'''
parts = 8
text = head + "\n".join(out) + "\n"
step = -(-len(cases) // parts)
for p in range(parts):
    text += f"\nfn cases{p}(v: &mut Vec<Case>) {{\n" + "\n".join(cases[p * step:(p + 1) * step]) + "\n}\n"
text += "\npub fn cases() -> Vec<Case> {\n    let mut v = Vec::new();\n" + "".join(f"    cases{p}(&mut v);\n" for p in range(parts)) + "    v\n}\n"
text += "\npub fn runs() -> Vec<Run> {\n    let mut v: Vec<Run> = Vec::new();\n" + "\n".join(runs) + "\n    v\n}\n"
path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "src", "calls", "fns.rs")
open(path, "w").write(text)
print(len(cases), "cases", len(rests), "rests", len(runs), "runs")
