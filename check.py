#!/usr/bin/env python3
"""check.py <property> <quick|thorough>: build the harness against /repo, explore, write evidence.

Exit 0: the property held on everything explored. Exit 1: a VIOLATION line was printed.
Exit 2: the check itself failed.
"""
import json
import os
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
KNOWN = os.path.join(ROOT, "known-findings.txt")
EVIDENCE = os.path.join(ROOT, "evidence")
STABLE, NIGHTLY = "1.81.0", "nightly-2024-09-06"

# property: level, harness binaries, where they are built. The budget of a run is shared among them.
OBJ = ["obj_ints", "obj_base", "obj_seqs", "obj_nest_plain", "obj_nest_string", "obj_nest_file", "obj_nest_unit"]
OBJS = set(OBJ) | {"share", "derive", "proc", "mains", "mains_tokio", "ptrs", "calls", "own"}  # built with the profile `objs`


def on(toolchain, *bins):
    return [(b, toolchain) for b in bins]


def both(*bins):
    return on(STABLE, *bins) + on(NIGHTLY, *bins)


CHAN = on(STABLE, "chan")
PROC = on(STABLE, "proc")
# Programs that a harness runs
HELPERS = {"C18": on(STABLE, "mains", "mains_tokio")}
PROPS = {
    "C01": ("model_checking", CHAN),
    "C02": ("model_checking", CHAN),
    "C03": ("model_checking", CHAN),
    "C04": ("fault_enumeration", CHAN),
    "C05": ("fault_enumeration", CHAN),
    "C06": ("model_checking", on(STABLE, "rt")),
    "C07": ("exploration", both(*OBJ)),
    "C08": ("exploration", both("derive")),
    "C09": ("model_checking", on(STABLE, "share")),
    "C10": ("exploration", both("ptrs")),
    "C11": ("exploration", both("calls")),
    "C12": ("fault_enumeration", PROC),
    "C13": ("model_checking", PROC),
    "C14": ("model_checking", PROC),
    "C15": ("fault_enumeration", CHAN),
    "C16": ("fault_enumeration", PROC),
    "C17": ("exploration", both("share")),
    "C18": ("model_checking", PROC),
    "C19": ("fault_enumeration", CHAN),
    "C20": ("model_checking", CHAN),
    "C21": ("exploration", both("own")),
    "C22": ("fault_enumeration", PROC),
}
RULES = {
    "C04": "An execution is one choice of which calls are interrupted or answer EAGAIN, and of a schedule; it is "
           "non-trivial if at least one call was.",
    "C05": "An execution is one choice of the failing call and its error, or of the points at which futures are "
           "dropped, and of a schedule; non-trivial unless nothing failed and nothing was dropped.",
    "C07": "An execution is one value of one type, passed through the serializer or a channel; all are non-trivial "
           "(scenarios enumerate types, choices enumerate values).",
    "C08": "An execution is one value of one declared type next to another; all are non-trivial.",
    "C17": "An execution is one arrangement of objects and delayed objects, one carrier and one order of unwrapping; "
           "all are non-trivial.",
    "C10": "An execution is one sequence of references and one path between processes; all are non-trivial.",
    "C11": "An execution is one function, one way of binding its arguments and one history of calls and transfers; "
           "non-trivial unless the history exceeds the number of child processes allowed.",
    "C12": "An execution is one way for the child to end (or one call at which it dies), one value, one pair of executors "
           "and one moment of joining; all are non-trivial.",
    "C16": "An execution is one failing call and its error, one descriptor limit, one death of the child or one point of "
           "dropping the future; non-trivial unless the fault point was not reached.",
    "C15": "An execution is one history together with the call that fails; non-trivial unless the chosen history does "
           "not exist or the fault point was not reached.",
    "C22": "An execution is one signal, one way of reacting to it, one recipient and one call before which it arrives (or the number of "
           "times it interrupts a wait); non-trivial unless the call is never reached.",
    "C21": "An execution is one value of one type, callable or history of an endpoint or child, and the point at which it fails, "
           "panics or is abandoned; non-trivial unless the chosen history or point does not exist.",
    "C19": "An execution is one object shape, number of free descriptors and order of operations; all are non-trivial.",
}


DFS = "stateless model checking of the implementation: "
TECHNIQUE = {
    "C01": DFS + "all schedules of senders and receivers up to a preemption bound, against a queue",
    "C02": DFS + "all schedules and closing points up to a preemption bound",
    "C03": DFS + "every number of handles and all schedules up to a preemption bound",
    "C04": DFS + "every placement of EINTR and EAGAIN up to a deviation bound",
    "C05": DFS + "every failing call and every point of dropping a future, up to a deviation bound",
    "C06": DFS + "all schedules, up to a preemption bound, of two sides that run all scripts up to a length on the real "
           "runtimes; a lost wake-up is a deadlock",
    "C07": "bounded exhaustive enumeration of values of every supported type and nesting, executed on the implementation",
    "C08": "bounded exhaustive enumeration of type declarations (a grammar) and of their values, executed on the implementation",
    "C09": "bounded exhaustive exploration: all sharing graphs up to a size, against a reference isomorphism check",
    "C17": "bounded exhaustive exploration: all arrangements of delayed objects up to a size, against a reference",
    "C10": "bounded exhaustive exploration: all sequences of references along all paths between up to three processes, executed on the implementation",
    "C11": "bounded exhaustive exploration: all ways of binding up to 20 arguments, in all histories of calls and transfers up to a depth, against a reference",
    "C12": DFS + "every way and every system call at which the child ends",
    "C13": DFS + "all schedules of joining, killing and the end of the child up to a preemption bound",
    "C14": DFS + "all arrangements of handles up to a size, and all schedules of concurrent spawns up to a preemption bound",
    "C16": DFS + "every failing call, descriptor limit, death of the child and point of dropping the future",
    "C18": DFS + "all process trees up to a size, and all schedules of concurrent spawns up to a preemption bound",
    "C15": DFS + "every failing call of every operation, comparing the descriptor table",
    "C19": DFS + "every number of free descriptors, under a real descriptor limit",
    "C20": DFS + "all operation sequences up to a depth, against a model of two queues",
    "C22": DFS + "every call before which a signal arrives, every recipient, signal and way of reacting to it",
    "C21": "bounded exhaustive exploration: all nestings of types, histories of callables, endpoints and children up to a depth, failing "
           "at every point, executed under an allocator that knows every block and with values that know whether they are alive",
}
COMMON = ("Exhaustive within the bounds stated in DESIGN.md; the real library runs on the real kernel with its system "
          "calls interposed. Trusts the kernel, the interposition layer and the reference in the harness. ")
NOTES = {
    "C01": COMMON + "Objects of 0 to 3 packets, some of up to 1025, up to 3 endpoints, preemptions at system calls only.",
    "C02": COMMON + "Objects of 0 to 4 packets.",
    "C03": COMMON + "0 to 529 handles (thorough: 1099).",
    "C04": COMMON + "Interruptions are injected as EINTR return values rather than by real signals.",
    "C05": COMMON + "Injected errors are those the kernel documents for the call.",
    "C06": COMMON + "tokio's current-thread runtime and smol's reactor; all pairs of scripts of up to 3 operations that a "
           "simulation on bounded queues says must complete, 13 ways of closing, children of each runtime.",
    "C07": COMMON + "Boundary and representative values of each base type; containers of length up to 3, nested two deep; "
           "stable and nightly.",
    "C08": COMMON + "479 generated declarations and 50 hand-written ones (generics, recursion, attributes, names, macros); all "
           "combinations of up to three values per field; stable and nightly. A declaration that stops compiling counts.",
    "C09": COMMON + "Graphs of up to 4 nodes (thorough: 5), Rc and Arc, with handles.",
    "C17": COMMON + "Up to 3 objects per level, up to 4 levels; stable and nightly.",
    "C10": COMMON + "27 types behind 5 traits, nested up to two deep, 8 statics and constants, 9 functions, sequences of up to 3; where "
           "processes are loaded is chosen by the kernel, the check goes on until children were loaded above and below the "
           "parent. Stable and nightly.",
    "C11": COMMON + "946 functions and lambdas (all modes of up to 3 arguments, uniform and mixed ones of up to 20), histories of 2 "
           "operations (thorough: 3) and a final call; 36 more against plain closures. Stable and nightly.",
    "C12": COMMON + "The child dies at any of the calls crossmist makes in it, with every exit status and deadly signal.",
    "C13": COMMON + "Up to 3 killers, a joiner and the end of the child; up to 7 preemptions.",
    "C14": COMMON + "Up to 3 handles of 10 kinds in every combination, up to 1000 handles, grandchildren.",
    "C16": COMMON + "One failing call with the errors documented for it, plus interruptions of the cleanup.",
    "C18": COMMON + "Trees of up to 4 processes (thorough: 6), 12 x 5 similar functions, three ways of spawning, 288 surroundings.",
    "C15": COMMON + "One or two injected failures per history.",
    "C19": COMMON + "Every descriptor limit from none to one more than needed.",
    "C22": COMMON + "8 signals, arriving before the calls that are interposed (not between two instructions); up to 2 (thorough: 4) "
           "interruptions of each wait.",
    "C21": COMMON + "Types nested two deep, containers of length up to 2 (sets: 3), failures at the first 9 values; histories of 4 operations "
           "(thorough: 6) on endpoints and of 3 (thorough: 4) on callables. A panic in the middle of receiving may leak. Stable and nightly.",
    "C20": COMMON + "Histories of up to 4 operations (thorough: 5) followed by draining, including two endpoints that are one socket.",
}


def sh_env(toolchain):
    env = dict(os.environ)
    target = os.path.join(ROOT, "target", "nightly" if toolchain == NIGHTLY else "stable")
    env.update(CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN=toolchain, CARGO_TARGET_DIR=target)
    env.pop("RUSTFLAGS", None)
    for k in [k for k in env if k.startswith("MC_")]:
        del env[k]
    return env, target


def build(bins, toolchain):
    """Builds binaries of one profile. Returns ({binary: path}, log); binaries that failed are missing."""
    env, target = sh_env(toolchain)
    bins = list(dict.fromkeys(bins))
    objs = bins[0] in OBJS
    assert all((b in OBJS) == objs for b in bins)
    os.makedirs(target, exist_ok=True)
    paths = {b: os.path.join(target, "objs" if objs else "debug", b) for b in bins}

    def cargo(names):
        cmd = ["cargo", "build", "--offline", "--manifest-path", os.path.join(ROOT, "mc", "Cargo.toml")]
        for b in names:
            cmd += ["--bin", b]
        if objs:
            cmd += ["--profile", "objs"]
        if toolchain == NIGHTLY:
            cmd += ["--features", "nightly"]
        return subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

    p = cargo(bins)
    if p.returncode == 0:
        return {b: x for b, x in paths.items() if os.path.exists(x)}, p.stdout
    if len(bins) == 1:
        return {}, p.stdout
    ok = {}
    for b in bins:
        if cargo([b]).returncode == 0:
            ok[b] = paths[b]
    return ok, p.stdout


def groups(runs):
    g = {}
    for b, t in runs:
        g.setdefault((t, b in OBJS), []).append(b)
    return [(t, bins) for (t, _), bins in g.items()]


def build_all():
    for toolchain, bins in groups(sorted({r for _, runs in [*PROPS.values(), *HELPERS.items()] for r in runs})):
        paths, log = build(bins, toolchain)
        for b in sorted(set(bins)):
            print(f"{b} {toolchain}: {'built' if b in paths else 'failed'}")
        if len(paths) < len(set(bins)):
            sys.stdout.write(log[-6000:])
    return 0


def main():
    if sys.argv[1] == "--build":
        return build_all()
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        raise SystemExit(2)
    level, runs = PROPS[prop]
    os.makedirs(EVIDENCE, exist_ok=True)
    t0 = time.time()
    reports, notes = [], []
    violation = None
    total = 240 if tier == "quick" else 780
    built = {}
    wanted = groups(runs + HELPERS.get(prop, []))
    with ThreadPoolExecutor() as pool:  # each toolchain has a directory of its own
        per_toolchain = pool.map(lambda t: [(t, bins, build(bins, t)) for u, bins in wanted if u == t], (STABLE, NIGHTLY))
    for toolchain, bins, (paths, log) in [x for l in per_toolchain for x in l]:
        for b in bins:
            built[b, toolchain] = (paths.get(b), log)
    for binary, toolchain in HELPERS.get(prop, []):
        if built[binary, toolchain][0] is None:
            sys.stdout.write(built[binary, toolchain][1][-6000:])
            print(f"{prop}: the program {binary} does not build")
            return 2
    for n, (binary, toolchain) in enumerate(runs):
        path, log = built[binary, toolchain]
        if path is None:
            sys.stdout.write(log[-6000:])
            if binary in MUST_COMPILE and library_builds(toolchain):
                # The programs in this harness are objects the property speaks of
                violation = ("compilation", "", "a program the property covers does not compile", log, binary, toolchain)
                break
            print(f"{prop}: the harness {binary} does not build with {toolchain}")
            return 2
        out = os.path.join(EVIDENCE, f".{prop}.{n}.json")
        if os.path.exists(out):
            os.unlink(out)
        env, _ = sh_env(toolchain)
        left = total - (time.time() - t0)
        env["MC_DEADLINE"] = str(max(20, int(left / (len(runs) - n))))
        p = subprocess.run([path, "--prop", prop, "--tier", tier, "--out", out, "--known", KNOWN], env=env)
        if not os.path.exists(out):
            print(f"{prop}: {binary} left no report (status {p.returncode})")
            return 2
        r = json.load(open(out))
        os.unlink(out)
        r["harness"] = f"{binary} ({toolchain})"
        reports.append(r)
        if r["violations"]:
            v = r["violations"][0]
            violation = (v["scenario"], v["trace"], v["message"], "", binary, toolchain)
            break
        if p.returncode != 0:
            print(f"{prop}: {binary} failed: {r['errors'][:3]}")
            return 2
    write_evidence(prop, tier, level, reports, violation, time.time() - t0)
    for r in reports:
        for k in r["known"]:
            print(f"KNOWN-FINDING: property={prop} {k['scenario']}: {k['message']}")
    if violation:
        scenario, trace, message, log, binary, toolchain = violation
        replay = os.path.join(EVIDENCE, f"{prop}.replay")
        with open(replay, "w") as f:
            f.write(f"property: {prop}\nscenario: {scenario}\ntrace: {trace}\nmessage: {message}\n")
            f.write(f"harness: {binary} {toolchain}\n")
            f.write(f"rerun: {ROOT}/replay.sh {replay}\n{log}")
        print(message)
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    return 0


MUST_COMPILE = {"derive"}


def library_builds(toolchain):
    return bool(build(["chan"], toolchain)[0])


def write_evidence(prop, tier, level, reports, violation, wall):
    s = lambda k: sum(r[k] for r in reports)
    samples = [dict(x, harness=r["harness"]) for r in reports for x in r["samples"]][:20]
    cov = {
        "scenarios": s("scenarios"),
        "scenarios_explored_completely": s("complete_scenarios"),
        "exhaustive": bool(reports) and all(r["exhaustive"] for r in reports) and violation is None,
        "longest_execution_choices": max([r["max_depth"] for r in reports] or [0]),
        "distinct_outcomes": s("distinct_outcomes"),
        "harnesses": [r["harness"] for r in reports],
        "unconfirmed": [u for r in reports for u in r["unconfirmed"]],
        "samples": samples,
    }
    if level == "model_checking":
        cov.update(
            states=s("nodes"), transitions=s("steps"), traces_validated_against_impl=s("executions"),
            explanation="The model is the implementation: every execution runs the real code under the explorer, so every "
            "explored trace is one of the implementation. states: nodes of the choice tree; transitions: choices made and "
            "system calls controlled on the way; traces: complete executions compared with the reference.",
        )
    else:
        cov.update(evaluations=s("executions"), distinct_nontrivial=min(s("distinct_outcomes"), s("nontrivial")),
                   nontrivial_executions=s("nontrivial"), choice_tree_nodes=s("nodes"), rule=RULES[prop] +
                   " distinct_nontrivial counts the distinct outcomes observed per scenario.")
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level, "coverage": cov,
        "assumptions": [
            "Linux AF_UNIX semantics are those of the running kernel; only the errors a real kernel can return are injected.",
            "Threads are preempted at system calls and lock operations only.",
        ],
        "wall_s": round(wall, 2), "violations": 1 if violation else 0,
    }
    tmp = os.path.join(EVIDENCE, f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVIDENCE, f"{prop}.json"))


if __name__ == "__main__":
    sys.exit(main())
