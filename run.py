#!/usr/bin/env python3
"""Decide one property: python3 run.py P01 [quick|thorough]

Builds the harness from /repo's working tree in every configuration of the
property, runs the search in each, writes evidence/<id>.json and, on a
violation, a replay file:  python3 run.py replay FILE
Exit 0: held. Exit 1 and a VIOLATION line: broken. Exit 2: no answer.
"""
import concurrent.futures as cf
import itertools
import json
import os
import random
import re
import resource
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HERE, "target")
EVIDENCE = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known_findings.txt")
REPO = "/repo"

# name -> (cargo profile, features)
CONFIGS = {
    "limb64": ("off", []),
    "limb64-checks": ("on", ["ovf"]),
    "limb32": ("off", ["limb32"]),
    "limb32-checks": ("on", ["limb32", "ovf"]),
    "noasm": ("off", ["noasm"]),
    "noasm-checks": ("on", ["noasm", "ovf"]),
}

# The further configurations of P15.
LEVELS = {
    "release": ("fast", []),
    "release-limb32": ("fast", ["limb32"]),
    "debug": ("slow", ["ovf"]),
    "debug-limb32": ("slow", ["limb32", "ovf"]),
}

# P16: how to emulate another target, and the build here that knows what to
# expect of it. name -> (target, byte order and pointers, profile, features of
# the build there, further features of the build here, flags of the interpreter)
CHECKED = ["-Zmiri-tree-borrows"]
# Values only: several times faster.
PLAIN = ["-Zmiri-disable-stacked-borrows", "-Zmiri-disable-validation"]
TARGETS = {
    "x86_64": ("x86_64-unknown-linux-gnu", "little64", "off", ["noasm"], [], CHECKED),
    "s390x": ("s390x-unknown-linux-gnu", "big64", "off", ["noasm"], [], PLAIN),
    "i686": ("i686-unknown-linux-gnu", "little32", "on", ["noasm", "ovf"], ["limb32"], CHECKED),
    "powerpc": ("powerpc-unknown-linux-gnu", "big32", "off", ["noasm"], ["limb32"], PLAIN),
}

# P17: the configurations, and into how many programs the constants are split.
CONST_CONFIGS = ["limb64", "limb64-checks", "limb32", "limb32-checks"]
CONST_SHARDS = 8
# Operations that are constant functions.
CONST_LIST = os.path.join(HERE, "const_operations.txt")
# Compiler errors that say a call cannot be a constant.
CONST_ERRORS = ("E0015", "E0080")

# P20: the optional features, the features of a configuration, how many sets of
# features are tried, and the properties whose operations a feature brings.
OPTIONAL = ["stdint", "i384", "i512", "i1024", "num-traits", "std"]
INTERNAL = ["limb32", "noasm", "ovf"]
SETS = 16
BRINGS = {"stdint": ["p04", "p05"], "num-traits": ["p14"]}

# P18: the groups of routines. Those that are not there any more are left out.
GROUPS = ["p18-add", "p18-mul", "p18-shift", "p18-div", "p18-digit", "p18-limb"]

# Cases per operation and type in each configuration (the harness scales it by
# the weight of the operation).
BASE = {
    "P01": 24000, "P02": 40000, "P03": 24000, "P04": 5000, "P05": 6000, "P06": 6000, "P07": 24000,
    "P08": 20000, "P09": 50000, "P10": 24000, "P11": 16000, "P12": 10000, "P13": 20000, "P14": 10000,
    "P15": 1000, "P17": 8, "P18": 8000, "P19": 8000, "P20": 500,
}
# P16: cases per operation of each property and into how many processes they
# are split, long ones first. Those that detect undefined behaviour are slower
# and take CHECKED_SHARE of the cases.
PARTS = {
    "P15": (1, 6), "P12": (1, 6), "P11": (3, 4), "P04": (2, 3), "P14": (2, 3), "P10": (3, 2), "P01": (8, 2),
    "P13": (4, 2), "P05": (4, 2), "P06": (3, 2), "P03": (7, 2), "P02": (5, 2), "P07": (8, 2), "P09": (7, 2),
    "P08": (7, 1),
}
CHECKED_SHARE = 3
THOROUGH = 6  # times as many cases

RULE = (
    "Inputs are drawn from boundary-seeking generators (limbs of zeros, ones and single bits, powers "
    "of two and type limits plus or minus a little, operands constructed to land on the edge of "
    "overflow, random of every length). A case is one operation on one type with its inputs in one "
    "configuration. It is non-trivial if an operand needs more than one 64-bit limb (text: more than "
    "20 characters) or the oracle demands an overflow report, refusal or panic, unless the operation "
    "has a rule of its own in harness/src/props. Distinct: different inputs, counted per configuration."
)


class NoAnswer(Exception):
    pass


def env():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME") or "/root"
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class NotCompiled(NoAnswer):
    """The crate, or a use of it, does not compile."""


def build(cfg, prop, groups=None):
    fewer = []
    if cfg in TARGETS:
        _, _, profile, there, here, _ = TARGETS[cfg]
        features = there + here
    elif cfg.startswith("only"):
        features = cfg.split("-", 1)[1].replace("num-traits", "num_traits").split("-")
        features = [f.replace("_", "-") for f in features if f]
        profile = "on" if "ovf" in features else "off"
        features += [p for f in features for p in BRINGS.get(f, [])]
        fewer = ["--no-default-features"]
    else:
        profile, features = {**CONFIGS, **LEVELS}[cfg]
    if prop == "P18":
        features = features + (GROUPS if groups is None else groups)
    feats = ",".join([prop.lower()] + features)
    dirname = os.path.join(TARGET, cfg)
    cmd = ["cargo", "build", "--quiet", "--offline", "--locked", "--profile", profile, "--features", feats,
           "--target-dir", dirname, "-j", "4"] + fewer
    r = subprocess.run(cmd, cwd=HARNESS, env=env(), capture_output=True, text=True, timeout=800)
    if r.returncode:
        kind = NotCompiled if re.search(r"^error(\[E\d+\])?: (?!could not compile)", r.stderr, re.M) else NoAnswer
        raise kind(f"the harness does not build ({cfg}):\n{r.stderr[-3000:]}")
    return os.path.join(dirname, profile, "harness")


def search(cfg, exe, prop, seed, base, deadline, shared=0):
    """One search. Returns (report or None, failures, reason if unfinished)."""
    skip, hung = [], []
    while True:
        report, fails, why = search_once(cfg, exe, prop, seed, base, deadline, shared, skip)
        m = why and re.match(r"HANG (\d+)", why)
        if not m:
            break
        # Look at the other operations, but give no answer on this one.
        skip.append(m.group(1))
        hung.append(f"operation {m.group(1)} hangs")
        if fails or len(hung) == 4:
            break
    return report, fails, "; ".join(hung + [why] if why and not m else hung) or None


def search_once(cfg, exe, prop, seed, base, deadline, shared, skip):
    out = os.path.join(EVIDENCE, f".{prop}-{cfg}.json")
    if os.path.exists(out):
        os.remove(out)
    stream = f"{prop}-{cfg}"
    cmd = [exe, "run", str(seed), stream, str(shared), str(base), out]
    err = out + ".err"
    try:
        with open(err, "w") as f:
            r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=f, env=dict(env(), HARNESS_SKIP=",".join(skip)),
                               preexec_fn=limits, timeout=max(5, deadline - time.time()))
        code = r.returncode
    except subprocess.TimeoutExpired:
        code = "timeout"
    with open(err, errors="replace") as f:
        text = f.read()
    os.remove(err)
    # The last of an operation is the most shrunk.
    fails = [json.loads(l[8:]) for l in text.splitlines() if l.startswith("FAILURE ")]
    fails = list({(f["op"], f["type"]): f for f in fails}.values())
    report = None
    why = None
    if code == 0:
        with open(out) as f:
            report = json.load(f)
        fails = report["failures"]
        os.remove(out)
    elif code == 77:
        m = re.search(r"CRASH (\d+) (\d+) (\d+)", text)
        sig, op, case = m.groups()
        r = subprocess.run([exe, "crash", str(seed), stream, str(shared), op, case, out], env=env(), preexec_fn=limits,
                           capture_output=True, text=True, timeout=max(30, deadline - time.time()))
        if r.returncode:
            why = f"killed by signal {sig} and the case could not be shrunk: {r.stderr[-300:]}"
        else:
            with open(out) as f:
                fails.append(json.load(f))
            os.remove(out)
            fails[-1]["got"] += f" {sig}"
    elif code == 78:
        why = re.search(r"HANG \d+", text).group(0)
    else:
        why = f"the search ended with {code}: {text[-500:]}"
    for f in fails:
        f["config"] = cfg
    return report, fails, why


def known_lines(prop):
    """Known findings of the property: `finding: property=ID config=C op=O type=T args=A` (* matches all)."""
    found = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) config=(\S+) op=(.+?) type=(\S+) args=(.*?) :: (.*)", line)
                if m and m.group(1) == prop:
                    found.append(m.groups()[1:])
    return found


def is_known(known, f):
    for cfg, op, ty, args, what in known:
        if (cfg in ("*", f["config"]) and op == f["op"] and ty in ("*", f["type"]) and args in ("*", f["args"])):
            return what
    return None


def write_json(path, data):
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(data, f, indent=1)
        f.write("\n")
    os.replace(tmp, path)


def conclude(prop, tier, seed, started, coverage, fails, unfinished, assumptions):
    known = known_lines(prop)
    fresh = []
    for f in fails:
        what = is_known(known, f)
        if what:
            print(f"KNOWN-FINDING: property={prop} {what}")
        else:
            fresh.append(f)
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
        "assumptions": assumptions, "wall_s": round(time.time() - started, 1), "violations": len(fresh),
    }
    write_json(os.path.join(EVIDENCE, f"{prop}.json"), evidence)
    if fresh:
        fresh.sort(key=lambda f: (f.pop("rank", 0), len(f["args"]), f["config"]))
        best = fresh[0]
        replay = os.path.join(EVIDENCE, f"{prop}.replay.json")
        write_json(replay, {"property": prop, "seed": seed, "failure": best, "others": fresh[1:20],
                            "replay": f"python3 {HERE}/run.py replay {replay}"})
        print(f"{best['config']}: {best['type']} {best['op']} {best['args']}")
        print(f"  expected {best['expected'][:600]}\n  got      {best['got'][:600]}")
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    if unfinished:
        print("no answer: " + "; ".join(unfinished))
        return 2
    print(f"{prop}: held on {coverage['evaluations']} cases, {coverage['distinct_nontrivial']} distinct non-trivial")
    return 0


def parallel(fn, items, workers=8):
    with cf.ThreadPoolExecutor(workers) as pool:
        return list(pool.map(fn, items))


ASSUMPTIONS = [
    "the reference integer in harness/src/z.rs is right (tested against u128/i128 at the start of every run)",
    "rustc and the standard library are right",
]


def gather(names, results):
    coverage = {"evaluations": 0, "distinct_nontrivial": 0, "rule": RULE, "samples": [], "overflow_or_refusal_cases": 0,
                "oracle_selftest_cases": 0, "configurations": {}}
    fails, unfinished = [], []
    for cfg, (rep, bad, why) in zip(names, results):
        fails += bad
        if why:
            unfinished.append(f"{cfg}: {why}")
        if rep:
            coverage["evaluations"] += rep["evaluations"]
            coverage["distinct_nontrivial"] += rep["distinct_nontrivial"]
            coverage["overflow_or_refusal_cases"] += rep["exceptional"]
            coverage["oracle_selftest_cases"] += rep["oracle_selftest"]
            coverage["samples"] += [f"{cfg}: {s}" for s in rep["samples"][:3]]
            coverage["configurations"][cfg] = {
                "operations": rep["operations"], "failing_operations": rep["failing_operations"],
                "nontrivial": rep["nontrivial"], "least_nontrivial_operation": rep.get("least_nontrivial_operation", "")}
    return coverage, fails, unfinished


def standard(prop, tier, seed):
    started = time.time()
    deadline = started + (780 if tier == "quick" else 6000)
    base = BASE[prop] * (1 if tier == "quick" else THOROUGH)
    names = list(CONFIGS)
    groups = None
    try:
        exes = dict(zip(names, parallel(lambda c: build(c, prop), names)))
    except NotCompiled:
        # The routines of P18 are less settled than the types.
        groups = prop == "P18" and [g for g in GROUPS if compiles("limb64", prop, [g])]
        if not groups:
            raise
        print("compiled only " + ", ".join(groups))
        exes = dict(zip(names, parallel(lambda c: build(c, prop, groups), names)))
    results = parallel(lambda c: search(c, exes[c], prop, seed, base, deadline), names)
    coverage, fails, unfinished = gather(names, results)
    if prop == "P18":
        coverage["groups"] = GROUPS if groups is None else groups
        for f in fails:
            f["groups"] = groups
    return conclude(prop, tier, seed, started, coverage, fails, unfinished, ASSUMPTIONS)


def compared(prop, tier, seed):
    """P15: the standard search in more configurations, and outcomes compared between them."""
    started = time.time()
    deadline = started + (780 if tier == "quick" else 6000)
    base = BASE[prop] * (1 if tier == "quick" else THOROUGH)
    names = list(LEVELS) + list(CONFIGS)
    exes = dict(zip(names, parallel(lambda c: build(c, prop), names, 4)))
    # Unoptimised code is about ten times slower. All share their first cases.
    shared = base // 10
    results = parallel(lambda c: search(c, exes[c], prop, seed, base // 10 if c.startswith("debug") else base, deadline,
                                        shared), names)
    coverage, fails, unfinished = gather(names, results)
    digests = {c: rep["digests"] for c, (rep, _, _) in zip(names, results) if rep}
    failing = {(f["op"], f["type"]) for f in fails}
    compared = set()
    agreed = 0
    for c in digests:
        for d in [d for d in digests if d < c]:
            feats = [{**CONFIGS, **LEVELS}[x][1] for x in (c, d)]
            # Overflow checks change what plain operations do, never text.
            checks = ("ovf" in feats[0]) == ("ovf" in feats[1])
            limbs = ("limb32" in feats[0]) == ("limb32" in feats[1])
            for key, (args, got, n) in digests[c].items():
                name, ty = key.rsplit(" ", 1)
                other = digests[d].get(key)
                if not other or (name, ty) in failing or not (checks or name.startswith("P15.text")):
                    continue
                # Limbs and inputs with limbs differ between limb sizes.
                if not limbs and ("limb" in name or "wide" in name):
                    continue
                if other[0] != args or other[2] != n:
                    continue
                if other[1] == got:
                    agreed += n
                    compared.add(key)
                    continue
                failing.add((name, ty))
                out = os.path.join(EVIDENCE, f".{prop}-differ.json")
                r = subprocess.run([exes[c], "differ", str(seed), name, ty, str(n), exes[d], out], env=env(),
                                   preexec_fn=limits, capture_output=True, text=True,
                                   timeout=max(60, deadline - time.time()))
                if r.returncode:
                    unfinished.append(f"{c} and {d} differ on {key}, but no case could be shrunk: {r.stderr[-300:]}")
                    continue
                with open(out) as f:
                    fail = json.load(f)
                os.remove(out)
                fail["config"], fail["other"] = c, d
                fails.append(fail)
    coverage["operations_compared_between_configurations"] = len(compared)
    coverage["pairwise_equal_outcomes"] = agreed
    return conclude(prop, tier, seed, started, coverage, fails, unfinished, ASSUMPTIONS)


def miri_env(cfg, part):
    e = env()
    e["RUSTUP_TOOLCHAIN"] = "nightly-x86_64-unknown-linux-gnu"
    e["MIRI_SYSROOT"] = os.path.join(TARGET, "sysroot-" + TARGETS[cfg][0])
    e["MIRIFLAGS"] = " ".join(["-Zmiri-disable-isolation", "-Zmiri-ignore-leaks"] + TARGETS[cfg][5])
    e["HARNESS_ONLY"] = part
    e["HARNESS_TARGET"] = TARGETS[cfg][1]
    return e


def miri_cmd(cfg, file):
    triple, _, profile, there, _, _ = TARGETS[cfg]
    return ["cargo", "miri", "run", "--quiet", "--offline", "--locked", "--profile", profile, "--target", triple,
            "--target-dir", os.path.join(TARGET, "miri-" + cfg), "--features", ",".join(["p16"] + there),
            "--manifest-path", os.path.join(HARNESS, "Cargo.toml"), "--", "serve", file]


def sysroot(triple):
    cfg = next(c for c in TARGETS if TARGETS[c][0] == triple)
    r = subprocess.run(["cargo", "miri", "setup", "--target", triple], env=miri_env(cfg, ""), cwd=HARNESS,
                       capture_output=True, text=True, timeout=600)
    if r.returncode:
        raise NoAnswer(f"no standard library for {triple}:\n{r.stderr[-2000:]}")


def interpreter(cfg):
    """Builds what the interpreter needs, by running no case."""
    empty = os.path.join(EVIDENCE, f".P16-{cfg}-none")
    open(empty, "w").close()
    r = subprocess.run(miri_cmd(cfg, empty), env=miri_env(cfg, "P01"), cwd=HARNESS, capture_output=True, text=True,
                       timeout=600)
    os.remove(empty)
    if r.returncode:
        raise NoAnswer(f"the harness does not build for {cfg}:\n{r.stderr[-3000:]}")


def emulate(cfg, exe, part, shard, of, seed, base, deadline):
    """One shard of one property's operations on one target: (report, failures, reason if unfinished)."""
    stem = os.path.join(EVIDENCE, f".P16-{cfg}-{part}-{shard}")
    cases, got, out = stem + ".cases", stem + ".got", stem + ".json"
    here = dict(env(), HARNESS_ONLY=part, HARNESS_TARGET=TARGETS[cfg][1])
    key = [str(seed), str(shard), str(of), str(base)]
    try:
        subprocess.run([exe, "emit"] + key + [cases], env=here, check=True, timeout=120)
        try:
            with open(got, "wb") as f:
                r = subprocess.run(miri_cmd(cfg, cases), env=miri_env(cfg, part), stdout=f, stderr=subprocess.PIPE,
                                   timeout=max(5, deadline - time.time()))
            code, text = r.returncode, r.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired:
            code, text = "timeout", ""
        subprocess.run([exe, "judge"] + key + [got, out], env=here, check=True, timeout=120)
        with open(out) as f:
            rep = json.load(f)
    finally:
        for f in (cases, got, out):
            if os.path.exists(f):
                os.remove(f)
    fails, why = rep["failures"], None
    if rep["stopped"]:
        # The last failure is the case at which the interpreter stopped.
        m = re.search(r"error: (Undefined Behavior.*|abnormal termination.*)", text)
        if m:
            fails[-1]["got"] = m.group(1)[:600]
        else:
            fails.pop()
            why = f"{part}: the interpreter ended with {code}: {text[-600:]}"
    elif code != 0:
        why = f"{part}: the interpreter ended with {code}: {text[-600:]}"
    for f in fails:
        f["config"], f["part"] = cfg, part
    return rep, fails, why


def minimise(f, exe, seconds):
    stem = os.path.join(EVIDENCE, f".P16-{f['config']}-min")
    out = stem + ".json"
    cmd = [exe, "minimise", f["op"], f["type"], stem, out, str(seconds)] + f["tape"]
    r = subprocess.run(cmd + ["--"] + miri_cmd(f["config"], stem), env=miri_env(f["config"], f["part"]), cwd=HARNESS,
                       capture_output=True, text=True, timeout=seconds + 50)
    if r.returncode == 0:
        with open(out) as g:
            f.update({k: v for k, v in json.load(g).items() if k != "got" or "no outcome" not in v})
    for g in (stem, out):
        if os.path.exists(g):
            os.remove(g)


def targets(prop, tier, seed):
    """P16: the operations of all properties on other targets, inside an interpreter that sees undefined behaviour."""
    started = time.time()
    deadline = started + (740 if tier == "quick" else 6000)
    times = 1 if tier == "quick" else THOROUGH
    names = list(TARGETS)
    triples = sorted({t[0] for t in TARGETS.values()})
    jobs = [lambda t=t: sysroot(t) for t in triples] + [lambda c=c: build(c, prop) for c in names]
    exes = dict(zip(names, parallel(lambda j: j(), jobs)[len(triples):]))
    parallel(interpreter, names)
    # Long ones first.
    tasks = []
    for part, (base, of) in PARTS.items():
        for c in names:
            n = base // CHECKED_SHARE if TARGETS[c][5] is CHECKED else base
            tasks += [(c, part, s, of, max(1, n * times)) for s in range(of)]
    results = parallel(lambda t: emulate(t[0], exes[t[0]], t[1], t[2], t[3], seed, t[4], deadline), tasks)
    coverage = {"evaluations": 0, "distinct_nontrivial": 0, "rule": RULE, "samples": [], "overflow_or_refusal_cases": 0,
                "targets": {c: {"cases": 0, "operations": 0} for c in names}}
    fails, unfinished = [], []
    for (cfg, part, s, _, _), (rep, bad, why) in zip(tasks, results):
        fails += bad
        if why:
            unfinished.append(f"{cfg}: {why}")
        coverage["evaluations"] += rep["evaluations"]
        coverage["distinct_nontrivial"] += rep["distinct_nontrivial"]
        coverage["overflow_or_refusal_cases"] += rep["exceptional"]
        coverage["targets"][cfg]["cases"] += rep["evaluations"]
        coverage["targets"][cfg]["operations"] += rep["operations"]
        if len(coverage["samples"]) < 24 and s == 0:
            coverage["samples"] += [f"{cfg}: {x}" for x in rep["samples"][:1]]
    fresh = [f for f in fails if not is_known(known_lines(prop), f)]
    if fresh:
        # The one reported is minimised; each step costs seconds.
        fresh.sort(key=lambda f: (len(f["tape"]), f["config"]))
        minimise(fresh[0], exes[fresh[0]["config"]], 60)
        for f in fresh:
            f["rank"] = f is not fresh[0]
    return conclude(prop, tier, seed, started, coverage, fails, unfinished, ASSUMPTIONS + [
        "Miri interprets the targets and judges undefined behaviour rightly"])


def const_crate(cfg):
    """A crate for generated constants: its directory."""
    profile, features = CONFIGS[cfg]
    checks = "true" if profile == "on" else "false"
    path = os.path.join(TARGET, "consts-" + cfg)
    bins = os.path.join(path, "src", "bin")
    os.makedirs(bins, exist_ok=True)
    for f in os.listdir(bins):
        os.remove(os.path.join(bins, f))
    limb = ', features = ["limb32"]' if "limb32" in features else ""
    with open(os.path.join(path, "Cargo.toml"), "w") as f:
        f.write(f"""[package]
name = "consts"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
i256 = {{ path = "{REPO}", default-features = false }}
harness = {{ path = "{HARNESS}"{limb} }}
[profile.c]
inherits = "release"
opt-level = 0
debug = false
overflow-checks = {checks}
debug-assertions = {checks}
[profile.c.build-override]
overflow-checks = {checks}
debug-assertions = {checks}
""")
    with open(os.path.join(HARNESS, "Cargo.lock")) as f, open(os.path.join(path, "Cargo.lock"), "w") as g:
        g.write(f.read())
    return path


def const_cmd(cfg, verb, bins):
    path = os.path.join(TARGET, "consts-" + cfg)
    return ["cargo", verb, "--quiet", "--offline", "--profile", "c", "--manifest-path", os.path.join(path, "Cargo.toml"),
            "--target-dir", os.path.join(path, "target")] + [x for b in bins for x in ("--bin", b)]


def const_env():
    return dict(env(), HARNESS_CONST=CONST_LIST)


def const_errors(stdout):
    """Errors by program and line, and those that are not about constants."""
    found, other = {}, []
    for line in stdout.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            continue
        if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
            continue
        g, target = m["message"], m["target"]["name"]
        code = (g["code"] or {}).get("code")
        lines = set()
        for s in g["spans"]:
            # Of a macro, where it is used.
            while s and not s["file_name"].endswith(f"{target}.rs"):
                s = (s.get("expansion") or {}).get("span")
            if s:
                lines.add(s["line_start"])
        if code in CONST_ERRORS and lines:
            found.setdefault(target, []).append((min(lines) - 2, g["message"]))
        elif g["spans"]:
            other.append(g["message"])
    return found, other


def constants(prop, tier, seed):
    """P17: programs of constants, whose values must be those expected at run time."""
    started = time.time()
    deadline = started + (740 if tier == "quick" else 6000)
    base = BASE[prop] * (1 if tier == "quick" else THOROUGH)
    exes = dict(zip(CONST_CONFIGS, parallel(lambda c: build(c, prop), CONST_CONFIGS)))
    coverage = {"evaluations": 0, "distinct_nontrivial": 0, "rule": RULE + " Cases that must panic are left out.",
                "samples": [], "overflow_or_refusal_cases": 0, "operations_compiled": {}}
    fails, unfinished = [], []
    for cfg in CONST_CONFIGS:
        path = const_crate(cfg)
        bins = [f"s{i}" for i in range(CONST_SHARDS)]
        key = lambda i: [str(seed), str(i), str(CONST_SHARDS), str(base)]
        parallel(lambda i: subprocess.run([exes[cfg], "emit"] + key(i) + [f"{path}/src/bin/s{i}.rs"], env=const_env(),
                                          check=True, timeout=120), range(CONST_SHARDS))
        r = subprocess.run(const_cmd(cfg, "build", bins) + ["--keep-going", "--message-format=json"], env=env(),
                           capture_output=True, text=True, timeout=max(5, deadline - time.time()))
        errors, other = const_errors(r.stdout)
        if r.returncode and (other or not errors):
            raise NoAnswer(f"the constants do not compile ({cfg}): {other[:3]} {r.stderr[-2000:]}")
        operations = 0
        for i, name in enumerate(bins):
            out = os.path.join(EVIDENCE, f".P17-{cfg}.json")
            got = os.path.join(EVIDENCE, f".P17-{cfg}.got")
            if name in errors:
                # One failure is enough for each message.
                first = {}
                for case, text in errors[name]:
                    first.setdefault(text, case)
                for text, case in list(first.items())[:10]:
                    subprocess.run([exes[cfg], "case"] + key(i) + [str(case), out], env=const_env(), check=True,
                                   timeout=120)
                    with open(out) as f:
                        fails.append(dict(json.load(f), got="not a constant: " + text, config=cfg))
            else:
                with open(got, "wb") as f:
                    subprocess.run([os.path.join(path, "target", "c", name)], stdout=f, env=env(), preexec_fn=limits,
                                   timeout=120)
                subprocess.run([exes[cfg], "judge"] + key(i) + [got, out], env=const_env(), check=True, timeout=120)
                with open(out) as f:
                    rep = json.load(f)
                os.remove(got)
                if rep["stopped"]:
                    unfinished.append(f"{cfg}: a program of constants ended early")
                fails += [dict(f, config=cfg) for f in rep["failures"]]
                coverage["evaluations"] += rep["evaluations"]
                coverage["distinct_nontrivial"] += rep["distinct_nontrivial"]
                coverage["overflow_or_refusal_cases"] += rep["exceptional"]
                coverage["samples"] += [f"{cfg}: {x}" for x in rep["samples"][:1]]
                operations += rep["operations"]
            os.remove(out)
        coverage["operations_compiled"][cfg] = operations
    fresh = [f for f in fails if not is_known(known_lines(prop), f)]
    if fresh:
        fresh.sort(key=lambda f: (len(f["tape"]), f["config"]))
        f = fresh[0]
        one = os.path.join(TARGET, "consts-" + f["config"], "src", "bin", "one.rs")
        out = os.path.join(EVIDENCE, ".P17-min.json")
        r = subprocess.run([exes[f["config"]], "minimise", f["op"], f["type"], one, out, "60"] + f["tape"] + ["--"]
                           + const_cmd(f["config"], "run", ["one"]), env=const_env(), capture_output=True, text=True,
                           timeout=110)
        if r.returncode == 0:
            with open(out) as g:
                f.update({k: v for k, v in json.load(g).items() if k != "got" or "no outcome" not in v})
            os.remove(out)
        for g in fresh:
            g["rank"] = g is not f
    return conclude(prop, tier, seed, started, coverage, fails, unfinished, ASSUMPTIONS)


def feature_sets(seed):
    """None, all, and sets with as many new combinations of three features being on or off as can be found."""
    rng = random.Random(seed)
    every = OPTIONAL + INTERNAL

    def triples(on):
        return {tuple((f, f in on) for f in t) for t in itertools.combinations(every, 3)}

    sets, seen = [[], every], triples([]) | triples(every)
    while len(sets) < SETS:
        some = [[f for f in every if rng.random() < 0.5] for _ in range(200)]
        best = max(some, key=lambda x: len(triples(x) - seen))
        sets.append(best)
        seen |= triples(best)
    return ["only-" + "-".join(x) for x in sets], len(seen)


def fewest(cfg, prop):
    """Without what is not needed for the crate not to compile."""
    keep = cfg
    for f in OPTIONAL + INTERNAL:
        less = "only-" + "-".join(x for x in OPTIONAL + INTERNAL if x != f and has(keep, x))
        if has(keep, f) and not compiles(less, prop):
            keep = less
    return keep


def has(cfg, feature):
    return feature in cfg.replace("num-traits", "num_traits").replace("-", " ").replace("_", "-").split()


def compiles(cfg, prop, groups=None):
    try:
        build(cfg, prop, groups)
    except NotCompiled:
        return False
    return True


def features(prop, tier, seed):
    """P20: the standard search with sets of optional features."""
    started = time.time()
    deadline = started + (780 if tier == "quick" else 6000)
    base = BASE[prop] * (1 if tier == "quick" else THOROUGH)
    names, triples = feature_sets(seed)

    def make(cfg):
        try:
            return build(cfg, prop), None
        except NotCompiled as e:
            return None, str(e)

    made = dict(zip(names, parallel(make, names)))
    broken = [c for c in names if not made[c][0]]
    if broken and not compiles("limb64", prop):
        raise NoAnswer("does not compile with all features either: " + made[broken[0]][1])
    fails = []
    if broken:
        cfg = fewest(min(broken, key=len), prop)
        text = [l for l in made[broken[0]][1].splitlines() if l.startswith("error")]
        fails.append({"op": "compile", "type": "crate", "args": f"features {cfg[5:].split('-')}", "expected": "compiles",
                      "got": "; ".join(text[:2]), "config": cfg, "tape": []})
    names = [c for c in names if made[c][0]]
    results = parallel(lambda c: search(c, made[c][0], prop, seed, base, deadline), names)
    coverage, bad, unfinished = gather(names, results)
    coverage["feature_sets_compiled"] = len(names)
    coverage["settings_of_three_features"] = triples
    return conclude(prop, tier, seed, started, coverage, fails + bad, unfinished, ASSUMPTIONS)


def replay(path):
    with open(path) as f:
        r = json.load(f)
    f = r["failure"]
    if f["op"] == "compile":
        ok = compiles(f["config"], r["property"])
        print("passes" if ok else "fails")
        return 0 if ok else 1
    exe = build(f["config"], r["property"], f.get("groups"))
    if f["config"] in TARGETS:
        parallel(sysroot, [TARGETS[f["config"]][0]])
        stem = os.path.join(EVIDENCE, ".P16-replay")
        cmd = [exe, "there", f["op"], f["type"], stem] + f["tape"]
        code = subprocess.run(cmd + ["--"] + miri_cmd(f["config"], stem), env=miri_env(f["config"], f["part"]),
                              cwd=HARNESS).returncode
        os.remove(stem)
        print("passes" if code == 0 else "fails")
        return 0 if code == 0 else 1
    if r["property"] == "P17":
        one = os.path.join(const_crate(f["config"]), "src", "bin", "one.rs")
        cmd = [exe, "there", f["op"], f["type"], one] + f["tape"] + ["--"] + const_cmd(f["config"], "run", ["one"])
        code = subprocess.run(cmd, env=const_env()).returncode
        print("passes" if code == 0 else "fails")
        return 0 if code == 0 else 1
    if "other" in f:
        # Two builds that disagree.
        cmd = ["replay", f["op"], f["type"]] + f["tape"]
        outs = [subprocess.run([e] + cmd, env=env(), preexec_fn=limits, capture_output=True, text=True).stdout
                for e in (exe, build(f["other"], r["property"]))]
        print(f"{f['config']}: {outs[0]}{f['other']}: {outs[1]}" + ("passes" if outs[0] == outs[1] else "fails"))
        return 0 if outs[0] == outs[1] else 1
    code = subprocess.run([exe, "replay", f["op"], f["type"]] + f["tape"], env=env(), preexec_fn=limits).returncode
    print("fails" if code in (1, 77) else "passes")
    return 1 if code in (1, 77) else 0


def main():
    os.makedirs(EVIDENCE, exist_ok=True)
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if prop == "P15":
        return compared(prop, tier, seed)
    if prop == "P16":
        return targets(prop, tier, seed)
    if prop == "P17":
        return constants(prop, tier, seed)
    if prop == "P20":
        return features(prop, tier, seed)
    return standard(prop, tier, seed)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except (NoAnswer, subprocess.TimeoutExpired) as e:
        print(f"no answer: {e}")
        sys.exit(2)
