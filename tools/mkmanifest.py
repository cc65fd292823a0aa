#!/usr/bin/env python3
"""Write MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "property-based testing against an exact reference integer"
NOTE = (
    "Generated-input search in six build configurations (64/32-bit limbs, no assembly; overflow checks off/on), "
    "all four widths, both signs. Shows absence of violations on the cases run, not for all inputs. "
    "Trusts rustc, std and the reference integer, which is tested against u128/i128 on every run."
)
SPECIAL = {
    "P15": (
        "property-based testing of random programs and algorithms, differential between builds",
        "Random programs that feed results into later steps, classic algorithms and every operation of P01-P14, in ten "
        "builds (64/32-bit limbs, assembly or not, overflow checks off/on, optimised or not), judged by an exact "
        "reference integer; the outcomes of cases shared by all builds are also compared between builds. Shows absence "
        "of violations on the cases run. Trusts rustc, std and the reference integer.",
    ),
    "P16": (
        "property-based testing in an interpreter that detects undefined behaviour",
        "Generated cases of every operation are run by Miri for x86_64 and i686 with detection of undefined behaviour "
        "(tree borrows, alignment, validity), and for the big-endian targets s390x (64-bit) and powerpc (32-bit); outcomes are judged "
        "natively by an exact reference integer. Inline assembly cannot be interpreted and is left out. Text longer than 200 "
        "characters, formatting of 1024-bit values and whole algorithms wider than 384 bits are left out for time. Trusts Miri.",
    ),
    "P17": (
        "property-based testing of generated programs of constants",
        "Generated calls of every constant operation listed in const_operations.txt become constants of programs compiled "
        "in four configurations; their values are judged by an exact reference integer. Arguments for which the operation "
        "must panic are left out. One call per constant. Trusts rustc and the reference integer.",
    ),
    "P18": (
        TECH,
        "Generated-input search in six build configurations over arrays of 2 to 17 limbs; a fixed choice of lengths and of "
        "pairs of lengths, for which the routines are instantiated. Shows absence of violations on the cases run.",
    ),
    "P19": (
        "property-based testing against the layout rules of the standard library",
        "Generated values, widths and one of 40 combinations of the other options in six build configurations. The oracle's "
        "layout is compared with the standard library's own integers in every case whose value they can hold. Scientific "
        "notation and hexadecimal debug are not covered.",
    ),
    "P20": (
        "property-based testing of generated feature sets against an exact reference integer",
        "Sixteen generated sets of nine features (almost all settings of any three of them occur); in each, every "
        "operation offered is searched as in P01-P14. A set that does not compile although all features together do is a "
        "violation, shrunk to the fewest features.",
    ),
}
done = [f"P{i:02}" for i in range(1, 21)]
checks = []
for p in done:
    tech, note = SPECIAL.get(p, (TECH, NOTE))
    checks.append({
        "property": p,
        "quick_cmd": f"python3 run.py {p} quick",
        "thorough_cmd": f"python3 run.py {p} thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": tech,
        "level": "exploration",
        "level_note": note,
    })
m = {
    "version": 1,
    "setup_cmd": "mkdir -p evidence target",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo: the harness uses only the public interface. Repairs of defects found are the "
             "fix: commits in /repo, listed in known_findings.txt. Replay: python3 run.py replay evidence/<id>.replay.json",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
