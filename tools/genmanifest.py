#!/usr/bin/env python3
"""Writes MANIFEST.json. GROUPS lists the properties each harness binary decides."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "property-based testing against a reference model"
ROUND = "property-based testing, round trip"
META = "property-based testing, metamorphic"
HOSTILE = "generated and mutated hostile inputs, checked against a reference model"
GROUPS = {
    "abi": {
        "A01": ROUND, "A02": ROUND, "A03": MODEL, "A04": MODEL, "A05": HOSTILE, "A06": HOSTILE,
        "A07": "fault injection into the guest allocator over generated values",
        "A08": "property-based testing, round trip through pairs of encodings",
        "A09": "generated well-typed values with one ill-typed part",
        "A10": MODEL + " of calls", "A11": "enumerated edge cases and random floats against their bits",
        "R01": "random operation histories against a reference model",
        "R02": "random operation histories against a reference model",
        "R03": "random call trees against a reference model",
    },
    "leb": {"L01": "enumerated boundaries and random integers, round trip", "L02": "differential testing of the decoders against a reference decoder"},
    "bin": {
        "B01": "generated modules and re-encodings of them, round trip",
        "B02": "mutated modules, judged by a reference decoder",
        "B03": "hostile byte streams with measured memory use",
    },
    "wat": {
        "W01": "random operation histories against the text itself",
        "W02": "generated tokens against a reference lexer, small texts enumerated", "W03": MODEL,
        "W04": "random and enumerated literals against exact arithmetic", "W05": "edited and cut texts, judged by a reference parser",
    },
    "wast": {"S01": MODEL, "S02": "edited and cut scripts, judged by a reference parser"},
    "wit": {
        "I01": "random operation histories against the text and a reference lexer", "I02": MODEL,
        "I03": "edited and cut texts, judged by a reference parser",
    },
    "det": {"D01": META + ": repeated and concurrent runs, with the race detector"},
    "rt": {"T01": "random operation histories against a reference model"},
    "enc": {"E01": "every character and random strings against the encodings' definitions"},
}
EXTRA = os.path.join(ROOT, "tools", "groups.json")
if os.path.exists(EXTRA):
    GROUPS.update(json.load(open(EXTRA)))
checks = []
for g, ps in GROUPS.items():
    for p, tech in ps.items():
        checks.append({
            "property": p,
            "quick_cmd": "bash check.sh %s %s" % (g, p),
            "thorough_cmd": "VERIF_TIER=thorough bash check.sh %s %s" % (g, p),
            "technique": tech,
            "level": "exploration",
            "level_note": "random cases from VERIF_SEED within the bounds in DESIGN.md; nothing outside the generated cases is decided",
            "evidence_file": "evidence/%s.json" % p,
        })
checks.sort(key=lambda c: c["property"])
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks: the harness uses the public packages of /repo through a replace directive", "source_commits": []},
    "checks": checks,
    "not_applicable": [],
    "notes": "Known and fixed findings are in known-findings.txt. A failing case is written to out/replays/ and re-run with: out/bin/GROUP replay FILE.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
