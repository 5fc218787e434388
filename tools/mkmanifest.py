"""Writes MANIFEST.json from properties.jsonl, the harnesses present and each harness's NOTE."""
import ast
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("symbolic execution of the repository's own Python source (instrumented from the current tree), every branch "
        "and assertion decided by z3; counterexamples replayed on the unmodified code")
NOTE = ("Bounded model checking: every feasible path of the real code within the stated bounds is explored and each "
        "assertion is an SMT query over all inputs of that path. ")
TRUST = (" Trusted: the engine's semantics of Python and of the library calls it models (struct, BytesIO, datetime, "
         "codecs), guarded on every run by replaying one concrete witness per explored path shape on the unmodified "
         "code; the oracle in harness/ and spec/.")
LARGE = (" Scenarios called long, large, huge, many, deep or far add sizes and counts around 128, 256, 32768 and 65536 (offsets "
         "around 2^32) whose contents are symbolic at chosen places.")
REASONS = {}


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        pid = p["id"]
        path = os.path.join(ROOT, "harness", pid + ".py")
        if not os.path.exists(path):
            na.append({"property": pid, "reason": REASONS.get(pid, "no check built yet")})
            continue
        note = ""
        for node in ast.parse(open(path).read()).body:
            if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") == "NOTE":
                note = re.sub(r"\s+", " ", ast.literal_eval(node.value)).strip()
        checks.append({"property": pid, "quick_cmd": "./check.sh %s quick" % pid,
                       "thorough_cmd": "./check.sh %s thorough" % pid,
                       "evidence_file": "evidence/%s.json" % pid, "technique": TECH, "level": "model_checking",
                       "level_note": NOTE + note + (LARGE if re.search(r"\"(long|large|huge|many|deep|far)-", open(path).read()) else "") + TRUST})
    m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3, sx.run'", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: the engine instruments the source itself at load time."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
