"""Writes MANIFEST.json from the registered checks."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from palm import registry  # noqa: E402,F401
from palm.check_base import CHECKS  # noqa: E402

NA = {
    "C24": "a bound on work is a statement about amortised counts over histories; the static argument in reach (one step per level) leaves the height, "
           "which only removal histories can skew, unbounded",
    "C25": "underfull nodes are by design never merged, so the storage held depends on the whole history of removals; no static rule bounds it",
}
TECH = {
    "C11": "compile-fail witnesses (rustc trait solver)",
    "C12": "compile-fail witnesses (rustc borrow checker)",
    "C18": "compile-fail witnesses and type-layout rule",
}
NOTE = {
    "C11": "complete over the listed type combinations and, through the generic witnesses, over all configurations; trusts rustc",
    "C12": "complete over the listed pairs of handle-producing calls and conflicting uses; trusts rustc",
    "C18": "decides which configurations are admitted and that the path capacity reaches attainable heights; what operations do within a legal configuration is decided by the other checks, which treat sizes as symbols",
}


def main():
    props = [json.loads(x) for x in open(os.path.join(VERIF, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in CHECKS:
            level, rule, floors, ass, f = CHECKS[i]
            checks.append({"property": i, "quick_cmd": "python3 -m palm.check " + i, "thorough_cmd": "python3 -m palm.check %s thorough" % i,
                           "evidence_file": "evidence/%s.json" % i, "technique": TECH.get(i, getattr(f, "technique", "abstract interpretation of MIR")),
                           "level": level, "level_note": NOTE.get(i, getattr(f, "note", rule))})
        else:
            na.append({"property": i, "reason": NA.get(i, "no check built yet")})
    m = {"version": 1, "setup_cmd": "python3 -m palm.build setup", "checks": checks, "not_applicable": na,
         "notes": "no hooks: the analyses read the MIR and types of the unmodified source"}
    json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks,", len(na), "not applicable")


main()
