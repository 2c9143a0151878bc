"""Writes MANIFEST.json from sa/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa import props                                     # noqa: E402

NOTE = ("Static: the source is parsed and interpreted abstractly, never imported or executed, and no solver is used. The verdict "
        "covers every value the document's attributes may take and every presence/zero combination of two (thorough: three) "
        "optional parts of one document part, on the document skeletons of sa/scenarios.py (bounded nesting and list sizes). It "
        "trusts the library models in sa/lib.py and sa/models.py. Code the engine cannot model is reported as undecided in the "
        "evidence and raises no alarm; there is none on the present tree.")

checks = []
for p, d in sorted(props.PROPS.items()):
    checks.append(dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p,
                       thorough_cmd="python3 check.py %s --tier thorough" % p,
                       evidence_file="evidence/%s.json" % p, technique=d["technique"], level="other",
                       level_note="Rule: " + d["rule"] + ". " + NOTE))
m = dict(version=1, setup_cmd="python3 -c \"import ast, sys; assert sys.version_info >= (3, 8)\"", checks=checks,
         not_applicable=[dict(property=p, reason=r) for p, r in sorted(props.NOT_APPLICABLE.items())],
         notes="check.py <id> decides one property; check.py --replay <file> repeats the partition of a report. "
               "Known findings and repairs: known_findings.txt. No hooks in /repo.")
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
