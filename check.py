#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property of /repo's current source.

Exit 0: nothing refutes the property.  Exit 1: a VIOLATION line per refuting construct.
Exit 2: the analysis cannot be carried out (entry points gone, source does not parse)."""
import argparse
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from sa import analyse, catalog, props, selftest          # noqa: E402
from sa.loader import Broken, REPO                        # noqa: E402

KNOWN = os.path.join(HERE, "known_findings.txt")
EVID = os.path.join(HERE, "evidence")


def known(prop):
    """{key: text} of the listed findings ("known: property=Cxx key=<rule @ construct> <what>")."""
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN, encoding="utf-8") as f:
            for line in f:
                if line.startswith("known: property=%s " % prop) and " key=" in line:
                    key, _, text = line.split(" key=", 1)[1].strip().partition(" :: ")
                    out[key] = text
    return out


def key_of(f):
    return ("%s@%s@%s" % (f["rule"], f["where"], f["path"])).replace(" ", "_")


def run(prop, tier, seed):
    t0 = time.time()
    spec = props.PROPS[prop]
    probes = selftest.run(prop)
    budget = 780 if tier == "thorough" else 400
    prog, total = analyse.analyse(prop, tier, budget=budget)
    found = {}
    for f in total.findings:
        if prop in f["props"]:
            found.setdefault(key_of(f), []).append(f)
    listed = known(prop)
    lines, violations = [], []
    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    for old in os.listdir(rdir):
        if old.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, old))
    # the shortest description of one construct first; one report per construct and rule
    order = sorted(found.items(), key=lambda kv: (kv[1][0]["rule"], kv[1][0]["where"], len(kv[1][0]["path"])))
    for key, fs in order:
        f = min(fs, key=lambda x: (len(x["text"]), x["text"]))
        if key in listed:
            lines.append("KNOWN-FINDING: property=%s %s" % (prop, listed[key] or f["text"]))
            continue
        violations.append((key, f, len(fs)))
    if not total.stats["runs"]:
        raise Broken("nothing was analysed")
    if not total.stats["comparisons"] and not total.stats["refused"] and not violations:
        raise Broken("no run of the analysis reached a decision")
    for n, (key, f, cnt) in enumerate(violations[:25]):
        path = os.path.join(rdir, "%s-%d.json" % (prop, n + 1))
        with open(path, "w", encoding="utf-8") as fh:
            json.dump(dict(property=prop, key=key, occurrences=cnt, **f), fh, indent=1, sort_keys=True)
        lines.append("%s: %s [document %s/%s, partition %s%s]" % (
            f["where"] or f["scenario"], f["text"], f["scenario"], f["fmt"], "/".join(map(str, f["spec"])),
            (": " + ", ".join("%s %s" % kv for kv in sorted(f["partition"].items()))) if f["partition"] else ""))
        lines.append("  rule: %s; %d occurrences" % (f["rule"], cnt))
        lines.append("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, HERE)))
    st = prog.stats()
    ob = total.obligations.get(prop, set())
    full, few = catalog.FAMILIES[prop]
    cov = {
        "explanation": spec["how"] + " Decided by abstract interpretation of the source (never imported or run): "
        "value sets with provenance, states partitioned by facts about the document.",
        "rule": spec["rule"],
        "modules": st["modules"], "functions_in_package": st["functions"], "call_sites_in_package": st["call_sites"],
        "statements_in_package": st["statements"],
        "functions_analysed": len(total.functions), "call_edges_followed": len(total.edges),
        "statement_lines_reached": len(total.reached),
        "functions_not_reached": sorted("%s:%s" % x for x in not_reached(prog, total)),
        "document_families_all_partitions": list(full), "document_families_few_partitions": list(few),
        "analysis_runs": total.stats["runs"], "distinct_partitions": len(total.partitions),
        "abstract_steps": total.stats["steps"], "document_facts_assumed": total.stats["facts"],
        "value_obligations_compared": total.stats["comparisons"],
        "result_attributes_of_this_property": len(ob),
        "documents_that_must_be_refused": total.stats["refused"],
        "exception_exits_judged": total.stats["exceptions"],
        "calls_searched_for_forbidden_effects": total.calls,
        "open_sites": sorted(total.opened), "open_events": total.stats["opens"],
        "containers_checked_for_sharing": total.stats["containers"],
        "repeated_parses": total.stats["histories"],
        "undecided": len(total.undecided),
        "undecided_samples": sorted(total.undecided)[:15],
        "self_test": probes,
        "cut_short": bool(total.cut),
        "samples": [dict(rule=f["rule"], text=f["text"], scenario=f["scenario"]) for _, f, _ in violations[:5]] or
        [dict(attribute=p, format=x) for x, p in sorted(ob)[:8]],
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": props.ASSUMPTIONS + spec.get("assume", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w", encoding="utf-8") as fh:
        json.dump(ev, fh, indent=1)
    print("%s %s: %d runs over %d partitions, %d functions and %d call edges of %s analysed, %d value obligations, "
          "%d refusals, %d undecided, %.1f s" % (prop, tier, total.stats["runs"], len(total.partitions),
                                                 len(total.functions), len(total.edges), REPO,
                                                 total.stats["comparisons"], total.stats["refused"],
                                                 len(total.undecided), ev["wall_s"]))
    for u in sorted(total.undecided)[:5]:
        print("  undecided: %s" % u)
    for x in lines:
        print(x)
    return 1 if violations else 0


def not_reached(prog, total):
    import ast
    have = total.functions
    out = set()
    for tree, rel, _ in prog.modules.values():
        stack = [(tree, "")]
        while stack:
            n, q = stack.pop()
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    nm = q + c.name
                    if isinstance(c, ast.FunctionDef) and not any(r == rel and x.split(".")[-1] == c.name
                                                                  for r, x in have):
                        out.add((rel, nm))
                    stack.append((c, nm + "."))
                else:
                    stack.append((c, q))
    return out


def replay(path):
    with open(path, encoding="utf-8") as f:
        d = json.load(f)
    hit = []
    for i, e in enumerate(analyse.entries()):
        if e.name == d["scenario"] and e.fmt == d["fmt"]:
            for t in range(analyse.TURNS):
                sk = analyse.work((i, [(tuple(d["spec"]), t)], True))
                hit += [f for f in sk.findings if key_of(f) == d["key"] or f["rule"] == d["rule"]]
                if hit:
                    break
    for f in hit[:10]:
        print("%s: %s\n  functions: %s" % (f["where"], f["text"], " > ".join(f["stack"])))
    print("reproduced" if hit else "not reproduced")
    return 1 if hit else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    try:
        return run(a.property, a.tier or os.environ.get("VERIF_TIER") or "quick", int(os.environ.get("VERIF_SEED", "1")))
    except Broken as x:
        print("analysis broken: %s" % x)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
