#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property listed in CLAIMED."""
import json, os, subprocess
here = os.path.dirname(os.path.abspath(__file__))
V = os.path.join(here, "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
T = {
 "C01": "exhaustive enumeration of field combinations on the real encoder/decoder against a reference encoder",
 "C02": "exhaustive enumeration of edits of well-formed byte strings; real parser against a reference recogniser",
 "C03": "breadth-first exploration of role-operation sequences on the real code; invariant on raw pairs",
 "C04": "exhaustive enumeration of short strings, truncations, substitutions and length edits on the real parsers",
 "C05": "exhaustive enumeration of field values and text edits against reference base64/hex codecs and serde round trips",
 "C06": "exhaustive enumeration of field combinations on the real encoder/decoder against a reference encoder",
 "C07": "exhaustive enumeration of edits of well-formed byte strings; real parser against a reference recogniser",
 "C08": "exhaustive enumeration of raw and proprietary keys against the documented byte form",
 "W01": "explicit-state exploration of a session model (sets of facts); every transition replayed on the real roles, final states combined with the others and run in an independent script interpreter",
 "W02": "explicit-state exploration of a session model (sets of facts); every transition replayed on the real roles, final states combined with the others and run in an independent script interpreter",
 "R01": "exhaustive enumeration of lock-time requirements against the BIP-370 rule",
 "R02": "breadth-first exploration of role-call sequences in lock-step with a reference model",
 "R03": "exhaustive enumeration of field changes against a reference id",
 "R05": "exhaustive enumeration of the ways to fill the inputs of a transaction against the BIP-174 rule",
 "R04": "exhaustive enumeration of flag bytes and sighash assignments against the BIP-370 rule",
 "K01": "exhaustive enumeration of field distributions and merge orders against set union",
 "K02": "exhaustive enumeration of field distributions and merge orders against set union",
 "S01": "exhaustive enumeration of signing scenarios; signatures checked on the independently built transaction",
 "S02": "exhaustive enumeration of signing scenarios; signatures checked on the independently built transaction",
 "S03": "exhaustive enumeration of providers and requests against independent derivation",
 "S04": "exhaustive enumeration of right, wrong and absent scripts and UTXOs against the BIP-174 signer rules",
 "F01": "exhaustive enumeration of finalising scenarios; extracted transactions run in an independent script interpreter",
 "F02": "exhaustive enumeration of fees around each limit against integer arithmetic",
 "F03": "exhaustive enumeration of boundary amounts and outpoints against integer arithmetic",
 "F04": "exhaustive enumeration of finalising scenarios; extracted transactions run in an independent script interpreter",
 "F05": "exhaustive enumeration of descriptors, scripts and UTXO forms against independently derived expectations",
 "F06": "exhaustive enumeration of input contents and questions on the real satisfier against a table of the contents and the lock rules of the BIPs",
 "B01": "exhaustive enumeration of presence and length patterns against the BIP-375 rules",
 "E02": "exhaustive enumeration of faults by kind and position on the real code; the data of every error compared with the planted fault",
 "E01": "exhaustive enumeration of error-provoking inputs; every error value formatted and its chain walked",
 "T01": "exhaustive enumeration of numbers and texts against the BIP tables",
}
import re
claimed = set(re.findall(r'id: "(\w+)"', open(os.path.join(V, "mc/src/main.rs")).read()))
checks = []
for p in props:
    i = p["id"]
    if i not in claimed: continue
    checks.append({"property": i, "quick_cmd": f"bash /verif/run.sh {i} quick", "thorough_cmd": f"bash /verif/run.sh {i} thorough",
        "evidence_file": f"/verif/evidence/{i}.json", "technique": "model checking: " + T[i], "level": "model_checking",
        "level_note": "explicit-state exploration of a model of the session whose every transition is replayed on the real code" if i[0] == "W" else "stateless exploration of the real code over a completely enumerated bounded space, each execution compared with an independent reference model"})
out = {"version": 1, "setup_cmd": "bash /verif/run.sh --build",
  "hooks": {"guard": "none", "enable": "no hooks: every check drives the public API", "source_commits": []},
  "checks": checks,
  "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in claimed],
  "notes": "Every check rebuilds /verif/mc against /repo's working tree. Repairs of genuine defects are the fix: commits in /repo; see known-findings.json and DESIGN.md."}
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
