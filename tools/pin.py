#!/usr/bin/env python3
"""Records regression inputs of fixed defects and known findings.

pin.py fixed <id> <words of the fix commit's subject> <json input> <what>
pin.py known <id> <signature> <json input> <what>
pin.py            regenerate pinned/*.jsonl and KNOWN_FINDINGS.txt from tools/findings.jsonl
"""
import sys, json, os, subprocess
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
src = f"{root}/tools/findings.jsonl"
if len(sys.argv) > 1:
    kind, pid, key, inp, what = sys.argv[1:6]
    inputs = json.loads(inp) if inp else None
    rec = {"kind": kind, "property": pid, "what": what}
    rec["commit" if kind == "fixed" else "sig"] = key
    if inp: rec["input"] = inputs
    open(src, "a").write(json.dumps(rec, ensure_ascii=False) + "\n")
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h\t%s"], capture_output=True, text=True).stdout.splitlines()
pins, lines = {}, []
for l in open(src):
    r = json.loads(l)
    if r["kind"] == "fixed":
        hs = [x.split("\t")[0] for x in log if r["commit"] in x]
        assert len(hs) == 1, (r["commit"], hs)
        lines.append(f"fixed: property={r['property']} {hs[0]} {r['what']}")
    else:
        lines.append(f"known: property={r['property']} [{r['sig']}] {r['what']}")
    if "input" in r:
        p = {"kind": r["kind"], "what": r["what"], "input": r["input"]}
        if r["kind"] == "known": p["sig"] = r["sig"]
        pins.setdefault(r["property"], []).append(json.dumps(p, ensure_ascii=False))
for pid, ls in pins.items():
    open(f"{root}/pinned/{pid}.jsonl", "w").write("\n".join(ls) + "\n")
open(f"{root}/KNOWN_FINDINGS.txt", "w").write("\n".join(lines) + "\n")
