"""Rewrites section 2 of DESIGN.md (one entry per property) from properties.jsonl, levels.py, the
contract modules and the notes on assumptions.   python3-vt tools/gen_design.py"""
import importlib, json, os, re, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vc import load

load.install()
sys.path.insert(0, load.REPO)
import toffee, vc.contracts
from vc import api
from tools import levels

for ms in vc.contracts.MODULES.values():
    for m in ms:
        importlib.import_module("vc.contracts." + m)
out = []
for l in open(os.path.join(HERE, "properties.jsonl")):
    d = json.loads(l)
    p = d["id"]
    info = vc.contracts.INFO[p]
    cs = api.REG[p]
    full = [c for c in cs if not c.bounded]
    bnd = [c for c in cs if c.bounded]
    lvl = "proof" if p in levels.PROOF else "other (part proof, part bounded)"
    out.append(f"### {p} {d['title']}\n")
    out.append(f"Level: {lvl}. Contracts: `{', '.join(vc.contracts.MODULES[p])}`, {len(full)} unbounded" + (f", {len(bnd)} bounded" if bnd else "") + ".  " + info["explanation"])
    out.append(f"\n*Covers:* {levels.PROOF.get(p) or levels.OTHER.get(p)}.  *Assumes:* " + "; ".join(info["assumptions"]) + ".\n")
text = "\n".join(out)
f = os.path.join(HERE, "DESIGN.md")
s = open(f).read()
a, b = "<!-- properties: generated by tools/gen_design.py -->\n", "<!-- end of properties -->\n"
i, j = s.index(a) + len(a), s.index(b)
open(f, "w").write(s[:i] + "\n" + text + "\n" + s[j:])
