"""Writes properties.jsonl and MANIFEST.json from propdefs.py and the modules in props/."""
import ast
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from propdefs import PROPS

NA = {
    "N01": "the operators are native C++ (fairseq2n); the extension is not built in this sandbox, so neither its source compiles here nor can its threads be encoded",
    "N02": "tokenization is done by native SentencePiece, tiktoken and Hugging Face tokenizers libraries that are not encodable (and not available) here",
    "R09": "percent-encoding, URL splitting and path handling work on concrete texts inside urllib, pathlib and os; a symbolic character does not survive them, so only listing concrete texts would remain, which is not this technique",
    "R10": "the tag is a SHA-1 over formatted texts and regular-expression replacements; neither the hash nor the text formatting can be encoded, and listing concrete configurations is not this technique",
    "N03": "depends on pyarrow, which is not installed here, and on native data pipeline operators",
}
TECH = "symbolic execution of the real Python code with z3 (bounded), counterexamples replayed concretely"


def meta(path):
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id in ("OUTSIDE", "ASSUMPTIONS", "NOTE"):
            out[node.targets[0].id] = ast.literal_eval(node.value)
    return out


with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
checks, na = [], []
for p in PROPS:
    m = os.path.join(root, "props", p["id"] + ".py")
    if p["id"] in NA:
        na.append({"property": p["id"], "reason": NA[p["id"]]})
    elif os.path.exists(m) and p["id"] not in sys.argv[1:]:
        d = meta(m)
        note = "Every path within the stated bounds decided by z3 over all values of the symbolic inputs; bounds per harness are in the evidence file. Trusted: the proxy/tensor semantics in symx (each reported violation is replayed on unpatched code). Outside: " + d.get("OUTSIDE", "")
        if d.get("ASSUMPTIONS"):
            note += ". Assumptions: " + "; ".join(d["ASSUMPTIONS"])
        checks.append({
            "property": p["id"],
            "quick_cmd": f"bash check.sh {p['id']} quick",
            "thorough_cmd": f"bash check.sh {p['id']} thorough",
            "technique": TECH,
            "level": "model_checking",
            "level_note": note,
        })
    else:
        na.append({"property": p["id"], "reason": "no check built yet"})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
