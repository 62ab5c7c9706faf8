"""Writes MANIFEST.json; PROVED lists the properties whose contracts are complete."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROVED = {}
path = os.path.join(HERE, "tools", "proved.json")
if os.path.exists(path):
    PROVED = json.load(open(path))
PARTIAL = json.load(open(os.path.join(HERE, "tools", "partial.json")))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {
 "C24": "whether parsing always terminates with a document or the parser's own error is decided inside the compiled tree-sitter grammar and its error recovery; that is machine code without source in this repository, so no contract on /repo's code can bound the shapes of concrete syntax tree the Python side must accept",
 "C25": "the behaviour lives in browser JavaScript acting on a DOM, jQuery-era libraries and user events; no deductive verifier for JavaScript/DOM is installed and nothing in the sandbox can execute or specify the browser environment",
}
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    pr = PROVED.get(i)
    pt = PARTIAL.get(i)
    DED = "contract-based deductive verification of the repository's source (pyvc: symbolic execution of the parsed functions against contracts, loop invariants and ghost state; z3/cvc5 discharge the obligations)"
    checks.append({
        "property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": DED + ", with a bounded counterexample search on the real code" if pr else
                     DED + " for the parts named in level_note; the rest of the property is a bounded check of the real code against an executable contract" if pt else
                     "bounded counterexample search against executable contracts (deductive contracts for this property are not finished)",
        "level": "proof" if pr else "other" if pt else "exploration",
        "level_note": pr or pt or "bounded: random inputs checked against the executable contract; not a proof",
    })
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo. See DESIGN.md. known-findings.txt lists repaired and recorded defects."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
